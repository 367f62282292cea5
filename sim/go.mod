module bibsim

go 1.25

require github.com/jschaf/bibtex v0.0.0

replace github.com/jschaf/bibtex => /repo
