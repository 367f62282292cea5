From 89de33f69ae15aaf731c148302ea15322196700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 01/16] fix: end of file inside a parsed string ends the token
 stream

A string that was not closed before the end of the file made the scanner
return Illegal tokens forever, so the parser looped and its memory grew
without bound.
---
 parser/parser.go   | 6 +++++-
 scanner/scanner.go | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..0a81506 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
@@ -452,6 +452,10 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 
 		values := make([]ast.Expr, 0, 2)
 		for p.tok != token.StringRBrace {
+			if p.tok == token.EOF {
+				p.errorExpected(p.pos, "closing brace")
+				return &ast.BadExpr{From: opener, To: p.pos}
+			}
 			text := p.parseText(depth + 1)
 			if _, ok := text.(*ast.BadExpr); ok {
 				p.next()
diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..585f750 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -408,6 +408,12 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 		panic("called scanInString but not in quote")
 	}
 	pos = s.file.Pos(s.offset)
+	if s.ch == eof {
+		s.error(s.offset, "string literal not terminated")
+		s.endQuoteCh = 0
+		tok = token.EOF
+		return
+	}
 	if !s.isSpecialStringChar(s.ch) {
 		tok = token.StringContents
 		lit = s.scanStringContents()
-- 
2.43.0


From ac66d2cbec2f1755b6628593a9db96dddfb96452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 02/16] fix: an unexpected token inside a string yields a
 BadExpr, not a nil node

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0a81506..f63eb33 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -475,6 +475,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 		return p.parseStringAccent()
 	default:
 		p.error(p.pos, "unknown text type: "+p.tok.String())
+		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 
 	p.next()
-- 
2.43.0


From 6744d05d15ce13435f7b20b36dd4b2b40f2be74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 03/16] fix: unterminated unparsed strings no longer panic or
 lose a byte at end of file

---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 585f750..a5ad654 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -225,7 +225,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -254,7 +254,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From 8e7b26d52aba705c1388265adc4ded3927e74ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 04/16] fix: nested braces of unparsed strings are balanced

The first byte after a nested opening brace was skipped, so {{}} and {{{a}}}
were not closed where they should be.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index a5ad654..aaa74d2 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -261,7 +261,6 @@ func (s *Scanner) scanBraceString() string {
 			break
 		}
 		if ch == '{' {
-			s.next()
 			s.scanBraceString()
 		}
 	}
-- 
2.43.0


From 99158197033e53e0ada90b252ee4b8687942726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 05/16] fix: an accent command at end of file is an error, not
 a panic

---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index aaa74d2..b9a18ce 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -364,8 +364,12 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		for s.ch == ' ' {
 			s.next()
 		}
+		if s.ch == eof {
+			s.errorf(offs, "expected character after accent sequence %q, got end of file", tokStr)
+			return token.Illegal, ""
+		}
 		// append accented char, e.g. 'c'
-		tokStr += string(s.src[s.offset])
+		tokStr += string(s.ch)
 		s.next() // consume the letter that's accented
 		return token.StringAccent, tokStr
 	} else {
-- 
2.43.0


From 7d49a388f39a94f94336d8af7f0f46b8e264bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 06/16] fix: only cite keys are recorded as keys

A tag name followed by a comma was recorded as a (extra) cite key, and a cite
key that was not followed by a comma was dropped.
---
 parser/parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f63eb33..98e774e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -779,19 +779,19 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 				Value:   fixVal,
 			}
 			tags = append(tags, tag)
-		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
+		case token.Comma, token.RBrace, token.RParen:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
-			continue
+		default:
+			// Keep going.
+		}
+		switch p.tok {
+		case token.Comma:
+			p.next()
 		default:
 			// Keep going.
 		}
-- 
2.43.0


From 91b009215f3b4c88a1507218a36b69f8bc86ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 07/16] fix: ParsePackage no longer panics on the first file it
 parsed

---
 parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..6c839db 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -131,7 +131,7 @@ func ParseExpr(str string) (ast.Expr, error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File, len(paths))}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
-- 
2.43.0


From 13be7ebf673805f87777f58ba069dce5bea65480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 08/16] fix: Scanner.Init resets the string state of the
 previous source

---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b9a18ce..dbb4505 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From 3748352e7aeae1976ea6af01810dfe096a53f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 09/16] fix: ParseExpr returns the errors when it stops at the
 error limit

---
 parser/interface.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 6c839db..a717a46 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,16 +107,26 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (x ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+			p.errors.Sort()
+			x, err = nil, p.errors.Err()
+		}
+	}()
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
 	expr := p.parseExpr()
 	p.errors.Sort()
-	err := p.errors.Err()
+	err = p.errors.Err()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7f1c57d9482c8192ef2784ce9999c55c3b287aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 10/16] fix: resolving an entry without a citation key no
 longer panics

---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..d6cfa7e 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil { // entries like @book{} have no key
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From 0a3b41d1c334b80d42d700793a1d54adae2f4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 11/16] fix: Walk reaches the values of tags and the tags of
 abbreviations

---
 ast/walk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..e574419 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,18 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *AbbrevDecl:
+			if t.Tag != nil {
+				if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
+		case *TagStmt:
+			if t.Value != nil {
+				if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
-- 
2.43.0


From 75debf378dc926501728db8a29807a3d7152d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 12/16] fix: write errors of identifiers and concatenations are
 reported

---
 render/render.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 3774dca..17d6261 100644
--- a/render/render.go
+++ b/render/render.go
@@ -62,7 +62,9 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 
 func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
@@ -219,7 +221,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0


From deab2a830a53fcf1b2ca41ebf2c7db397937aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 13/16] fix: rendering text and accents with the default
 renderers no longer panics

---
 render/render.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 17d6261..5f4faa7 100644
--- a/render/render.go
+++ b/render/render.go
@@ -103,8 +103,20 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 }
 
 func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(txt.Value)); err != nil {
+	var txt string
+	switch t := n.(type) {
+	case *ast.Text:
+		txt = t.Value
+	case *ast.TextAccent: // shares its kind with ast.Text
+		r, err := RenderAccent(t.Accent, t.Text.Value)
+		if err != nil {
+			return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
+		}
+		txt = string(r)
+	default:
+		return ast.WalkStop, fmt.Errorf("default renderText: unexpected node type %T", n)
+	}
+	if _, err := w.Write([]byte(txt)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From f3bf511e564e5dca7a164da09bb2afe043e13f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 14/16] fix: the default renderers write the text of each leaf
 once

---
 render/render.go | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/render/render.go b/render/render.go
index 5f4faa7..53e007c 100644
--- a/render/render.go
+++ b/render/render.go
@@ -60,7 +60,10 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
 	if _, err := w.Write([]byte(ident.Name)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
@@ -102,7 +105,10 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	var txt string
 	switch t := n.(type) {
 	case *ast.Text:
@@ -122,14 +128,20 @@ func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -137,16 +149,20 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
-		if _, err := w.Write([]byte("$")); err != nil {
+		math := n.(*ast.TextMath)
+		if _, err := w.Write([]byte("$" + math.Value)); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
 	} else {
@@ -157,16 +173,26 @@ func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	sp := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(sp.Value)); err != nil {
+	val := sp.Value
+	if val == "" { // the parser leaves the value empty
+		val = " "
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From e19783ff28d95e61fe7d3f3d5dfd629bbdcc05c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 15/16] fix: extracting authors no longer panics on macros, bad
 accents and bad expressions

---
 author.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/author.go b/author.go
index 8582785..acd792d 100644
--- a/author.go
+++ b/author.go
@@ -15,6 +15,11 @@ const authorSep = "and"
 // ExtractAuthors extracts the authors from the parsed text of a bibtex field,
 // usually from the author or editor field of bibtex entry.
 func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
+	for _, v := range txt.Values {
+		if err := checkAuthorExpr(v); err != nil {
+			return nil, fmt.Errorf("extract authors: %w", err)
+		}
+	}
 	// Pop tokens until we get the author separator then hand off the tokens
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
@@ -121,6 +126,32 @@ func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
 	return parseDefault(idx, xs), resolveContinue
 }
 
+// checkAuthorExpr returns an error if x contains an expression that parseDefault
+// can't convert to a string, like a bad expression or an unsupported accent.
+func checkAuthorExpr(x ast.Expr) error {
+	var children []ast.Expr
+	switch t := x.(type) {
+	case *ast.ParsedText:
+		children = t.Values
+	case *ast.TextMacro:
+		children = t.Values
+	case *ast.TextAccent:
+		if _, err := render.RenderAccent(t.Accent, t.Text.Value); err != nil {
+			return fmt.Errorf("render accent: %w", err)
+		}
+	case *ast.TextComma, *ast.TextEscaped, *ast.TextHyphen, *ast.TextNBSP,
+		*ast.TextSpace, *ast.TextMath, *ast.Text:
+	default:
+		return fmt.Errorf("unsupported expression %T in author", x)
+	}
+	for _, child := range children {
+		if err := checkAuthorExpr(child); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // TODO: replace with single resolver
 func parseDefault(idx int, xs []ast.Expr) string {
 	x := xs[idx]
@@ -133,6 +164,13 @@ func parseDefault(idx int, xs []ast.Expr) string {
 			sb.WriteString(d)
 		}
 		return sb.String()
+	case *ast.TextMacro:
+		// Skip the command and keep the args.
+		sb := strings.Builder{}
+		for i := range t.Values {
+			sb.WriteString(parseDefault(i, t.Values))
+		}
+		return sb.String()
 	case *ast.TextComma:
 		return ","
 	case *ast.TextEscaped:
-- 
2.43.0


From a5cd11bb7e3b7c0876f627081a54a0abb36b3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 16/16] fix: nested braces of unparsed strings are scanned in
 linear time

---
 scanner/scanner.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index dbb4505..4e497c9 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -253,18 +253,18 @@ func (s *Scanner) scanNumber() string {
 func (s *Scanner) scanBraceString() string {
 	offs := s.offset
 
-	for {
+	for depth := 1; depth > 0; {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
 			return string(s.src[offs:s.offset])
 		}
 		s.next()
-		if ch == '}' {
-			break
-		}
-		if ch == '{' {
-			s.scanBraceString()
+		switch ch {
+		case '{':
+			depth++
+		case '}':
+			depth--
 		}
 	}
 	return string(s.src[offs : s.offset-1])
-- 
2.43.0

