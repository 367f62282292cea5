package main

import (
	"archive/zip"
	"bufio"
	"bytes"
	"compress/flate"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/csv"
	"encoding/hex"
	"errors"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"io"
	"io/fs"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"bibsim/simrt"
)

// ---- injected errors ------------------------------------------------------

type netErr struct{ s string }

func (e *netErr) Error() string   { return e.s }
func (e *netErr) Timeout() bool   { return true }
func (e *netErr) Temporary() bool { return true }

type valErr struct{ Code int }

func (e valErr) Error() string { return "EOF" }

type unwrapErr struct{ in error }

func (e *unwrapErr) Error() string { return "wrapped: " + e.in.Error() }
func (e *unwrapErr) Unwrap() error { return e.in }

type parseErrLike struct{}

func (*parseErrLike) Error() string { return "1:1: expected 'EOF'" }

const nErrs = 24 + nOddErrs

var oddErrs = []error{syscall.ECONNRESET, syscall.EPIPE, syscall.EAGAIN, syscall.ETIMEDOUT, syscall.EBADF, syscall.EISDIR, syscall.ENOENT, syscall.ECONNABORTED,
	os.NewSyscallError("read", syscall.ECONNRESET), &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	net.ErrClosed, os.ErrDeadlineExceeded, os.ErrPermission, os.ErrInvalid, os.ErrProcessDone, io.ErrShortBuffer, bufio.ErrTooLong, bufio.ErrBufferFull, bufio.ErrFinalToken,
	errors.ErrUnsupported, gzip.ErrChecksum, gzip.ErrHeader, zip.ErrFormat, flate.CorruptInputError(7), base64.CorruptInputError(9), hex.ErrLength, strconv.ErrSyntax, csv.ErrQuote,
	exec.ErrDot, bytes.ErrTooLarge}

const nOddErrs = 30

// mkErr makes the injected error number k. Every call gives a distinct value
// where the kind allows it.
func mkErr(k int) error {
	switch k % nErrs {
	case 0:
		return errors.New("injected failure")
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return fmt.Errorf("connection: %w", io.EOF)
	case 3:
		return syscall.EIO
	case 4:
		return &os.PathError{Op: "read", Path: "x", Err: syscall.EIO}
	case 5:
		return &netErr{"i/o timeout"}
	case 6:
		return valErr{7}
	case 7:
		return &unwrapErr{io.EOF}
	case 8:
		return io.ErrClosedPipe
	case 9:
		return os.ErrClosed
	case 10:
		return io.ErrNoProgress
	case 11:
		return syscall.ENOSPC
	case 12:
		return errors.New("EOF")
	case 13:
		return io.ErrShortWrite
	case 14:
		return &parseErrLike{}
	case 15:
		return context.Canceled
	case 16:
		return context.DeadlineExceeded
	case 17:
		return fs.ErrNotExist
	case 18:
		return fs.SkipAll
	case 19:
		return fs.SkipDir
	case 20:
		return errors.Join(errors.New("one"), io.EOF)
	case 21: // of a type that cannot be compared
		return goscan.ErrorList{{Pos: gotok.Position{Filename: "x", Line: 1, Column: 1}, Msg: "expected 'EOF'"}}
	case 22:
		return syscall.EINTR
	case 23:
		return errors.New("")
	default:
		return oddErrs[k%nErrs-24]
	}
}

// genErr draws an error number below n, mostly one of the first.
func genErr(r *R, n int) int {
	switch {
	case n > nErrs && r.P(1, 20):
		return nErrs // io.EOF
	case r.P(2, 3):
		return r.N(24)
	}
	return r.N(n)
}

// mkCbErr is mkErr for those who have no other use for io.EOF.
func mkCbErr(k int) error {
	if k%(nErrs+1) == nErrs {
		return io.EOF
	}
	return mkErr(k % (nErrs + 1))
}

// identifies reports whether err identifies the injected error in.
func identifies(err, in error) bool {
	if err == nil {
		return false
	}
	if reflect.TypeOf(in).Comparable() {
		return errors.Is(err, in)
	}
	var has func(e error) bool
	has = func(e error) bool {
		if sameErr(e, in) {
			return true
		}
		switch u := e.(type) {
		case interface{ Unwrap() error }:
			return has(u.Unwrap())
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if has(e) {
					return true
				}
			}
		}
		return false
	}
	return has(err)
}

// sameErr reports whether a and b are the same error.
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// ---- reader ---------------------------------------------------------------

// RStep is one read of a scripted reader.
type RStep struct {
	K string `json:"k"`           // "" data, zero, zeros (N of them), stall, err (data+error), panic
	N int    `json:"n,omitempty"` // bytes to deliver
}

// RSpec is a scripted reader: what each Read does; afterwards Def bytes per
// read until the end.
type RSpec struct {
	Steps []RStep `json:"steps,omitempty"`
	Def   int     `json:"def,omitempty"` // 0 = as much as fits
	Scrib bool    `json:"scrib,omitempty"`
	EOFD  bool    `json:"eofd,omitempty"` // last data together with EOF
	Err   int     `json:"err,omitempty"`  // error number
	Fail  int     `json:"fail,omitempty"` // 1 + offset at which reading fails, 0 never
	FailD bool    `json:"fd,omitempty"`   // the error comes together with the last data before it
	Rec   bool    `json:"rec,omitempty"`  // after the failure the reader works again
}

type simReader struct {
	c      *Ctx
	src    []byte
	off    int
	spec   RSpec
	i      int
	zeros  int   // empty reads of the current step so far
	Err    error // the error given, if any
	Fired  bool
	Reads  int
	after  int // reads after the failure
	ended  bool
	onCall func()
}

func newReader(c *Ctx, src []byte, spec RSpec) *simReader {
	if spec.Fail > len(src)+1 {
		spec.Fail = len(src) + 1
	}
	return &simReader{c: c, src: src, spec: spec}
}

type readerPanic struct{ id int }

func (r *simReader) Read(p []byte) (int, error) {
	simrt.Point()
	r.Reads++
	if r.onCall != nil {
		r.onCall()
	}
	if r.Fired {
		r.after++
		if !r.spec.Rec {
			return 0, r.Err
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.spec.Fail > 0 && !r.Fired {
		left := r.spec.Fail - 1 - r.off
		if left <= 0 {
			r.c.Fault("read-error")
			r.Fired = true
			r.Err = mkErr(r.spec.Err)
			return 0, r.Err
		}
		n, err := r.deliver(p[:min(len(p), left)])
		if r.off >= r.spec.Fail-1 && r.spec.FailD && n > 0 {
			r.c.Fault("read-error-with-data")
			r.Fired = true
			r.Err = mkErr(r.spec.Err)
			return n, r.Err
		}
		if err == io.EOF && r.spec.Fail-1 >= len(r.src) {
			err = nil // the failure takes the place of the end of the stream
		}
		return n, err
	}
	return r.deliver(p)
}

func (r *simReader) deliver(p []byte) (int, error) {
	give := func(n int) int {
		if n > len(p) {
			n = len(p)
		}
		if n > len(r.src)-r.off {
			n = len(r.src) - r.off
		}
		copy(p, r.src[r.off:r.off+n])
		r.off += n
		if r.spec.Scrib && n < len(p) {
			r.c.Fault("scribble")
			q := p[n:]
			if len(q) > 64 {
				q = q[:64]
			}
			for i := range q {
				q[i] = "}\"@x{,=\x00\xff"[i%9]
			}
		}
		return n
	}
	for r.i < len(r.spec.Steps) {
		st := r.spec.Steps[r.i]
		r.i++
		switch st.K {
		case "zero":
			r.c.Fault("empty-read")
			return give(0), nil
		case "zeros":
			if r.zeros++; r.zeros < st.N {
				r.i--
			} else {
				r.zeros = 0
			}
			r.c.Fault("many-empty-reads")
			return give(0), nil
		case "stall":
			r.c.Fault("stall")
			simrt.Sleep(time.Duration(st.N) * time.Millisecond)
			continue
		case "err":
			n := give(st.N)
			if n > 0 {
				r.c.Fault("read-error-with-data")
			} else {
				r.c.Fault("read-error")
			}
			r.Fired = true
			r.Err = mkErr(r.spec.Err)
			return n, r.Err
		case "panic":
			r.c.Fault("reader-panic")
			r.Fired = true
			panic(&readerPanic{r.Reads})
		default:
			if r.off >= len(r.src) {
				continue
			}
			n := give(st.N)
			if n < len(r.src)-r.off {
				r.c.Fault("short-read")
			}
			if r.spec.EOFD && r.off >= len(r.src) {
				r.c.Fault("data-with-eof")
				return n, io.EOF
			}
			if n == 0 {
				continue
			}
			return n, nil
		}
	}
	if r.off >= len(r.src) {
		r.ended = true
		return give(0), io.EOF
	}
	n := r.spec.Def
	if n <= 0 {
		n = len(r.src)
	}
	n = give(n)
	if r.off < len(r.src) {
		r.c.Fault("short-read")
	}
	if r.spec.EOFD && r.off >= len(r.src) {
		r.c.Fault("data-with-eof")
		return n, io.EOF
	}
	return n, nil
}

// genReads makes a delivery script over n bytes without failures.
func genReads(r *R, n int) RSpec {
	var s RSpec
	s.Scrib = r.P(1, 3)
	s.EOFD = r.P(1, 3)
	s.Def = pick(r, 0, 1, 2, 3, 7, 64, 511, 512, 513, 4096)
	if s.Def != 0 && s.Def < 8 && n > 20000 {
		s.Def = 100
	}
	k := r.geo(5)
	if k > 40 {
		k = 40
	}
	zeros := 0
	for i := 0; i < k; i++ {
		switch r.N(6) {
		case 0:
			if zeros < 20 {
				s.Steps = append(s.Steps, RStep{K: "zero"})
				zeros++
			}
		case 1:
			s.Steps = append(s.Steps, RStep{K: "stall", N: r.In(1, 100000)})
		default:
			s.Steps = append(s.Steps, RStep{N: pick(r, 1, 1, 2, 3, 5, 16, 100, 511, 512, 1000)})
		}
	}
	return s
}

func validRSpec(s *RSpec, allowFail bool) bool {
	z := 0
	for _, st := range s.Steps {
		switch st.K {
		case "zero":
			z++
		case "", "stall":
		case "zeros":
			if st.N > 400 {
				return false
			}
		case "err", "panic":
			if !allowFail {
				return false
			}
		default:
			return false
		}
		if st.N < 0 || st.K == "" && st.N < 1 {
			return false
		}
	}
	return z <= 20 && s.Def >= 0 && s.Err >= 0 && s.Fail >= 0 && (allowFail || s.Fail == 0)
}

// ---- source kinds ---------------------------------------------------------

// lenReader also offers what bytes.Reader offers, so that shortcuts taken for
// "sized" readers are exercised.
type lenReader struct{ *simReader }

func (l lenReader) Len() int    { return len(l.src) - l.off }
func (l lenReader) Size() int64 { return int64(len(l.src)) }

// seekReader claims to be seekable but fails, like a pipe.
type seekReader struct{ *simReader }

func (seekReader) Seek(int64, int) (int64, error) { return 0, syscall.ESPIPE }
func (s seekReader) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		n, err := s.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

// prefixed delivers one byte in front of what r delivers first.
type prefixed struct {
	r    io.Reader
	done bool
}

func (p *prefixed) Read(b []byte) (int, error) {
	if p.done || len(b) < 2 {
		return p.r.Read(b)
	}
	p.done = true
	b[0] = '@'
	n, err := p.r.Read(b[1:])
	return n + 1, err
}

// writerTo also offers to write itself to a writer.
type writerTo struct{ *simReader }

func (w writerTo) WriteTo(dst io.Writer) (int64, error) {
	var b [700]byte
	var total int64
	for {
		n, err := w.Read(b[:])
		if n > 0 {
			m, werr := dst.Write(b[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// chatty has methods that tell nothing about the bytes it delivers.
type chatty struct{ *simReader }

func (c chatty) String() string             { return "@chatty{reader}" }
func (c chatty) GoString() string           { return "@chatty{reader}" }
func (c chatty) Text() string               { return "@chatty{text}" }
func (c chatty) Bytes() []byte              { return c.src[max(0, c.off-3):c.off] }
func (c chatty) Name() string               { return "no-such-file.bib" }
func (c chatty) Len() int                   { return 1 }
func (c chatty) Size() int64                { return 1 }
func (c chatty) Buffered() int              { return 1 }
func (c chatty) Available() int             { return 0 }
func (c chatty) Stat() (os.FileInfo, error) { return os.Stat("/dev/null") }

// closer can be closed, which nobody was asked to do.
type closer struct{ *simReader }

func (closer) Close() error { return errors.New("closed before") }

type bufferLike struct{ bytes.Buffer }

// readerKinds are the io.Reader shapes a source can come as.
var readerKinds = []string{"sim", "len", "seek", "bytes.Reader", "strings.Reader", "bufio", "limited", "multi", "bufferlike", "tail", "section", "primed", "writerto", "os.File", "shared.File", "chatty", "closer"}

func asReader(kind string, sr *simReader) io.Reader {
	switch kind {
	case "len":
		return lenReader{sr}
	case "chatty":
		return chatty{sr}
	case "closer":
		return closer{sr}
	case "seek":
		return seekReader{sr}
	case "bytes.Reader":
		return bytes.NewReader(sr.src)
	case "strings.Reader":
		return strings.NewReader(string(sr.src))
	case "bufio":
		return bufio.NewReaderSize(sr, 16)
	case "primed": // partly consumed, with some of the rest already buffered
		sr.spec.Rec = false // bufio.Reader.WriteTo asks again after a stored error
		br := bufio.NewReader(&prefixed{r: sr})
		br.ReadByte()
		return br
	case "writerto":
		return writerTo{sr}
	case "os.File", "shared.File": // an open file, the latter at an offset
		junk := ""
		if kind == "shared.File" {
			junk = "@junk{"
		}
		d := sr.c.Disk()
		f, err := os.Open(d.Put("open.bib", append([]byte(junk), sr.src...)))
		if err != nil {
			panic(err)
		}
		d.open = append(d.open, f)
		if _, err := f.Seek(int64(len(junk)), io.SeekStart); err != nil {
			panic(err)
		}
		return f
	case "limited":
		return &io.LimitedReader{R: io.MultiReader(sr, strings.NewReader("@junk{")), N: int64(len(sr.src))}
	case "multi":
		h := len(sr.src) / 2
		return io.MultiReader(bytes.NewReader(nil), bytes.NewReader(sr.src[:h]), bytes.NewReader(sr.src[h:]))
	case "bufferlike":
		b := &bufferLike{}
		b.Write(sr.src)
		return b
	case "tail": // a reader already partly consumed
		rd := strings.NewReader("@junk{a,\n" + string(sr.src))
		io.CopyN(io.Discard, rd, 9)
		return rd
	case "section":
		return io.NewSectionReader(bytes.NewReader(append([]byte("@junk{"), sr.src...)), 6, int64(len(sr.src)))
	}
	return sr
}

// usesScript reports whether the reader kind goes through the scripted reader.
func usesScript(kind string) bool {
	switch kind {
	case "sim", "len", "chatty", "closer", "seek", "bufio", "limited", "primed", "writerto":
		return true
	}
	return false
}

// ---- writer ---------------------------------------------------------------

// WSpec is a scripted writer: At is the index of the write that misbehaves.
type WSpec struct {
	At   int    `json:"at"`
	K    string `json:"k,omitempty"`    // "" healthy, err, partial, short, panic
	N    int    `json:"n,omitempty"`    // bytes accepted by the failing write
	Err  int    `json:"err,omitempty"`  // error number
	Kind string `json:"kind,omitempty"` // extra interfaces: string, all
	Stal int    `json:"stal,omitempty"` // stall every so many writes
	Once bool   `json:"once,omitempty"` // only that write fails, later ones work
}

type simWriter struct {
	c      *Ctx
	spec   WSpec
	Out    []byte   // bytes accepted
	Writes [][]byte // what each write was handed
	Err    error
	Fired  bool
	After  int // writes after the failing one
	onCall func()
}

type writerPanic struct{ at int }

func (w *simWriter) write(p []byte) (int, error) {
	simrt.Point()
	i := len(w.Writes)
	w.Writes = append(w.Writes, append([]byte(nil), p...))
	if w.onCall != nil {
		w.onCall()
	}
	if w.Fired {
		w.After++
		if w.spec.Once {
			w.Out = append(w.Out, p...)
			return len(p), nil
		}
		return 0, w.Err
	}
	if w.spec.Stal > 0 && i%w.spec.Stal == 0 {
		w.c.Fault("slow-write")
		simrt.Sleep(time.Millisecond)
	}
	if w.spec.K == "" || i != w.spec.At {
		w.Out = append(w.Out, p...)
		return len(p), nil
	}
	w.Fired = true
	n := min(w.spec.N, len(p))
	switch w.spec.K {
	case "panic":
		w.c.Fault("writer-panic")
		panic(&writerPanic{i})
	case "partial":
		w.c.Fault("write-error-partial")
		w.Err = mkCbErr(w.spec.Err)
	case "short":
		// io.Writer: a short write must come with an error.
		if n == len(p) && n > 0 {
			n--
		}
		w.c.Fault("short-write")
		w.Err = io.ErrShortWrite
	default:
		n = 0
		w.c.Fault("write-error")
		w.Err = mkCbErr(w.spec.Err)
	}
	w.Out = append(w.Out, p[:n]...)
	return n, w.Err
}

func (w *simWriter) Write(p []byte) (int, error) { return w.write(p) }

type stringWriter struct{ *simWriter }

func (s stringWriter) WriteString(x string) (int, error) { return s.write([]byte(x)) }

type allWriter struct{ stringWriter }

func (s allWriter) WriteByte(b byte) error {
	_, err := s.write([]byte{b})
	return err
}
func (s allWriter) WriteRune(r rune) (int, error) { return s.write([]byte(string(r))) }
func (s allWriter) Flush() error                  { return nil }

func asWriter(w *simWriter) io.Writer {
	switch w.spec.Kind {
	case "string":
		return stringWriter{w}
	case "all":
		return allWriter{stringWriter{w}}
	}
	return w
}

// ---- disk -----------------------------------------------------------------

// DFault is a disk fault on one file.
type DFault struct {
	K   string `json:"k"`           // open, read, short, stall
	Off int    `json:"off"`         // offset of the failing read
	Err int    `json:"e,omitempty"` // errno index
	N   int    `json:"n,omitempty"` // short-read size
}

var errnos = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOENT, syscall.EMFILE, syscall.ENOMEM, syscall.ESTALE, syscall.ETIMEDOUT, syscall.EPERM, syscall.ENXIO, syscall.EBUSY, syscall.EOVERFLOW, syscall.ENFILE, syscall.EINVAL, syscall.EISDIR, syscall.ENODEV}

type dfault struct {
	DFault
	fired atomic.Pointer[error] // what the code was given
}

// disk is a scratch directory whose reads and writes go through the simulator.
type disk struct {
	c      *Ctx
	dir    string
	old    string // working directory before, if it is now dir
	faults map[string]*dfault
	open   []*os.File // given out as readers
	mu     sync.Mutex
	live   map[*os.File]bool // opened by the code under test and not closed
	limit  int               // of open files, 0 for none
	env    []func()          // restore the environment
}

var curDisk *disk

func (c *Ctx) Disk() *disk {
	if c.disk == nil {
		d := filepath.Join(*fDir, "disk")
		if *fDir == "" {
			fatal("-dir is required")
		}
		os.MkdirAll(d, 0o700)
		c.disk = &disk{c: c, dir: d, faults: map[string]*dfault{}, live: map[*os.File]bool{}}
		curDisk = c.disk
	}
	return c.disk
}

func closeDisk(c *Ctx) {
	if c.disk != nil {
		for _, f := range c.disk.open {
			f.Close()
		}
		for f := range c.disk.live {
			f.Close()
		}
		for _, fn := range c.disk.env {
			fn()
		}
		if c.disk.old != "" {
			if err := os.Chdir(c.disk.old); err != nil {
				fatal("%v", err)
			}
		}
		ents, _ := os.ReadDir(c.disk.dir)
		for _, e := range ents {
			os.RemoveAll(filepath.Join(c.disk.dir, e.Name()))
		}
		c.disk = nil
		curDisk = nil
	}
}

// Enter makes the directory the working directory until the run ends.
func (d *disk) Enter() {
	if d.old != "" {
		return
	}
	var err error
	if d.old, err = os.Getwd(); err == nil {
		err = os.Chdir(d.dir)
	}
	if err != nil {
		fatal("%v", err)
	}
}

// has reports whether a path that is opened belongs to the disk.
func (d *disk) has(name string) bool {
	return strings.HasPrefix(name, d.dir) || d.old != "" && !filepath.IsAbs(name)
}

func (d *disk) fault(name string) *dfault {
	if f := d.faults[name]; f != nil {
		return f
	}
	if !filepath.IsAbs(name) {
		name = filepath.Join(d.dir, name)
	}
	return d.faults[filepath.Clean(name)]
}

// oddPaths are names of files that a program might treat specially.
var oddPaths = []string{"-", "--", "-x", "~", "~x.bib", "$HOME", "*.bib", "[a].bib", "?", "%s.bib", "a b.bib", "ünï.bib", "x\ny.bib", "<stdin>", "a:1:2", " ", ".hidden", "..b", "a.bib~", "file:x.bib", "http:x.bib", "C:\\x.bib", "\xff.bib", "a#b.bib", "@f", "a.bib.gz", "x.zip", "A.BIB", "a.bib", "stdin", "NUL", "nul.", "#x#", "a,b", "a;b", "{a,b}", "'q'", "\"q\"", "tmp.tex", "noext", "a\\b.bib", "(a)", "&", "|x", "!x", "@{u}", "x\r", "x\t.bib"}

// fileDirs are directories below the scratch directory.
var fileDirs = []string{"a", "b", "a/b", "b/a", "sp ace", "..x", "d.bib.d", "ä", "-" + "d", "a/a/a/a/a/a/a/a"}

// Link makes a symbolic link outside the simulation.
func (d *disk) Link(target, name string) {
	p := filepath.Join(d.dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
		fatal("%v", err)
	}
	if err := os.Symlink(target, p); err != nil {
		fatal("%v", err)
	}
}

// decoys are other names a program might look for instead of x.
func decoys(x string) []string {
	dir, base := filepath.Split(x)
	ext := filepath.Ext(base)
	out := []string{x + ".bib", x + ".bak", x + "~", x + ".orig", x + ".old", x + ".tmp", x + ".new", x + ".txt", x + ".gz", x + ".BIB", dir + "#" + base + "#", dir + "." + base + ".swp", dir + "." + base,
		dir + strings.ToLower(base), dir + strings.ToUpper(base), dir + strings.TrimSpace(base), dir + "_" + base, "inputs/" + base, "inputs/" + base + ".bib"}
	if ext != "" && ext != base {
		out = append(out, strings.TrimSuffix(x, ext), strings.TrimSuffix(x, ext)+".bibtex", strings.TrimSuffix(x, ext)+".BIB")
	}
	return out
}

// Decoys puts files that are not asked for around a name.
func (d *disk) Decoys(name string) {
	d.c.Probe("files-around")
	for _, n := range decoys(name) {
		if _, err := os.Lstat(d.Path(n)); err == nil || filepath.Clean(n) == filepath.Clean(name) {
			continue
		}
		d.Put(n, []byte("@book{decoy, title = {Wrong file}}\n"))
	}
	for _, v := range []string{"BIBINPUTS", "TEXINPUTS", "TEXMF", "BIBPATH", "HOME"} {
		if old, ok := os.LookupEnv(v); ok {
			d.env = append(d.env, func() { os.Setenv(v, old) })
		} else {
			d.env = append(d.env, func() { os.Unsetenv(v) })
		}
		os.Setenv(v, d.Path("inputs"))
	}
}

// Put stores a file outside the simulation.
func (d *disk) Put(name string, b []byte) string {
	p := filepath.Join(d.dir, name)
	if strings.Contains(name, "/") {
		if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic(err)
	}
	return p
}

// Fail makes reads of the file at path p meet a fault.
func (d *disk) Fail(p string, f DFault) *dfault {
	d.faults[p] = &dfault{DFault: f}
	return d.faults[p]
}

func (f *dfault) fire() error {
	var e error = errnos[f.Err%len(errnos)]
	f.fired.Store(&e)
	return e
}

// Fired returns the error the code was given on reading p, or nil.
func (d *disk) Fired(p string) error {
	if f := d.faults[p]; f != nil {
		if e := f.fired.Load(); e != nil {
			return *e
		}
	}
	return nil
}

func (d *disk) Path(name string) string { return filepath.Join(d.dir, name) }

func init() {
	os.SimOpen = func(name string) error {
		d := curDisk
		if d == nil || simrt.Cur() == nil || !d.has(name) {
			return nil
		}
		simrt.Point()
		if f := d.fault(name); f != nil && f.K == "open" {
			d.c.Fault("open-error")
			return f.fire()
		}
		if d.limit > 0 {
			d.mu.Lock()
			defer d.mu.Unlock()
			if len(d.live) >= d.limit {
				d.c.Fault("too-many-open-files")
				return syscall.EMFILE
			}
		}
		return nil
	}
	os.SimOpened = func(f *os.File) {
		if d := curDisk; d != nil && d.limit > 0 && simrt.Cur() != nil && d.has(f.Name()) {
			d.mu.Lock()
			defer d.mu.Unlock()
			d.live[f] = true
		}
	}
	os.SimClosed = func(f *os.File) {
		if d := curDisk; d != nil && d.limit > 0 && simrt.Cur() != nil {
			d.mu.Lock()
			defer d.mu.Unlock()
			delete(d.live, f)
		}
	}
	// shape applies the file's fault to a read of b at off; err is final.
	shape := func(d *disk, f *os.File, b []byte, off int) ([]byte, error) {
		simrt.Point()
		ft := d.fault(f.Name())
		if ft == nil {
			return b, nil
		}
		switch ft.K {
		case "read":
			if off >= ft.Off {
				d.c.Fault("disk-read-error")
				return nil, ft.fire()
			}
			if len(b) > ft.Off-off {
				b = b[:ft.Off-off]
			}
		case "short":
			n := max(ft.N, 1)
			if len(b) > n {
				b = b[:n]
				d.c.Fault("disk-short-read")
			}
		case "stall":
			d.c.Fault("disk-stall")
			simrt.Sleep(20 * time.Millisecond)
		}
		return b, nil
	}
	os.SimRead = func(f *os.File, b []byte, real func([]byte) (int, error)) (int, error) {
		d := curDisk
		if d == nil || simrt.Cur() == nil || !d.has(f.Name()) {
			return real(b)
		}
		off, err := f.Seek(0, io.SeekCurrent)
		if err != nil {
			return real(b)
		}
		b, err = shape(d, f, b, int(off))
		if err != nil {
			return 0, err
		}
		return real(b)
	}
	os.SimPread = func(f *os.File, b []byte, off int64, real func([]byte, int64) (int, error)) (int, error) {
		d := curDisk
		if d == nil || simrt.Cur() == nil || !d.has(f.Name()) {
			return real(b, off)
		}
		b, err := shape(d, f, b, int(off))
		if err != nil {
			return 0, err
		}
		return real(b, off)
	}
	os.SimWrite = func(f *os.File, b []byte, real func([]byte) (int, error)) (int, error) {
		if f == os.Stdout && simrt.Cur() != nil {
			if traceSink != nil {
				return traceSink(b)
			}
			return len(b), nil
		}
		return real(b)
	}
}

// traceSink receives what the code under test prints on standard output.
var traceSink func(b []byte) (int, error)

// TSpec is the behaviour of standard output while tracing.
type TSpec struct {
	At int    `json:"at"`          // first write that misbehaves
	K  string `json:"k,omitempty"` // "" discard, err, short, stall
}

func (c *Ctx) sink(t TSpec) {
	i := 0
	left := int64(64_000_000)
	traceSink = func(b []byte) (int, error) {
		simrt.Point()
		// A trace is indented by the depth: what it takes to make its bytes
		// is not work that is proportional to the input.
		n := min(int64(len(b)), left)
		left -= n
		simrt.Allow(n)
		i++
		if t.K == "" || i <= t.At {
			return len(b), nil
		}
		switch t.K {
		case "err":
			c.Fault("stdout-error")
			return 0, syscall.EIO
		case "full":
			c.Fault("stdout-full")
			return 0, syscall.ENOSPC
		case "stall":
			c.Fault("stdout-stall")
			simrt.Sleep(time.Second)
		}
		return len(b), nil
	}
}
