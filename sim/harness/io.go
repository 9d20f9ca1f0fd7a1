package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt"
)

// ReaderSpec describes how a simulated source delivers its bytes.
type ReaderSpec struct {
	Kind    string `json:"kind,omitempty"` // "", bytes, strings, buffer, bufio, full, file, wt, multi, limited, section
	Chunks  []int  `json:"chunks,omitempty"`
	Zero    int    `json:"zero,omitempty"`    // every Zero-th read delivers nothing
	DataEOF bool   `json:"dataeof,omitempty"` // end reported with the last bytes
	Prefix  int    `json:"prefix,omitempty"`  // bytes of other content consumed before the parse
	Scratch bool   `json:"scratch,omitempty"` // uses the rest of the buffer as scratch space
	Slow    int    `json:"slow,omitempty"`    // simulated milliseconds per read
	FailAt  int    `json:"failat,omitempty"`  // fails when FailAt-1 bytes were delivered, 0 = never
	FailErr int    `json:"failerr,omitempty"` // which error
	FailDat bool   `json:"faildat,omitempty"` // the error comes together with the last bytes
	Sticky  bool   `json:"sticky,omitempty"`  // the failure repeats; otherwise the source recovers
}

type simError struct{ msg string }

func (e *simError) Error() string   { return e.msg }
func (e *simError) Temporary() bool { return true }
func (e *simError) Timeout() bool   { return true }

// failErr returns one of the injected causes and the text that identifies it.
func failErr(i int) (error, string) {
	switch i % writeErrs {
	case 0:
		return errors.New("simulated failure 4711"), "simulated failure 4711"
	case 1:
		return io.ErrUnexpectedEOF, "unexpected EOF"
	case 2:
		return fmt.Errorf("conn reset 4712: %w", io.EOF), "conn reset 4712"
	case 3:
		return &fs.PathError{Op: "io", Path: "/sim/4713", Err: syscall.EIO}, "/sim/4713"
	case 4:
		return &fs.PathError{Op: "io", Path: "/sim/4714", Err: syscall.ENOSPC}, "/sim/4714"
	case 5:
		return &simError{"timeout 4715"}, "timeout 4715"
	case 6:
		return io.ErrClosedPipe, io.ErrClosedPipe.Error()
	case 7:
		return fmt.Errorf("eintr 4716: %w", syscall.EINTR), "eintr 4716"
	case 8:
		return fmt.Errorf("cut 4717: %w", io.ErrUnexpectedEOF), "cut 4717"
	case 9:
		return io.ErrShortWrite, io.ErrShortWrite.Error()
	case 10:
		return os.ErrDeadlineExceeded, os.ErrDeadlineExceeded.Error()
	case 12:
		return fmt.Errorf("pipe 4718: %w", syscall.EPIPE), "pipe 4718"
	case 13:
		return context.Canceled, context.Canceled.Error()
	case 14:
		return listError{"first", "4719"}, "first, 4719"
	case 15:
		return &fs.PathError{Op: "io", Path: "/sim/4720", Err: syscall.ECONNRESET}, "/sim/4720"
	case 16:
		return io.EOF, "EOF" // for destinations only
	}
	return io.ErrNoProgress, io.ErrNoProgress.Error()
}

var failNames = []string{"plain", "unexpected EOF", "wrapped EOF", "EIO", "ENOSPC", "timeout", "closed pipe", "EINTR", "wrapped unexpected EOF", "short write", "deadline", "no progress", "EPIPE", "canceled", "list", "ECONNRESET", "EOF"}

// The number of causes a source and a destination may fail with.
const (
	readErrs  = 16
	writeErrs = 17
)

// listError is an error that can not be compared.
type listError []string

func (l listError) Error() string { return strings.Join(l, ", ") }

type simReader struct {
	data   []byte
	pos    int
	spec   ReaderSpec
	reads  int
	ci     int
	failed bool
	fired  bool // the fault was delivered
	done   bool // end of stream was delivered
	seen   bool // consumer saw all data
	high   int  // how far it was read
	start  int  // where it stood when it was handed over
	streamUse
}

// streamUse records what happens to a stream that is not the business of the
// one who was asked to read from it or to write to it.
type streamUse struct {
	over   bool   // the call it was given to has returned
	misuse string // the first thing
	ended  bool
}

// linger takes its time where the simulator does not decide when the tasks of
// the library run: the call may have returned in the meantime.
func (u *streamUse) linger() {
	if simrt.Coarse() {
		time.Sleep(2 * time.Millisecond)
		u.use()
	}
}

func (u *streamUse) touch(what string) {
	if u.over {
		what += " after the call returned"
	}
	if u.misuse == "" {
		u.misuse = what
	}
}

// use notes regular use.
func (u *streamUse) use() {
	if u.over {
		u.touch("used")
	}
}

func (s *simReader) Read(p []byte) (n int, err error) {
	simrt.Yield()
	s.reads++
	s.use()
	if s.pos < s.start {
		s.touch("read from before the place it stood at")
	}
	if s.ended {
		s.linger()
	}
	defer func() { s.ended = s.ended || err != nil }()
	if s.spec.Slow > 0 {
		simrt.Advance(time.Duration(s.spec.Slow) * time.Millisecond)
	}
	if s.failed && s.spec.Sticky {
		e, _ := failErr(s.spec.FailErr)
		return 0, e
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.spec.Zero > 0 && s.reads%s.spec.Zero == 0 {
		return 0, nil
	}
	n = len(p)
	if len(s.spec.Chunks) > 0 {
		c := s.spec.Chunks[s.ci%len(s.spec.Chunks)]
		s.ci++
		if c < 1 {
			c = 1
		}
		if c < n {
			n = c
		}
	}
	limit := len(s.data)
	if s.spec.FailAt > 0 && !s.failed && s.spec.FailAt-1 < limit {
		limit = s.spec.FailAt - 1
	}
	if s.pos+n > limit {
		n = limit - s.pos
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	if s.spec.Scratch {
		for i := n; i < len(p) && i < n+256; i++ {
			p[i] = "\x00#}\xff"[i%4]
		}
	}
	s.pos += n
	s.high = max(s.high, s.pos)
	if s.spec.FailAt > 0 && !s.failed && s.pos >= s.spec.FailAt-1 && (n == 0 || s.spec.FailDat) {
		s.failed, s.fired = true, true
		e, _ := failErr(s.spec.FailErr)
		return n, e
	}
	if s.pos >= len(s.data) && (s.spec.FailAt == 0 || s.failed) && (n == 0 || s.spec.DataEOF) {
		s.done = true
		return n, io.EOF
	}
	return n, nil
}

// The wrappers add methods a parser might use as a shortcut.
type lenReader struct{ *simReader }

func (l lenReader) Len() int    { return len(l.data) - l.pos }
func (l lenReader) Size() int64 { return int64(len(l.data)) }

type fullReader struct{ *simReader }

func (f fullReader) Len() int { return len(f.data) - f.pos }
func (f fullReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := f.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}
func (f fullReader) Seek(off int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 || off > int64(len(f.data)) {
		return 0, errors.New("simulated seek error")
	}
	if f.over {
		f.touch("moved")
	}
	f.pos = int(off)
	return off, nil
}
func (f fullReader) ReadAt(p []byte, off int64) (int, error) {
	f.use()
	if off >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (f fullReader) WriteTo(w io.Writer) (int64, error) {
	var total int64
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		if n > 0 {
			m, e := w.Write(buf[:n])
			total += int64(m)
			if e != nil {
				return total, e
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
func (f fullReader) Close() error {
	f.touch("closed")
	return nil
}

type fileReader struct{ fullReader }

func (f fileReader) Name() string               { return "/sim/file.raml" }
func (f fileReader) Stat() (fs.FileInfo, error) { return fileInfo{int64(len(f.data))}, nil }

type fileInfo struct{ size int64 }

func (f fileInfo) Name() string       { return "file.raml" }
func (f fileInfo) Size() int64        { return f.size }
func (f fileInfo) Mode() fs.FileMode  { return 0o644 }
func (f fileInfo) ModTime() time.Time { return time.Unix(1673956800, 0) }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() interface{}   { return nil }

var prefixText = "#%RAML 1.0\ntitle: something else that was read before\ntypes:\n  Other: string\n  Prefix: integer\n...\n" + strings.Repeat("# prefix\n", 900)

// open builds the reader.  The returned simReader is nil for the concrete kinds
// of the standard library, which never fail.
func (sp ReaderSpec) open(text string) (io.Reader, *simReader) {
	pre := prefixText
	n := sp.Prefix
	if n > len(pre) {
		n = len(pre)
	}
	if sp.Kind == "bufio" && sp.FailAt > 0 {
		n = 0 // the failure could strike while the prefix is skipped
	}
	data := []byte(pre[:n] + text)
	skip := func(r io.Reader) io.Reader {
		io.ReadFull(r, make([]byte, n))
		return r
	}
	if sp.FailAt == 0 {
		switch sp.Kind {
		case "bytes":
			return skip(bytes.NewReader(data)), nil
		case "strings":
			return skip(strings.NewReader(string(data))), nil
		case "buffer":
			return skip(bytes.NewBuffer(data)), nil
		case "section":
			return skip(io.NewSectionReader(bytes.NewReader(data), 0, int64(len(data)))), nil
		}
	}
	s := &simReader{data: data, pos: n, start: n, spec: sp}
	if sp.FailAt > 0 {
		s.spec.FailAt += n
		if s.spec.FailAt > len(data)+1 {
			s.spec.FailAt = len(data) + 1
		}
	}
	switch sp.Kind {
	case "len":
		return lenReader{s}, s
	case "full":
		return fullReader{s}, s
	case "file":
		return fileReader{fullReader{s}}, s
	case "bufio":
		s.pos, s.start = 0, 0
		zero := s.spec.Zero
		s.spec.Zero = 0 // bufio gives up on too many empty reads
		if zero > 3 {
			s.spec.Zero = zero
		}
		return skip(bufio.NewReaderSize(s, 16+sp.Prefix%64)), s
	case "multi":
		k := n + (len(data)-n)/3
		if sp.FailAt > 0 {
			return s, s
		}
		s.data = data[k:]
		s.pos, s.start = 0, 0
		return io.MultiReader(bytes.NewReader(data[n:k]), s), s
	case "limited":
		return io.LimitReader(s, int64(len(data))+1), s
	case "tee":
		return io.TeeReader(s, io.Discard), s
	}
	return s, s
}

var readerKinds = []string{"", "", "", "bytes", "strings", "buffer", "section", "len", "full", "file", "bufio", "multi", "limited", "tee"}

func genReader(r *R, textLen int) ReaderSpec {
	sp := ReaderSpec{Kind: readerKinds[r.n(len(readerKinds))]}
	switch r.n(6) {
	case 0:
	case 1:
		sp.Chunks = []int{1}
	case 2:
		sp.Chunks = []int{r.pick2(1, 2, 3, 5, 7, 16, 64, 511, 512, 513, 1024, 4095, 4096, 4097)}
	default:
		for i, c := 0, 1+r.n(6); i < c; i++ {
			sp.Chunks = append(sp.Chunks, r.logN(textLen+2))
		}
	}
	if r.p(0.3) {
		sp.Zero = 2 + r.n(8)
	}
	sp.DataEOF = r.p(0.4)
	sp.Scratch = r.p(0.3)
	if r.p(0.25) {
		sp.Prefix = r.logN(len(prefixText))
	}
	if r.p(0.2) {
		sp.Slow = r.logN(100000)
	}
	return sp
}

func (r *R) pick2(xs ...int) int { return xs[r.n(len(xs))] }

// WriterSpec describes a simulated destination.
type WriterSpec struct {
	Kind    string `json:"kind,omitempty"`   // "", bytes, bufio, full
	FailAt  int    `json:"failat,omitempty"` // fails when FailAt-1 bytes were accepted
	FailNth int    `json:"failnth,omitempty"`
	FailErr int    `json:"failerr,omitempty"`
	Partial bool   `json:"partial,omitempty"` // accepts a part of the failing write
	Sticky  bool   `json:"sticky,omitempty"`  // keeps failing
	Whole   bool   `json:"whole,omitempty"`   // accepts all of the failing write
	Slow    int    `json:"slow,omitempty"`
}

func (w WriterSpec) faulty() bool { return w.FailAt > 0 || w.FailNth > 0 }

type simWriter struct {
	buf    []byte
	spec   WriterSpec
	writes int
	fired  int
	sync   bool
	closed bool // a write after the call returned
	late   int
	fill   func() // takes over what a destination of the standard library got
	streamUse
}

func (s *simWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	s.writes++
	s.use()
	if s.fired > 0 {
		s.linger()
	}
	if s.closed {
		s.late++
	}
	if s.spec.Slow > 0 {
		simrt.Advance(time.Duration(s.spec.Slow) * time.Millisecond)
	}
	e, _ := failErr(s.spec.FailErr)
	if s.fired > 0 && s.spec.Sticky {
		s.fired++
		return 0, e
	}
	if s.fired == 0 {
		if s.spec.FailNth > 0 && s.writes == s.spec.FailNth {
			s.fired++
			n := 0
			if s.spec.Partial {
				n = len(p) / 2
			}
			if s.spec.Whole {
				n = len(p)
			}
			s.buf = append(s.buf, p[:n]...)
			return n, e
		}
		if s.spec.FailAt > 0 && len(s.buf)+len(p) > s.spec.FailAt-1 {
			s.fired++
			n := 0
			if s.spec.Partial {
				n = s.spec.FailAt - 1 - len(s.buf)
				if n < 0 {
					n = 0
				}
			}
			if s.spec.Whole {
				n = len(p)
			}
			s.buf = append(s.buf, p[:n]...)
			return n, e
		}
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

type fullWriter struct{ *simWriter }

func (f fullWriter) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f fullWriter) WriteByte(c byte) error {
	_, err := f.Write([]byte{c})
	return err
}
func (f fullWriter) ReadFrom(r io.Reader) (int64, error) {
	var total int64
	buf := make([]byte, 300)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, e := f.Write(buf[:n])
			total += int64(m)
			if e != nil {
				return total, e
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
func (f fullWriter) Sync() error { return nil }
func (f fullWriter) Close() error {
	f.touch("closed")
	return nil
}
func (f fullWriter) Fd() uintptr { return ^uintptr(0) }
func (f fullWriter) Reset()      { f.touch("emptied") }
func (f fullWriter) Truncate(n int64) error {
	f.touch("truncated")
	return nil
}
func (f fullWriter) Seek(off int64, whence int) (int64, error) {
	at := int64(len(f.buf))
	if whence == io.SeekStart && off != at || whence != io.SeekStart && off != 0 {
		f.touch("moved")
	}
	return at, nil
}
func (f fullWriter) Read(p []byte) (int, error) {
	f.touch("read from")
	return 0, io.EOF
}

const beforeText = "# what was there before\n"

func (w WriterSpec) open() (io.Writer, *simWriter) {
	s := &simWriter{spec: w}
	switch {
	case w.Kind == "full":
		return fullWriter{s}, s
	case w.Kind == "buffer" && !w.faulty():
		b := bytes.NewBufferString(beforeText)
		s.fill = func() {
			s.buf = append([]byte{}, b.Bytes()...)
			if bytes.HasPrefix(s.buf, []byte(beforeText)) {
				s.buf = s.buf[len(beforeText):]
			} else {
				s.touch("emptied")
			}
		}
		return b, s
	case w.Kind == "builder" && !w.faulty():
		b := new(strings.Builder)
		b.WriteString(beforeText)
		s.fill = func() { s.buf = []byte(strings.TrimPrefix(b.String(), beforeText)) }
		return b, s
	case w.Kind == "bufio" && !w.faulty():
		b := bufio.NewWriterSize(s, 16+w.Slow%100)
		s.fill = func() { b.Flush() }
		return b, s
	}
	return s, s
}

func genWriter(r *R, faulty bool, size int) WriterSpec {
	w := WriterSpec{Kind: r.pick("", "", "full", "full", "buffer", "builder", "bufio")}
	if r.p(0.2) {
		w.Slow = r.logN(10000)
	}
	if !faulty {
		return w
	}
	w.FailErr = r.n(writeErrs)
	w.Partial = r.p(0.6)
	w.Whole = r.p(0.15)
	w.Sticky = r.p(0.5)
	if r.p(0.3) {
		w.FailNth = 1 + r.n(3)
	} else if r.p(0.3) {
		w.FailAt = r.logN(size + 1)
	} else {
		w.FailAt = 1 + r.n(size+1)
	}
	if w.Whole && r.p(0.4) {
		w.FailAt = max(1, size-r.logN(140)) // close to the end
	}
	return w
}

/* ------------------------------------------------------------------ */

// Disk is a simulated disk: written data is volatile until it is synced, and a
// rename is durable when the directory was synced.
type Disk struct {
	durable  map[string][]byte
	volatile map[string][]byte
}

func newDisk() *Disk { return &Disk{map[string][]byte{}, map[string][]byte{}} }

func (d *Disk) read(name string) ([]byte, bool) {
	if b, ok := d.volatile[name]; ok {
		return b, true
	}
	b, ok := d.durable[name]
	return b, ok
}

func (d *Disk) write(name string, b []byte) {
	d.volatile[name] = append([]byte{}, b...)
}

func (d *Disk) syncFile(name string) {
	if b, ok := d.volatile[name]; ok {
		d.durable[name] = b
		delete(d.volatile, name)
	}
}

func (d *Disk) rename(from, to string) {
	if b, ok := d.read(from); ok {
		d.durable[to] = append([]byte{}, b...)
		delete(d.durable, from)
		delete(d.volatile, from)
		delete(d.volatile, to)
	}
}

// crash drops what was not synced: files may be lost, cut or torn.
func (d *Disk) crash(r *R) {
	names := make([]string, 0, len(d.volatile))
	for k := range d.volatile {
		names = append(names, k)
	}
	sortStrings(names)
	for _, k := range names {
		b := d.volatile[k]
		switch r.n(3) {
		case 0: // lost
		case 1: // cut
			d.durable[k] = b[:r.n(len(b)+1)]
		case 2: // torn
			c := append([]byte{}, b...)
			for i := r.n(len(c) + 1); i < len(c) && i < 512; i++ {
				c[i] = 0
			}
			d.durable[k] = c
		}
	}
	d.volatile = map[string][]byte{}
}

func sortStrings(xs []string) {
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}
