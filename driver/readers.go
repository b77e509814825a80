package main

// The kinds of reader a caller may pass: what a scanner does may not depend on what else a reader can do.

import (
	"bufio"
	"bytes"
	"io"
	"os"
	"strings"
	"unicode/utf8"
)

// ableReader delivers like the reader under it, and offers the ways round Read that the io package knows
type ableReader struct{ *schedReader }

func (a ableReader) WriteTo(w io.Writer) (n int64, err error) {
	b := make([]byte, 512)
	for {
		k, e := a.Read(b)
		m, we := w.Write(b[:k])
		n += int64(m)
		if we != nil {
			return n, we
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

func (a ableReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, e := a.Read(b[:])
		if n == 1 {
			return b[0], nil // the error comes again
		}
		if e != nil {
			return 0, e
		}
	}
}

func (a ableReader) ReadRune() (rune, int, error) {
	var b []byte
	for len(b) == 0 || len(b) < 4 && !utf8.FullRune(b) {
		c, e := a.ReadByte()
		if e != nil && len(b) == 0 {
			return 0, 0, e
		}
		if e != nil {
			break
		}
		b = append(b, c)
	}
	r, n := utf8.DecodeRune(b)
	return r, n, nil
}

// Len is what is there now, not what is yet to come
func (a ableReader) Len() int {
	if a.i < len(a.sched) {
		return a.sched[a.i].N - a.part
	}
	return 0
}

func (a ableReader) Buffered() int { return a.Len() }

const already = "Read before. 1 a\u0301"

// readerKinds: n bytes of text, delivered in some way; plain: without a failure and in whatever pieces
var readerKinds = []struct {
	name  string
	plain bool
	wrap  func(rd *schedReader) (io.Reader, func())
}{
	{"a reader", false, func(rd *schedReader) (io.Reader, func()) { return rd, nil }},
	{"a reader with WriteTo, ReadByte, ReadRune, Len", false, func(rd *schedReader) (io.Reader, func()) { return ableReader{rd}, nil }},
	{"a bufio.Reader", false, func(rd *schedReader) (io.Reader, func()) { return bufio.NewReaderSize(rd, 16), nil }},
	{"a bufio.Reader with something in it", false, func(rd *schedReader) (io.Reader, func()) {
		b := bufio.NewReader(rd)
		if rd.text != "" {
			b.Peek(1) // would take the failure away from an empty text
		}
		return b, nil
	}},
	{"an io.MultiReader", false, func(rd *schedReader) (io.Reader, func()) {
		return io.MultiReader(strings.NewReader(""), rd, bytes.NewReader(nil)), nil
	}},
	{"an io.TeeReader", false, func(rd *schedReader) (io.Reader, func()) { return io.TeeReader(rd, io.Discard), nil }},
	{"an io.LimitedReader", false, func(rd *schedReader) (io.Reader, func()) {
		return &io.LimitedReader{R: rd, N: int64(len(rd.text)) + 1}, nil
	}},
	{"an io.Pipe", false, func(rd *schedReader) (io.Reader, func()) {
		r, w := io.Pipe()
		go func() {
			pos := 0
			for _, x := range rd.sched {
				if _, e := io.WriteString(w, rd.text[pos:pos+x.N]); e != nil {
					return
				}
				pos += x.N
				if x.End == "err" {
					w.CloseWithError(rd.err)
					return
				}
			}
			w.Close()
		}()
		return r, func() { r.Close() }
	}},
	{"a strings.Reader, read from before", true, func(rd *schedReader) (io.Reader, func()) {
		r := strings.NewReader(already + rd.text)
		io.CopyN(io.Discard, r, int64(len(already)))
		return r, nil
	}},
	{"a bytes.Reader, read from before", true, func(rd *schedReader) (io.Reader, func()) {
		r := bytes.NewReader([]byte(already + rd.text))
		r.Seek(int64(len(already)), io.SeekStart)
		return r, nil
	}},
	{"a bytes.Buffer, read from before", true, func(rd *schedReader) (io.Reader, func()) {
		b := bytes.NewBufferString(already + rd.text)
		b.Next(len(already))
		return b, nil
	}},
	{"an io.SectionReader", true, func(rd *schedReader) (io.Reader, func()) {
		return io.NewSectionReader(strings.NewReader(already+rd.text+" and more"), int64(len(already)), int64(len(rd.text))), nil
	}},
	{"an io.LimitedReader with more behind", true, func(rd *schedReader) (io.Reader, func()) {
		return io.LimitReader(strings.NewReader(rd.text+" and more"), int64(len(rd.text))), nil
	}},
	{"a file, read from before", true, func(rd *schedReader) (io.Reader, func()) {
		f, e := os.CreateTemp("", "uax29-text-")
		if e != nil {
			return strings.NewReader(rd.text), nil
		}
		os.Remove(f.Name())
		if _, e := f.WriteString(already + rd.text); e != nil {
			f.Close()
			return strings.NewReader(rd.text), nil
		}
		f.Seek(int64(len(already)), io.SeekStart)
		return f, func() { f.Close() }
	}},
}

// kindFor: every third run has a reader of another kind, files now and then
func kindFor(run int64, fails bool) int {
	if run%3 != 0 {
		return 0
	}
	run /= 3
	k := int(run % int64(len(readerKinds)))
	if k == len(readerKinds)-1 && run/int64(len(readerKinds))%16 != 0 {
		return 1
	}
	if fails && readerKinds[k].plain {
		return 1 + k%7
	}
	return k
}
