package main

// Compiled into the generator by overlay only: data files come from a directory, not from the
// network, and fetches may fail as the plan in VERIF_FAULTS says.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sync"
)

type verifFault struct {
	File     string // which data file
	From, To int    // which of its fetches, from 1
	Kind     string // refuse, status, cut, replace
	Status   int
	At       int    // cut: bytes delivered before
	Body     string // status, replace: what comes instead
	Read     int    // bytes per read (0: all)
}

type verifFiles struct {
	sync.Mutex
	dir    string
	faults []verifFault
	seen   map[string]int
	log    *os.File
}

type verifBody struct {
	data []byte
	read int
	end  error
}

func (b *verifBody) Read(p []byte) (int, error) {
	n := len(b.data)
	if n == 0 {
		return 0, b.end
	}
	if n > len(p) {
		n = len(p)
	}
	if b.read > 0 && n > b.read {
		n = b.read
	}
	copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}
func (b *verifBody) Close() error { return nil }

func (d *verifFiles) RoundTrip(r *http.Request) (*http.Response, error) {
	d.Lock()
	defer d.Unlock()
	name := path.Base(r.URL.Path)
	d.seen[name]++
	b, err := os.ReadFile(filepath.Join(d.dir, name))
	if err != nil {
		return nil, err
	}
	resp := &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r}
	good := 1
	for _, f := range d.faults {
		if f.File != name || d.seen[name] < f.From || d.seen[name] > f.To {
			continue
		}
		good = 0
		switch f.Kind {
		case "refuse":
			resp, err = nil, errors.New("dial: connection refused by plan")
		case "status":
			resp.StatusCode, resp.Status = f.Status, fmt.Sprintf("%d %s", f.Status, http.StatusText(f.Status))
			resp.Body, resp.ContentLength = &verifBody{[]byte(f.Body), f.Read, io.EOF}, int64(len(f.Body))
		case "replace":
			resp.Body, resp.ContentLength = &verifBody{[]byte(f.Body), f.Read, io.EOF}, int64(len(f.Body))
		case "cut":
			resp.Body = &verifBody{b[:f.At], f.Read, []error{io.ErrUnexpectedEOF, errors.New("connection reset by plan"), os.ErrDeadlineExceeded}[f.At%3]}
		case "slow":
			good = 1
			resp.Body = &verifBody{b, f.Read, io.EOF}
		}
	}
	if d.log != nil {
		fmt.Fprintf(d.log, "%s %d\n", name, good)
	}
	return resp, err
}

func init() {
	if dir := os.Getenv("VERIF_UCD"); dir != "" {
		d := &verifFiles{dir: dir, seen: map[string]int{}}
		if s := os.Getenv("VERIF_FAULTS"); s != "" {
			if err := json.Unmarshal([]byte(s), &d.faults); err != nil {
				panic("verif: bad fault plan")
			}
		}
		if s := os.Getenv("VERIF_FETCHLOG"); s != "" {
			d.log, _ = os.Create(s)
		}
		http.DefaultTransport = d
		http.DefaultClient.Transport = d
	}
}
