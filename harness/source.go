package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// sourceCase is a behaviour of Source.tla
type sourceCase struct {
	Reads []struct {
		N int    `json:"n"`
		S string `json:"s"`
	} `json:"reads"`
	OK bool `json:"ok"`
}

// portion is what one call of Read delivers: bytes up to an offset, and what comes with the last of them.
type portion struct {
	upto int
	s    string // more, eof, fail
}

// failures of a source: whatever is not io.EOF itself
var sourceErrors = []error{errors.New("the source fails"), io.ErrUnexpectedEOF, fmt.Errorf("connection: %w", io.EOF), errors.New("EOF"), timeoutError{}}

type timeoutError struct{}

func (timeoutError) Error() string   { return "try again" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

type scripted struct {
	src   string
	ps    []portion
	at    int
	reads int
	once  bool
	err   error // of a failure
}

func (s *scripted) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 1000000 {
		panic("the source is read forever")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.ps) == 0 {
		return 0, io.EOF
	}
	q := s.ps[0]
	n := copy(p, s.src[s.at:q.upto])
	s.at += n
	if s.at < q.upto {
		return n, nil
	}
	switch q.s {
	case "eof":
		return n, io.EOF
	case "fail":
		if s.once { // afterwards the source is at its end, or so it says
			s.ps = nil
		}
		return n, s.err
	}
	s.ps = s.ps[1:]
	return n, nil
}

// portions places the units of a case in a text.
func portions(rr *rand.Rand, c *sourceCase, n int) (ps []portion) {
	units := 0
	for _, p := range c.Reads {
		units += p.N
	}
	if c.OK || units == 0 {
		units--
	}
	var cuts []int
	for i := 0; i < units; i++ {
		cuts = append(cuts, rr.Intn(n+1))
	}
	sort.Ints(cuts)
	if c.OK {
		cuts = append(cuts, n)
	}
	at, k := 0, 0
	for _, p := range c.Reads {
		k += p.N
		if k > 0 && k <= len(cuts) {
			at = cuts[k-1]
		}
		ps = append(ps, portion{at, p.S})
	}
	return
}

// what is read from a source by the entry points
var readings = []struct {
	name string
	f    func(src io.Reader, d dialect.Dialect) (string, error)
}{
	{"Tokenize", func(src io.Reader, d dialect.Dialect) (string, error) {
		ts, err := sqltoken.NewTokenizer(src, d).Tokenize()
		if err != nil && ts != nil {
			return "", fmt.Errorf("tokens are returned together with %v", err)
		}
		return fmt.Sprintf("%+v", viewsOf(ts)), err
	}},
	{"NextToken", func(src io.Reader, d dialect.Dialect) (string, error) {
		tk := sqltoken.NewTokenizerWithOptions(src, sqltoken.Dialect(d), sqltoken.DisableParseComment())
		var ts []view
		for {
			t, err := tk.NextToken()
			if err == io.EOF {
				return fmt.Sprintf("%+v", ts), nil
			}
			if err != nil {
				return "", err
			}
			if t != nil {
				ts = append(ts, viewOf(t))
			}
		}
	}},
	{"ParseFile", func(src io.Reader, d dialect.Dialect) (string, error) {
		p, err := xsqlparser.NewParser(src, d, xsqlparser.ParseComment())
		if err != nil {
			return "", err
		}
		f, err := p.ParseFile()
		if err != nil {
			return "", err
		}
		return dumpFull(f), nil
	}},
	{"ParseStatement", func(src io.Reader, d dialect.Dialect) (string, error) {
		p, err := xsqlparser.NewParser(src, d)
		if err != nil {
			return "", err
		}
		f, err := p.ParseStatement()
		if err != nil {
			return "", err
		}
		return dumpFull(f), nil
	}},
	{"ParseSQL", func(src io.Reader, d dialect.Dialect) (string, error) {
		p, err := xsqlparser.NewParser(src, d)
		if err != nil {
			return "", err
		}
		f, err := p.ParseSQL()
		if err != nil {
			return "", err
		}
		return dumpFull(f), nil
	}},
}

type wholeResult struct {
	s   string
	err error
	p   interface{}
}

// whole reads a text from memory.
func whole(src, d string) (out []wholeResult) {
	for _, e := range readings {
		w := wholeResult{}
		w.p = guard(func() { w.s, w.err = e.f(strings.NewReader(src), dialectOf(d)) })
		out = append(out, w)
	}
	return
}

// deliver reads a text in portions.
func (r *Run) deliver(src, d string, base []wholeResult, k int, ps []portion) {
	if base[k].p != nil {
		return
	}
	fails := ps[len(ps)-1].s == "fail"
	e := sourceErrors[(len(src)+k+ps[0].upto)%len(sourceErrors)]
	r.deliverFrom(&scripted{src: src, ps: ps, err: e}, d, base, k, ps)
	if fails {
		r.deliverFrom(&scripted{src: src, ps: ps, err: e, once: true}, d, base, k, ps)
	}
}

func (r *Run) deliverFrom(rd *scripted, d string, base []wholeResult, k int, ps []portion) {
	r.eval(1)
	e := readings[k]
	src := rd.src
	var s string
	var err error
	p := guard(func() { s, err = e.f(rd, dialectOf(d)) })
	fails := ps[len(ps)-1].s == "fail"
	bad := ""
	switch {
	case p != nil:
		bad = fmt.Sprint(p)
	case fails && err == nil:
		bad = "the source fails, but no error is returned"
	case !fails && (err == nil) != (base[k].err == nil):
		bad = fmt.Sprintf("from memory: error %v; in portions: error %v", base[k].err, err)
	case !fails && s != base[k].s:
		bad = "the result is not that for the whole text"
	}
	if bad != "" {
		r.violate(Violation{Case: fmt.Sprintf("%s dialect=%s source=%q portions=%v failure=%v once=%v", e.name, d, src, ps, rd.err, rd.once), What: bad, Expected: base[k].s, Got: s})
	}
}

// sourcesOf are other readers that deliver the text. A reader delivers what has not been read from it before.
func sourcesOf(rr *rand.Rand, s string) map[string]io.Reader {
	skip := "x '"[:1+rr.Intn(3)]
	skipped := func(r io.Reader) io.Reader {
		io.ReadFull(r, make([]byte, len(skip)))
		return r
	}
	k := rr.Intn(len(s) + 1)
	pr, pw := io.Pipe()
	go func() {
		io.WriteString(pw, s[:k])
		io.WriteString(pw, s[k:])
		pw.Close()
	}()
	return map[string]io.Reader{
		"bytes.Reader":          bytes.NewReader([]byte(s)),
		"bytes.Buffer":          bytes.NewBufferString(s),
		"strings.Reader, later": skipped(strings.NewReader(skip + s)),
		"bytes.Reader, later":   skipped(bytes.NewReader([]byte(skip + s))),
		"bytes.Buffer, later":   skipped(bytes.NewBufferString(skip + s)),
		"bufio.Reader":          bufio.NewReaderSize(strings.NewReader(s), 16+rr.Intn(100)),
		"bufio.Reader, later":   skipped(bufio.NewReaderSize(strings.NewReader(skip+s), 16+rr.Intn(100))),
		"io.MultiReader":        io.MultiReader(strings.NewReader(s[:k]), strings.NewReader(""), bytes.NewReader([]byte(s[k:]))),
		"io.SectionReader":      io.NewSectionReader(strings.NewReader(skip+s+"'"), int64(len(skip)), int64(len(s))),
		"io.LimitedReader":      io.LimitReader(strings.NewReader(s+"'"), int64(len(s))),
		"io.TeeReader":          io.TeeReader(strings.NewReader(s), ioutil.Discard),
		"iotest.OneByteReader":  iotest.OneByteReader(strings.NewReader(s)),
		"iotest.HalfReader":     iotest.HalfReader(strings.NewReader(s)),
		"iotest.DataErrReader":  iotest.DataErrReader(strings.NewReader(s)),
		"io.Pipe":               pr,
	}
}

// kindsOfSources reads a text from readers of many kinds.
func (r *Run) kindsOfSources(rr *rand.Rand, src, d string, base []wholeResult, k int) {
	if base[k].p != nil {
		return
	}
	e := readings[k]
	for name, rd := range sourcesOf(rr, src) {
		r.eval(1)
		var s string
		var err error
		if p := guard(func() { s, err = e.f(rd, dialectOf(d)) }); p != nil || (err == nil) != (base[k].err == nil) || s != base[k].s {
			r.violate(Violation{Case: fmt.Sprintf("%s dialect=%s source=%q from a %s", e.name, d, src, name), What: fmt.Sprintf("the result is not that for a strings.Reader: %v %v", p, err), Expected: base[k].s, Got: s})
		}
		if c, ok := rd.(io.Closer); ok {
			c.Close()
		}
	}
}

func init() {
	// C21
	commands["source"] = func(r *Run) {
		var scripts []sourceCase
		readCases(r.In, func(b []byte) {
			if strings.Contains(string(b), `"reads"`) {
				var c sourceCase
				if err := json.Unmarshal(b, &c); err != nil {
					fatal("%s: %v", b, err)
				}
				scripts = append(scripts, c)
			}
		})
		var lex []lexCase
		readCases(r.In, func(b []byte) {
			var c lexCase
			if strings.Contains(string(b), `"d":`) && json.Unmarshal(b, &c) == nil {
				lex = append(lex, c)
			}
		})
		cs := r.readMixed()
		if len(scripts) == 0 {
			fatal("no scripts")
		}
		// the texts: derivations alone, many in a row (longer than the buffer of a scanner), and texts of the tokenizer's
		// specification, with lexical errors among them
		type text struct{ src, d string }
		texts := func(i int, rr *rand.Rand) text {
			switch {
			case len(lex) > 0 && rr.Intn(4) == 0:
				c := lex[rr.Intn(len(lex))]
				return text{string(c.S), c.D}
			case rr.Intn(3) == 0:
				sp := randomSpelling(rr, "any")
				var b strings.Builder
				for n := 700 + rr.Intn(2500); b.Len() < n; {
					b.WriteString(render(rr, sp.spell(rr, cs[rr.Intn(len(cs))].T), "comments", sp.Dialect).Src + "\n;")
				}
				return text{b.String(), sp.Dialect}
			}
			sp := randomSpelling(rr, "any")
			return text{render(rr, sp.spell(rr, cs[rr.Intn(len(cs))].T), []string{"comments", "plain"}[rr.Intn(2)], sp.Dialect).Src, sp.Dialect}
		}
		each := r.arg("each", 4)
		r.each(len(scripts)*each, func(i int, desc func(func() string)) {
			rr := r.rng(i, 0)
			t := texts(i, rr)
			desc(func() string { return fmt.Sprintf("dialect=%s source=%q", t.d, t.src) })
			base := whole(t.src, t.d)
			ps := portions(rr, &scripts[i%len(scripts)], len(t.src))
			r.nontrivial(fmt.Sprint(t, ps))
			for k := range readings {
				r.deliver(t.src, t.d, base, k, ps)
			}
			r.count("scripts replayed", 1)
		})
		// every offset: split there, failing there with a portion and without
		n := r.arg("texts", 150)
		r.each(n, func(i int, desc func(func() string)) {
			rr := r.rng(i, 1)
			t := texts(i, rr)
			desc(func() string { return fmt.Sprintf("dialect=%s source=%q", t.d, t.src) })
			if i < 5 {
				r.sample(t.src)
			}
			base := whole(t.src, t.d)
			step := 1
			if len(t.src) > 1500 {
				step = 7
			}
			for at := 0; at <= len(t.src); at += step {
				k := (at + i) % len(readings)
				r.deliver(t.src, t.d, base, k, []portion{{at, "more"}, {len(t.src), "more"}, {len(t.src), "eof"}})
				r.deliver(t.src, t.d, base, k, []portion{{at, "fail"}})
				r.deliver(t.src, t.d, base, (k+1)%len(readings), []portion{{at, "more"}, {at, "fail"}})
				r.deliver(t.src, t.d, base, (k+2)%len(readings), []portion{{at, "more"}, {at, "more"}, {len(t.src), "eof"}})
			}
			for k := range readings {
				r.kindsOfSources(rr, t.src, t.d, base, k)
			}
			var single []portion
			for at := 1; at <= len(t.src); at++ {
				single = append(single, portion{at, "more"})
			}
			for k := range readings {
				r.deliver(t.src, t.d, base, k, append(append([]portion{}, single...), portion{len(t.src), "eof"}))
				r.deliver(t.src, t.d, base, k, append(append([]portion{}, single...), portion{len(t.src), "fail"}))
			}
			r.count("texts with every offset", 1)
		})
		// lengths that fill a buffer exactly: the failure arrives with the last bytes that fit, or right after them
		r.each(r.arg("fills", 60), func(i int, desc func(func() string)) {
			rr := r.rng(i, 2)
			var t text
			for n := 0; n < 20; n++ { // most of them without errors of their own, which would hide that of the source
				t = texts(i, rr)
				if b := whole(t.src, t.d); b[2].p == nil && b[2].err == nil {
					break
				}
			}
			for size := 16; size <= 8192; size *= 2 {
				for _, step := range []int{1, 3} {
					n := size * step
					if n <= len(t.src) {
						continue
					}
					s := t.src + strings.Repeat(" ", n-len(t.src))
					desc(func() string { return fmt.Sprintf("dialect=%s source=%q", t.d, s) })
					base := whole(s, t.d)
					for k := range readings {
						r.deliver(s, t.d, base, k, []portion{{n, "fail"}})
						r.deliver(s, t.d, base, k, []portion{{n, "more"}, {n, "fail"}})
						r.deliver(s, t.d, base, k, []portion{{rr.Intn(n), "more"}, {n, "fail"}})
						r.deliver(s, t.d, base, k, []portion{{n / 2, "more"}, {n, "fail"}})
						r.deliver(s, t.d, base, k, []portion{{n, "eof"}})
						r.deliver(s, t.d, base, k, []portion{{n - 1, "more"}, {n, "eof"}})
					}
				}
			}
			r.count("texts filling buffers", 1)
		})
	}
}
