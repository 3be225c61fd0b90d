package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// C17: printing to writers that fail.

var errFault = errors.New("the writer fails")

// faulty is the writer of Writer.tla: it accepts lim bytes.
type faulty struct {
	want   string
	lim    int
	mode   string // part, none, all
	acc    int
	ev     [][4]int
	failed bool
	wrong  bool
	late   bool
}

func (w *faulty) take(p []byte) (int, error) {
	n, fail := len(p), 0
	same := 0
	if w.acc+n <= len(w.want) && w.want[w.acc:w.acc+n] == string(p) {
		same = 1
	}
	if w.failed {
		w.late = true
	}
	switch {
	case w.mode == "all":
		if w.acc+n >= w.lim {
			fail = 1
		}
	case w.acc+n > w.lim:
		fail = 1
		if w.mode == "part" {
			n = w.lim - w.acc
			if n < 0 {
				n = 0
			}
		} else {
			n = 0
		}
	}
	w.acc += n
	if same == 0 {
		w.wrong = true
	}
	w.ev = append(w.ev, [4]int{len(p), n, fail, same})
	if fail == 1 {
		w.failed = true
		return n, errFault
	}
	return n, nil
}

func (w *faulty) Write(p []byte) (int, error) { return w.take(p) }

// faultyString also takes strings.
type faultyString struct{ faulty }

func (w *faultyString) WriteString(s string) (int, error) { return w.take([]byte(s)) }

// faultyAll takes whatever a writer may take.
type faultyAll struct{ faultyString }

func (w *faultyAll) WriteByte(c byte) error {
	_, err := w.take([]byte{c})
	return err
}

func (w *faultyAll) WriteRune(c rune) (int, error) { return w.take([]byte(string(c))) }

func (w *faultyAll) ReadFrom(src io.Reader) (n int64, err error) {
	b := make([]byte, 64)
	for {
		k, e := src.Read(b)
		if k > 0 {
			m, e := w.take(b[:k])
			n += int64(m)
			if e != nil {
				return n, e
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

type writerTrace struct {
	Len int      `json:"len"`
	Ev  [][4]int `json:"ev"`
	N   int64    `json:"n"`
	Err int      `json:"err"`
}

var faultModes = []string{"part", "none", "all"}

// fault prints n to a writer failing at lim.
func (r *Run) fault(n sqlast.Node, want string, lim int, mode string, str int, save bool, label string) {
	var w *faulty
	var iw io.Writer
	switch str {
	case 0:
		w = &faulty{want: want, lim: lim, mode: mode}
		iw = w
	case 1:
		fs := &faultyString{faulty{want: want, lim: lim, mode: mode}}
		w, iw = &fs.faulty, fs
	default:
		fs := &faultyAll{faultyString{faulty{want: want, lim: lim, mode: mode}}}
		w, iw = &fs.faulty, fs
	}
	r.eval(1)
	var cnt int64
	var err error
	p := guard(func() { cnt, err = n.WriteTo(iw) })
	e := 0
	if err == errFault {
		e = 1
	} else if err != nil {
		e = 2
	}
	bad := ""
	switch {
	case p != nil:
		bad = fmt.Sprint(p)
	case w.late:
		bad = "something is written after the failure"
	case w.wrong:
		bad = "the bytes written are not a prefix of the SQL string"
	case cnt != int64(w.acc):
		bad = fmt.Sprintf("the count returned is %d, the writer accepted %d bytes", cnt, w.acc)
	case w.failed && e != 1:
		bad = fmt.Sprintf("the error of the writer is not returned, but %v", err)
	case !w.failed && e != 0:
		bad = fmt.Sprintf("an error is returned though the writer did not fail: %v", err)
	case !w.failed && w.acc != len(want):
		bad = "not all of the SQL string has been written"
	}
	if bad != "" {
		r.violate(Violation{Case: fmt.Sprintf("%s node=%T text=%q limit=%d mode=%s kind of writer=%v", label, n, want, lim, mode, str), What: bad})
	}
	if save && p == nil {
		r.writeTrace(writerTrace{len(want), w.ev, cnt, e}, fmt.Sprintf("%s node=%T text=%q limit=%d mode=%s kind of writer=%v", label, n, want, lim, mode, str))
	}
}

// kinds prints n to writers of different kinds.
func (r *Run) kinds(n sqlast.Node, want, label string) {
	r.eval(1)
	var bb bytes.Buffer
	var sb strings.Builder
	var under bytes.Buffer
	bw := bufio.NewWriterSize(&under, 16)
	// there may be something in it already
	const before = "SELECT 'before'; "
	bb.WriteString(before)
	sb.WriteString(before)
	bw.WriteString(before)
	pr, pw := io.Pipe()
	piped := make(chan string, 1)
	go func() {
		var b bytes.Buffer
		io.Copy(&b, pr)
		piped <- b.String()
	}()
	plain := &faulty{want: want, lim: 1 << 30, mode: "part"}
	var ns [5]int64
	var errs [5]error
	p := guard(func() {
		ns[0], errs[0] = n.WriteTo(&bb)
		ns[1], errs[1] = n.WriteTo(&sb)
		ns[2], errs[2] = n.WriteTo(bw)
		bw.Flush()
		ns[3], errs[3] = n.WriteTo(plain)
	})
	pp := guard(func() { ns[4], errs[4] = n.WriteTo(pw) })
	pw.Close()
	got := []string{strings.TrimPrefix(bb.String(), before), strings.TrimPrefix(sb.String(), before), strings.TrimPrefix(under.String(), before), want[:min(plain.acc, len(want))], <-piped}
	if p != nil || pp != nil {
		r.violate(Violation{Case: label, What: fmt.Sprint(p, pp)})
		return
	}
	for i, k := range []string{"bytes.Buffer", "strings.Builder", "bufio.Writer", "plain writer", "pipe"} {
		if got[i] != want || ns[i] != int64(len(want)) || errs[i] != nil || plain.wrong {
			r.violate(Violation{Case: fmt.Sprintf("%s node=%T", label, n), What: fmt.Sprintf("printing to a %s: count %d, error %v", k, ns[i], errs[i]), Expected: want, Got: got[i]})
			return
		}
	}
}

func init() {
	commands["writer"] = func(r *Run) {
		cs := readSQL(r)
		chosen := r.choose(cs)
		d := r.gather(cs)
		every := r.arg("save", 400)
		node := func(n sqlast.Node, label string, all bool, k *int) {
			var want string
			if p := guard(func() { want = n.ToSQLString() }); p != nil {
				r.violate(Violation{Case: label, What: fmt.Sprintf("printing %T: %v", n, p)})
				return
			}
			r.kinds(n, want, label)
			// of long texts not every offset, for the work grows with its square
			step := 1 + len(want)/400
			for lim := rrand(*k, step); lim <= len(want)+1; lim += step {
				for m, mode := range faultModes {
					*k++
					if all || (*k)%7 == 0 {
						r.fault(n, want, lim, mode, (lim+m+*k)%3, (*k)%every == 0, label)
					}
				}
			}
		}
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			sp := randomSpelling(rr, "any")
			rd := render(rr, sp.spell(rr, c.T), []string{"plain", "comments"}[rr.Intn(2)], sp.Dialect)
			desc(func() string { return caseOf(rd) })
			o := parse(rd.Src, rd.Dialect, "comments")
			if !o.ok() {
				return
			}
			k := rr.Intn(every)
			if !chosen[i] {
				node(o.File.Stmts[0], caseOf(rd), false, &k)
				return
			}
			r.note(i, len(cs), rd, c.K)
			t := newIDs(o.File)
			few := 1 + len(t.nodes)/60
			for _, n := range t.nodes[1:] {
				if few == 1 || n == t.nodes[1] || rr.Intn(few) == 0 {
					node(n, caseOf(rd), few == 1 && rr.Intn(3) == 0, &k)
				}
			}
			for _, g := range o.File.Comments {
				node(g, caseOf(rd), true, &k)
				node(g.List[0], caseOf(rd), true, &k)
			}
		})
		rr := r.rng(0, 1)
		k := 0
		os := orphans(rr, d)
		r.first(len(os), func(i int, desc func(func() string)) {
			desc(func() string { return fmt.Sprintf("%T", os[i]) })
			node(os[i], fmt.Sprintf("%T", os[i]), true, &k)
		})
		// several statements in a file
		step := len(cs)/40 + 1
		r.first((len(cs)-2+step-1)/step, func(i int, desc func(func() string)) {
			i *= step
			f := &sqlast.File{}
			for j := 0; j < 3; j++ {
				sp := spelling{Idents: "plain", Keywords: "upper", Literals: "plain", Dialect: "generic"}
				if o := parse(render(rr, sp.spell(rr, cs[i+j].T), "plain", "generic").Src, "generic", "file"); o.ok() {
					f.Stmts = append(f.Stmts, o.File.Stmts...)
				}
			}
			node(f, "file", true, &k)
		})
	}
}

// rrand yields different starts below the step.
func rrand(k, step int) int { return k % step }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
