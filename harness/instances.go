package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// histCase is a behaviour of Instances.tla
type histCase struct {
	Lives []struct {
		Name string   `json:"name"`
		Ops  []string `json:"ops"`
	} `json:"lives"`
	Hist []int `json:"hist"`
}

// actor is an instance. It runs in a goroutine of its own and stops at the end of each segment of its life until the
// history lets it go on.
type actor struct {
	ops      []string
	src, d   string
	file     *sqlast.File // of users: the AST they share
	rng      *rand.Rand
	obs      []string
	resume   chan struct{}
	yielded  chan struct{}
	panicked interface{}
}

func (a *actor) yield() {
	if a.yielded == nil {
		return
	}
	a.yielded <- struct{}{}
	<-a.resume
}

// midway calls yield once: at the hit chosen, or at the end.
type midway struct {
	a      *actor
	at, n  int
	yields int // to be done
}

func (a *actor) midway(yields, spread int) *midway {
	return &midway{a: a, at: a.rng.Intn(spread), yields: yields}
}
func (m *midway) hit() {
	m.n++
	if m.n > m.at && m.yields > 0 {
		m.yields--
		m.a.yield()
	}
}
func (m *midway) end() {
	for ; m.yields > 0; m.yields-- {
		m.a.yield()
	}
}

type pacedReader struct {
	s string
	n int
	m *midway
}

func (p *pacedReader) Read(b []byte) (int, error) {
	p.m.hit()
	n := p.n
	if n > len(p.s) {
		n = len(p.s)
	}
	n = copy(b, p.s[:n])
	p.s = p.s[n:]
	if p.s == "" {
		return n, io.EOF
	}
	return n, nil
}

type pacedWriter struct {
	b strings.Builder
	m *midway
}

func (p *pacedWriter) Write(b []byte) (int, error) {
	p.m.hit()
	return p.b.Write(b)
}

// mapText describes a comment map.
func mapText(f *sqlast.File) string {
	m := sqlast.NewCommentMap(f)
	var ls []string
	for n, gs := range m {
		for i, g := range gs {
			ls = append(ls, fmt.Sprintf("%v %T %v %d %q", g.Pos(), n, n.Pos(), i, g.List[0].Text))
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// scribble changes nearly everything in an AST, in place.
func scribble(f *sqlast.File, rr *rand.Rand, hit func()) {
	seen := map[uintptr]bool{}
	var change func(v reflect.Value)
	change = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			change(v.Elem())
		case reflect.Ptr:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct && rr.Intn(2) == 0 {
				return
			}
			if v.Elem().Type().Size() > 0 {
				if seen[v.Pointer()] {
					return
				}
				seen[v.Pointer()] = true
			}
			hit()
			change(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).CanSet() {
					change(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				change(v.Index(i))
			}
			for i, j := 0, v.Len()-1; i < j; i, j = i+1, j-1 {
				x := reflect.ValueOf(v.Index(i).Interface())
				v.Index(i).Set(v.Index(j))
				v.Index(j).Set(x)
			}
		case reflect.String:
			v.SetString(v.String() + "x")
		case reflect.Int, reflect.Int64:
			v.SetInt(v.Int() + 1000)
		case reflect.Uint:
			v.SetUint(v.Uint() + 1000)
		case reflect.Float64:
			v.SetFloat(v.Float() + 1000)
		}
	}
	change(reflect.ValueOf(f))
}

// life goes through the operations; op is repeated once for each segment it has.
func (a *actor) life() {
	var p *xsqlparser.Parser
	var err error
	file := a.file
	note := func(f string, x ...interface{}) { a.obs = append(a.obs, fmt.Sprintf(f, x...)) }
	for i := 0; i < len(a.ops); {
		op := a.ops[i]
		j := i
		for j < len(a.ops) && a.ops[j] == op {
			j++
		}
		m := a.midway(j-i-1, 1+len(a.src)/2)
		switch {
		case op == "read":
			var opts []xsqlparser.ParserOption
			if a.rng.Intn(2) == 0 {
				opts = append(opts, xsqlparser.ParseComment())
			}
			p, err = xsqlparser.NewParser(&pacedReader{a.src, 1 + a.rng.Intn(3), m}, dialectOf(a.d), opts...)
			note("read %v", err != nil)
		case op == "token":
			tk := sqltoken.NewTokenizer(&pacedReader{a.src, 1 + a.rng.Intn(2000), a.midway(0, 1)}, dialectOf(a.d))
			var vs []view
			for {
				m.hit()
				t, err := tk.NextToken()
				if err != nil {
					note("token %v %v", err == io.EOF, vs)
					break
				}
				vs = append(vs, viewOf(t))
			}
		case op == "parse" && err == nil:
			file, err = p.ParseFile()
			if err != nil {
				file = nil
			}
			note("parse %v %s", err != nil, dumpFull(file))
		case file == nil:
			note("%s -", op)
		case op == "print":
			w := &pacedWriter{m: m}
			n, err := file.WriteTo(w)
			note("print %d %v %s", n, err, w.b.String())
		case op == "walk":
			var b strings.Builder
			sqlast.Inspect(file, func(n sqlast.Node) bool {
				m.hit()
				if n == nil {
					b.WriteString(")")
				} else {
					fmt.Fprintf(&b, "(%T", n)
				}
				return n != nil
			})
			note("walk %s", b.String())
		case op == "apply":
			var b strings.Builder
			sqlastutil.Apply(file, func(c *sqlastutil.Cursor) bool {
				m.hit()
				fmt.Fprintf(&b, "(%T %s %d", c.Node(), c.Name(), c.Index())
				return true
			}, func(c *sqlastutil.Cursor) bool {
				b.WriteString(")")
				return true
			})
			note("apply %s", b.String())
		case op == "map":
			note("map %s", mapText(file))
		case op == "edit":
			scribble(file, a.rng, m.hit)
			note("edit %s", dumpFull(file))
		default:
			fatal("operation %s", op)
		}
		m.end()
		i = j
		if i < len(a.ops) {
			a.yield()
		}
	}
	if file != nil {
		note("at last %s", dumpFull(file))
	}
}

func (a *actor) alone() {
	a.panicked = guard(a.life)
}

// interleave runs the actors along a history.
func interleave(as []*actor, hist []int) {
	for _, a := range as {
		a.resume, a.yielded = make(chan struct{}), make(chan struct{})
	}
	started := make([]bool, len(as))
	for _, i := range hist {
		a := as[i-1]
		if !started[i-1] {
			started[i-1] = true
			go func() {
				a.panicked = guard(a.life)
				close(a.yielded)
			}()
		} else {
			select {
			case a.resume <- struct{}{}:
			case <-a.yielded: // it has ended before
				continue
			}
		}
		<-a.yielded
	}
	for _, a := range as {
		for range a.yielded {
			a.resume <- struct{}{}
		}
	}
}

type textOf struct{ src, d string }

// textPool samples texts: derivations with comments, scripts, edited ones, and texts of the tokenizer's specification.
func (r *Run) textPool(n int) []textOf {
	var lex []lexCase
	readCases(r.In, func(b []byte) {
		var c lexCase
		if strings.Contains(string(b), `"d":`) && json.Unmarshal(b, &c) == nil {
			lex = append(lex, c)
		}
	})
	cs := r.readMixed()
	out := make([]textOf, n)
	for i := range out {
		rr := r.rng(i, 20)
		if i%3 == 2 { // hardly different from the one before
			out[i] = alike(rr, out[i-1])
			continue
		}
		sp := randomSpelling(rr, []string{"any", "words", "quoted", "plain"}[rr.Intn(4)])
		ls := sp.spell(rr, cs[rr.Intn(len(cs))].T)
		switch rr.Intn(8) {
		case 0:
			if len(lex) > 0 {
				c := lex[rr.Intn(len(lex))]
				out[i] = textOf{string(c.S), c.D}
				continue
			}
		case 1: // without a token
			k := rr.Intn(len(ls))
			ls = append(ls[:k:k], ls[k+1:]...)
		case 2, 3:
			ls = append(ls, lexeme{";", ";"})
			ls = append(ls, sp.spell(rr, cs[rr.Intn(len(cs))].T)...)
		}
		out[i] = textOf{render(rr, ls, []string{"comments", "comments", "tight"}[rr.Intn(3)], sp.Dialect).Src, sp.Dialect}
	}
	return out
}

// alike is another text that has much in common with one: what remembers a text by less than all of it takes one for the other.
func alike(rr *rand.Rand, t textOf) textOf {
	rs := []rune(t.src)
	if len(rs) == 0 {
		return t
	}
	k := rr.Intn(len(rs))
	switch rr.Intn(6) {
	case 0: // in another dialect
		t.d = dialects[rr.Intn(len(dialects))]
		return t
	case 1: // of the same length
		for j := range rs {
			if c := rs[(k+j)%len(rs)]; 'a' <= c && c <= 'y' || 'A' <= c && c <= 'Y' || '0' <= c && c <= '8' {
				rs[(k+j)%len(rs)]++
				break
			}
		}
	case 2: // in another case
		for j := range rs {
			if c := rs[(k+j)%len(rs)]; 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
				rs[(k+j)%len(rs)] ^= 32
				break
			}
		}
	case 3: // longer at the end
		rs = append(rs, []rune(pick(rr, []string{" ", ";", " x", "\n", "-- c", "\n-- c\n", "1"}))...)
	case 4: // shorter
		rs = rs[:len(rs)-1]
	default: // a line further down
		rs = append([]rune("\n"), rs...)
	}
	return textOf{string(rs), t.d}
}

// everything that a text leads to, in one string
func everything(t textOf) (out string) {
	if p := guard(func() {
		var b strings.Builder
		for _, w := range whole(t.src, t.d) {
			fmt.Fprintf(&b, "%v %v %s\n", w.p, w.err != nil, w.s)
		}
		o := parse(t.src, t.d, "comments")
		if o.ok() {
			b.WriteString(printAll(o.File))
			b.WriteString(mapText(o.File))
			b.WriteString(dumpFull(o.File))
		}
		for _, f := range []func(p *xsqlparser.Parser) (interface{}, error){
			func(p *xsqlparser.Parser) (interface{}, error) { return p.ParseExpr() },
			func(p *xsqlparser.Parser) (interface{}, error) { return p.ParseDataType() }} {
			if p, err := xsqlparser.NewParser(strings.NewReader(t.src), dialectOf(t.d)); err == nil {
				x, err := f(p)
				if err == nil {
					b.WriteString(dumpFull(x))
				}
			}
		}
		out = b.String()
	}); p != nil {
		out = fmt.Sprint(p)
	}
	return
}

func init() {
	// C20
	commands["instances"] = func(r *Run) {
		var hs []histCase
		readCases(r.In, func(b []byte) {
			if strings.Contains(string(b), `"hist"`) {
				var h histCase
				if err := json.Unmarshal(b, &h); err != nil {
					fatal("%s: %v", b, err)
				}
				hs = append(hs, h)
			}
		})
		if len(hs) == 0 {
			fatal("no histories")
		}
		pool := r.textPool(400)
		each := r.arg("each", 1)
		r.each(len(hs)*each, func(i int, desc func(func() string)) {
			h := &hs[i%len(hs)]
			rr := r.rng(i, 0)
			shared := pool[rr.Intn(len(pool))]
			seeds := make([]int64, len(h.Lives))
			texts := make([]textOf, len(h.Lives))
			for k := range h.Lives {
				seeds[k] = rr.Int63()
				texts[k] = pool[rr.Intn(len(pool))]
				if h.Lives[k].Name == "user" || rr.Intn(6) == 0 || h.Lives[k].Name == "editor" && rr.Intn(2) == 0 {
					texts[k] = shared
				}
			}
			o := parse(shared.src, shared.d, "comments")
			make_ := func() (as []*actor) {
				for k, l := range h.Lives {
					a := &actor{ops: l.Ops, src: texts[k].src, d: texts[k].d, rng: rand.New(rand.NewSource(seeds[k]))}
					if l.Name == "user" {
						if o.ok() {
							a.file = o.File
						} else {
							a.file = &sqlast.File{}
						}
					}
					as = append(as, a)
				}
				return
			}
			label := fmt.Sprintf("history=%v texts=%q", h.Hist, texts)
			desc(func() string { return label })
			alone := make_()
			for _, a := range alone {
				a.alone()
			}
			as := make_()
			interleave(as, h.Hist)
			r.eval(1)
			r.nontrivial(label)
			if i%(len(hs)/3+1) == 0 {
				r.sample(label)
			}
			for k, a := range as {
				if alone[k].panicked != nil {
					continue
				}
				if a.panicked != nil {
					r.violate(Violation{Case: label, What: fmt.Sprintf("instance %d: %v", k+1, a.panicked)})
				} else if !reflect.DeepEqual(a.obs, alone[k].obs) {
					w, g := "", ""
					for j := range alone[k].obs {
						if j >= len(a.obs) || a.obs[j] != alone[k].obs[j] {
							w = alone[k].obs[j]
							if j < len(a.obs) {
								g = a.obs[j]
							}
							break
						}
					}
					r.violate(Violation{Case: label, What: fmt.Sprintf("instance %d observes something else than alone", k+1), Expected: w, Got: g})
				}
			}
		})
	}

	// the results of all texts, processed in some order; the trace has one line per text
	commands["digest"] = func(r *Run) {
		pool := r.textPool(r.arg("texts", 2000))
		order := rand.New(rand.NewSource(int64(r.arg("order", 0)))).Perm(len(pool))
		out := make([]string, len(pool))
		one := func(i int) {
			out[i] = fmt.Sprintf("%x", sha256.Sum256([]byte(everything(pool[i]))))
		}
		workers := runtime.NumCPU()
		if r.arg("order", 0)%2 == 0 {
			workers = 1
		}
		r.eachBy(workers, len(order), func(k int, desc func(func() string)) {
			desc(func() string { return fmt.Sprintf("%q", pool[order[k]]) })
			one(order[k])
		})
		r.eval(len(pool))
		for i, s := range out {
			r.traceBuf.WriteString(s + "\n")
			r.labels.WriteString(strings.Replace(fmt.Sprintf("dialect=%s source=%q", pool[i].d, pool[i].src), "\n", " ", -1) + "\n")
		}
	}

	// all at once and often: what one prints, parses, walks and maps is what it does alone
	commands["crowd"] = func(r *Run) {
		pool := r.crowd()
		runtime.GOMAXPROCS(8)
		once := func(t textOf, f *sqlast.File, k int) (s string) {
			if k == 0 { // from the text
				o := parse(t.src, t.d, "comments")
				if !o.ok() {
					return "not accepted"
				}
				f = o.File
			}
			if p := guard(func() {
				s = f.ToSQLString()
				if k <= 1 {
					s += mapText(f)
				}
				if k == 2 {
					n := 0
					sqlast.Inspect(f, func(x sqlast.Node) bool {
						if x != nil {
							n = (n*31 + x.Pos().Line*17 + x.Pos().Col*7 + x.End().Col) % 1000003
						}
						return true
					})
					s += fmt.Sprint(n)
				}
			}); p != nil {
				s = fmt.Sprint(p)
			}
			return
		}
		var fs []*sqlast.File
		var ts []textOf
		var want [][4]string
		r.first(len(pool), func(i int, desc func(func() string)) {
			desc(func() string { return fmt.Sprintf("%q", pool[i]) })
			if o := parse(pool[i].src, pool[i].d, "comments"); o.ok() {
				fs = append(fs, o.File)
				ts = append(ts, pool[i])
				var w [4]string
				for k := range w {
					w[k] = once(pool[i], o.File, k)
				}
				want = append(want, w)
			}
		})
		r.count("texts", len(ts))
		rounds := r.arg("rounds", 1)
		r.eachBy(8, 8*rounds, func(n int, desc func(func() string)) {
			for j := range ts {
				i := (j*(2*n+1) + n) % len(ts)
				desc(func() string { return fmt.Sprintf("concurrently: %q", ts[i]) })
				for k := 3; k >= 0; k-- {
					if s := once(ts[i], fs[i], k); s != want[i][k] {
						r.violate(Violation{Case: fmt.Sprintf("%q", ts[i]), What: "another result than alone, among concurrent users", Expected: want[i][k], Got: s})
						return
					}
					r.eval(1)
				}
			}
		})
		// nodes of one kind, each printed by one user again and again; and texts of one kind of statement, each parsed likewise
		type task struct {
			label, want string
			f           func() string
		}
		groups := map[string][]task{}
		add := func(k string, t task) {
			for _, o := range groups[k] {
				if o.want == t.want {
					return
				}
			}
			if len(groups[k]) < 24 {
				groups[k] = append(groups[k], t)
			}
		}
		r.first(len(ts), func(i int, desc func(func() string)) {
			desc(func() string { return fmt.Sprintf("%q", ts[i]) })
			for _, n := range newIDs(fs[i]).nodes[1:] {
				n := n
				p := func() (s string) {
					if p := guard(func() { s = n.ToSQLString() }); p != nil {
						s = fmt.Sprint(p)
					}
					return
				}
				add(fmt.Sprintf("print %T", n), task{fmt.Sprintf("%T in %q", n, ts[i]), p(), p})
			}
			if len(fs[i].Stmts) > 0 {
				t := ts[i]
				add(fmt.Sprintf("parse %T", fs[i].Stmts[0]), task{fmt.Sprintf("%q", t), want[i][0], func() string { return once(t, nil, 0) }})
				add(fmt.Sprintf("tokens %T", fs[i].Stmts[0]), task{fmt.Sprintf("%q", t), whole(t.src, t.d)[0].s, func() string { return whole(t.src, t.d)[0].s }})
			}
		})
		names := make([]string, 0, len(groups))
		for k := range groups {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			g := groups[k]
			if len(g) < 2 {
				continue
			}
			times := r.arg("often", 4000)
			if !strings.HasPrefix(k, "print") {
				times /= 100
			}
			r.eachBy(8, 8, func(w int, desc func(func() string)) {
				for n := 0; n < times; n++ {
					t := &g[(w*3+n/50)%len(g)]
					if n%50 == 0 {
						desc(func() string { return k + ", concurrently: " + t.label })
					}
					if s := t.f(); s != t.want {
						r.violate(Violation{Case: k + ", concurrently: " + t.label, What: "another result than alone, among concurrent users", Expected: t.want, Got: s})
						return
					}
				}
				r.eval(times)
			})
			r.count("kinds of nodes and texts used by many at once", 1)
		}
	}

	// everything at once, for the race detector; ASTs and tokens are shared by their readers
	commands["race"] = func(r *Run) {
		pool := r.crowd()
		r.count("texts", len(pool))
		runtime.GOMAXPROCS(8)
		want := make([]string, len(pool))
		files := make([]*sqlast.File, len(pool))
		toks := make([][]*sqltoken.Token, len(pool))
		r.eachBy(1, len(pool), func(i int, desc func(func() string)) {
			t := pool[i]
			desc(func() string { return fmt.Sprintf("%q", t) })
			if i%2 == 0 { // half of them for the first time by many at once
				want[i] = everything(t)
			}
			guard(func() { toks[i], _ = sqltoken.NewTokenizer(strings.NewReader(t.src), dialectOf(t.d)).Tokenize() })
			if o := parse(t.src, t.d, "comments"); o.ok() {
				files[i] = o.File
			}
		})
		var mu sync.Mutex
		r.eachBy(8, 8*len(pool), func(n int, desc func(func() string)) {
			w, k := n%8, n/8
			i := k
			if w%2 == 1 {
				i = (k*7 + w) % len(pool)
			}
			desc(func() string { return fmt.Sprintf("concurrently: %q", pool[i]) })
			s := everything(pool[i])
			mu.Lock()
			if want[i] == "" {
				want[i] = s
			}
			same := want[i] == s
			mu.Unlock()
			r.eval(1)
			if !same {
				r.violate(Violation{Case: fmt.Sprintf("%q", pool[i]), What: "another result than before, among concurrent parsers"})
			}
			if files[i] != nil {
				guard(func() {
					printAll(files[i])
					mapText(files[i])
					sqlast.Inspect(files[i], func(n sqlast.Node) bool {
						if n != nil {
							n.Pos()
							n.End()
						}
						return n != nil
					})
					sqlastutil.Apply(files[i], func(*sqlastutil.Cursor) bool { return true }, nil)
				})
			}
			if toks[i] != nil {
				guard(func() {
					p := xsqlparser.NewParserWithOptions()
					p.SetTokens(toks[i])
					p.ParseSQL()
				})
			}
		})
	}
}

// crowd: texts for many at once.
func (r *Run) crowd() []textOf {
	pool := r.textPool(r.arg("texts", 100))
	// and one of every kind of node, whatever is printed of it
	cs := r.readMixed()
	chosen := r.chooseBy(cs, 1<<30, 1, true)
	for i := range cs {
		if chosen[i] {
			rr := r.rng(i, 21)
			sp := randomSpelling(rr, "plain")
			pool = append(pool, textOf{render(rr, sp.spell(rr, cs[i].T), "comments", sp.Dialect).Src, sp.Dialect})
		}
	}
	return pool
}
