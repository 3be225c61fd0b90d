package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

// The structure of an AST, found by reflection: which nodes are below which, in which fields.

var nodeType = reflect.TypeOf((*sqlast.Node)(nil)).Elem()

// comments are kept in the file, but are no nodes of the tree
func isNodeType(t reflect.Type) bool {
	if t == reflect.TypeOf((*sqlast.CommentGroup)(nil)) || t == reflect.TypeOf((*sqlast.Comment)(nil)) {
		return false
	}
	return (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && t.Implements(nodeType)
}

type fieldInfo struct {
	Name string
	List bool
	Type reflect.Type // of the node
}

var fieldCache sync.Map

// nodeFields lists the fields of a struct type that hold nodes.
func nodeFields(t reflect.Type) []fieldInfo {
	if f, ok := fieldCache.Load(t); ok {
		return f.([]fieldInfo)
	}
	fs := []fieldInfo{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		switch {
		case f.PkgPath != "" && !f.Anonymous:
		case isNodeType(f.Type):
			fs = append(fs, fieldInfo{f.Name, false, f.Type})
		case f.Type.Kind() == reflect.Slice && isNodeType(f.Type.Elem()):
			fs = append(fs, fieldInfo{f.Name, true, f.Type.Elem()})
		}
	}
	fieldCache.Store(t, fs)
	return fs
}

// absent: a nil interface, or a nil pointer in one.
func absent(n sqlast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

type slotOf struct {
	Name  string
	List  bool
	Nodes []sqlast.Node
}

func slots(n sqlast.Node) []slotOf {
	v := reflect.Indirect(reflect.ValueOf(n))
	if v.Kind() != reflect.Struct {
		return nil
	}
	var out []slotOf
	for _, f := range nodeFields(v.Type()) {
		s := slotOf{Name: f.Name, List: f.List}
		fv := v.FieldByName(f.Name)
		if f.List {
			for i := 0; i < fv.Len(); i++ {
				x, _ := fv.Index(i).Interface().(sqlast.Node)
				s.Nodes = append(s.Nodes, x)
			}
		} else if x, _ := fv.Interface().(sqlast.Node); !absent(x) {
			s.Nodes = append(s.Nodes, x)
		}
		out = append(out, s)
	}
	return out
}

// scalars is everything of a node but its nodes.
func scalars(n sqlast.Node) string {
	v := reflect.Indirect(reflect.ValueOf(n))
	if v.Kind() != reflect.Struct {
		return fmt.Sprintf("%v", v.Interface())
	}
	var b strings.Builder
	b.WriteString(v.Type().Name())
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if isNodeType(f.Type) || f.Type.Kind() == reflect.Slice && isNodeType(f.Type.Elem()) || f.PkgPath != "" {
			continue
		}
		b.WriteByte(' ')
		dumpTo(&b, v.Field(i), true, false)
	}
	return b.String()
}

// ids numbers the nodes of trees: 1 is the holder of the root.
type ids struct {
	of    map[sqlast.Node]int
	nodes []sqlast.Node   // by id-1; nil for the holder
	slots [][]interface{} // as when the node was added
	sigs  []string
	twice bool // a node occurs twice
}

func newIDs(root sqlast.Node) *ids {
	t := &ids{of: map[sqlast.Node]int{}}
	t.nodes = append(t.nodes, nil)
	t.slots = append(t.slots, nil)
	t.sigs = append(t.sigs, "")
	t.add(root)
	t.slots[0] = []interface{}{[]interface{}{"Node", 0, []int{t.of[root]}}}
	return t
}

func (t *ids) add(n sqlast.Node) int {
	if absent(n) {
		return 0
	}
	if id, ok := t.of[n]; ok {
		t.twice = true
		return id
	}
	t.nodes = append(t.nodes, n)
	id := len(t.nodes)
	t.of[n] = id
	t.slots = append(t.slots, nil)
	t.sigs = append(t.sigs, scalars(n))
	for _, s := range slots(n) {
		for _, x := range s.Nodes {
			t.add(x)
		}
	}
	t.slots[id-1] = t.view(n)
	return id
}

func (t *ids) id(n sqlast.Node) int {
	if n == nil {
		return 0
	}
	if absent(n) {
		return -1
	}
	if id, ok := t.of[n]; ok {
		return id
	}
	return -2
}

// view is the form a node has in traces: its slots << name, isList, ids >>.
func (t *ids) view(n sqlast.Node) []interface{} {
	out := []interface{}{}
	for _, s := range slots(n) {
		l := 0
		if s.List {
			l = 1
		}
		ns := []int{}
		for _, x := range s.Nodes {
			ns = append(ns, t.id(x))
		}
		out = append(out, []interface{}{s.Name, l, ns})
	}
	return out
}

// clone copies a tree.
func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(clone(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		w := reflect.New(v.Type()).Elem()
		w.Set(clone(v.Elem()))
		return w
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(clone(v.Index(i)))
		}
		return s
	case reflect.Struct:
		w := reflect.New(v.Type()).Elem()
		w.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if f := w.Field(i); f.CanSet() {
				f.Set(clone(v.Field(i)))
			}
		}
		return w
	}
	return v
}

func cloneNode(n sqlast.Node) sqlast.Node { return clone(reflect.ValueOf(n)).Interface().(sqlast.Node) }

// lookup follows a cursor.
func lookup(parent sqlast.Node, name string, index int) (x sqlast.Node, ok bool) {
	defer func() {
		if recover() != nil {
			x, ok = nil, false
		}
	}()
	v := reflect.Indirect(reflect.ValueOf(parent)).FieldByName(name)
	if index >= 0 {
		v = v.Index(index)
	} else if v.Kind() == reflect.Slice {
		return nil, false
	}
	x, _ = v.Interface().(sqlast.Node)
	return x, true
}

// walkEvents records a walk: << node, visitor, returned visitor or 0 >>
type recorder struct {
	t       *ids
	decline func(n sqlast.Node) bool
	ev      [][3]int
	next    int
	limit   int
}

type visitor struct {
	r  *recorder
	id int
}

func (v *visitor) Visit(n sqlast.Node) sqlast.Visitor {
	r := v.r
	if len(r.ev) > r.limit {
		panic("the walk does not end")
	}
	e := [3]int{r.t.id(n), v.id, 0}
	if n == nil {
		r.ev = append(r.ev, e)
		return nil
	}
	if r.decline(n) {
		r.ev = append(r.ev, e)
		return nil
	}
	r.next++
	e[2] = r.next
	r.ev = append(r.ev, e)
	return &visitor{r, r.next}
}

func walkEvents(t *ids, root sqlast.Node, decline func(n sqlast.Node) bool) ([][3]int, interface{}) {
	r := &recorder{t: t, decline: decline, next: 1, limit: 10*len(t.nodes) + 10}
	p := guard(func() { sqlast.Walk(&visitor{r, 1}, root) })
	return r.ev, p
}

func inspectEvents(t *ids, root sqlast.Node, decline func(n sqlast.Node) bool) ([][3]int, interface{}) {
	ev := [][3]int{}
	p := guard(func() {
		sqlast.Inspect(root, func(n sqlast.Node) bool {
			if len(ev) > 10*len(t.nodes)+10 {
				panic("the inspection does not end")
			}
			ret := 0
			if n != nil && !decline(n) {
				ret = 1
			}
			ev = append(ev, [3]int{t.id(n), 1, ret})
			return ret == 1
		})
	})
	return ev, p
}

func never(sqlast.Node) bool { return false }

type walkTrace struct {
	Mode string          `json:"mode"`
	Tree [][]interface{} `json:"tree"`
	Ev   [][3]int        `json:"ev"`
}

// writeTrace writes a trace for TLC and says what it is of.
func (r *Run) writeTrace(v interface{}, label string) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("trace: %v", err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.traceBuf.Write(b)
	r.traceBuf.WriteByte('\n')
	r.labels.WriteString(strings.Replace(label, "\n", " ", -1))
	r.labels.WriteByte('\n')
	r.res.Counts["traces recorded"]++
}

// treeText describes the tree of a trace: the types by number.
func (t *ids) text() string {
	var b strings.Builder
	for i, n := range t.nodes {
		if i > 0 {
			fmt.Fprintf(&b, " %d:%s", i+1, reflect.TypeOf(n).Elem().Name())
		}
	}
	return b.String()
}

func (r *Run) walkTrace(t *ids, ev [][3]int, p interface{}, label string) {
	r.eval(1)
	if p != nil {
		r.violate(Violation{Case: label, What: fmt.Sprint(p)})
		return
	}
	r.writeTrace(walkTrace{"walk", t.slots, ev}, label+" nodes:"+t.text())
}

// orphans are nodes the parser never makes, filled from the donors.
func orphans(rr *rand.Rand, d *donors) []sqlast.Node {
	var out []sqlast.Node
	for _, n := range []sqlast.Node{&sqlast.PartitionedJoinTable{}, &sqlast.CopyStmt{}, &sqlast.SelectExpr{}, &sqlast.WildcardSelectItem{},
		&sqlast.Clob{}, &sqlast.Binary{}, &sqlast.Varbinary{}, &sqlast.Blob{}, &sqlast.DateValue{}, &sqlast.TimeValue{},
		&sqlast.DateTimeValue{}, &sqlast.TimestampValue{}} {
		v := reflect.ValueOf(n).Elem()
		for _, f := range nodeFields(v.Type()) {
			fv := v.FieldByName(f.Name)
			if f.List {
				for k := 0; k < 2; k++ {
					fv.Set(reflect.Append(fv, reflect.ValueOf(d.pick(rr, f.Type))))
				}
			} else {
				fv.Set(reflect.ValueOf(d.pick(rr, f.Type)))
			}
		}
		out = append(out, n)
	}
	return out
}

// donors holds nodes by their type.
type donors struct {
	by     map[reflect.Type][]sqlast.Node
	types  []reflect.Type
	fits   map[reflect.Type][]reflect.Type
	fitsMu sync.Mutex
}

func (r *Run) gather(cs []sqlCase) *donors {
	d := &donors{by: map[reflect.Type][]sqlast.Node{}, fits: map[reflect.Type][]reflect.Type{}}
	rr := rand.New(rand.NewSource(1))
	sp := spelling{Idents: "plain", Keywords: "upper", Literals: "plain", Dialect: "generic"}
	r.first(len(cs), func(i int, desc func(func() string)) {
		rd := render(rr, sp.spell(rr, cs[i].T), "plain", "generic")
		desc(func() string { return caseOf(rd) })
		o := parse(rd.Src, "generic", "file")
		if !o.ok() {
			return
		}
		for _, n := range newIDs(o.File).nodes[1:] {
			t := reflect.TypeOf(n)
			if _, file := n.(*sqlast.File); !file && len(d.by[t]) < 20 {
				d.by[t] = append(d.by[t], n)
			}
		}
	})
	for t := range d.by {
		d.types = append(d.types, t)
	}
	sort.Slice(d.types, func(i, j int) bool { return d.types[i].String() < d.types[j].String() })
	return d
}

// pick is a new node that may stand in a field of that type; nil if there is none
func (d *donors) pick(rr *rand.Rand, t reflect.Type) sqlast.Node {
	d.fitsMu.Lock()
	ts, ok := d.fits[t]
	if !ok {
		for _, u := range d.types {
			if u.AssignableTo(t) {
				ts = append(ts, u)
			}
		}
		d.fits[t] = ts
	}
	d.fitsMu.Unlock()
	if len(ts) == 0 {
		return nil
	}
	ns := d.by[ts[rr.Intn(len(ts))]]
	return cloneNode(ns[rr.Intn(len(ns))])
}

// ---------------------------------------------------------------------------------------------------------------
// Apply

type applyEvent struct {
	Phase, Node, Parent int
	Name                string
	Index, At, Ret      int
	Ops                 [][]interface{}
}

func (e applyEvent) MarshalJSON() ([]byte, error) {
	ops := e.Ops
	if ops == nil {
		ops = [][]interface{}{}
	}
	return json.Marshal([]interface{}{e.Phase, e.Node, e.Parent, e.Name, e.Index, e.At, e.Ret, ops})
}

type applyTrace struct {
	Mode string          `json:"mode"`
	Tree [][]interface{} `json:"tree"`
	Ord  []int           `json:"ord"`
	Ev   []applyEvent    `json:"ev"`
	Fin  [][]interface{} `json:"fin"`
}

// applyRun records an Apply. decide gives the value to return and makes its edits through the editor.
type applyRun struct {
	t     *ids
	ev    []applyEvent
	limit int
}

type editor struct {
	run *applyRun
	c   *sqlastutil.Cursor
	e   *applyEvent
}

func (a *applyRun) record(phase int, c *sqlastutil.Cursor, decide func(ed *editor) bool) bool {
	if len(a.ev) > a.limit {
		panic("the traversal does not end")
	}
	e := applyEvent{Phase: phase, Node: a.t.id(c.Node()), Parent: a.t.id(c.Parent()), Name: c.Name(), Index: c.Index(), At: -3}
	if x, ok := lookup(c.Parent(), c.Name(), c.Index()); ok {
		e.At = a.t.id(x)
	}
	if e.Parent == -2 {
		// the holder of the root
		if v := reflect.Indirect(reflect.ValueOf(c.Parent())); v.Kind() == reflect.Struct && v.FieldByName("Node").IsValid() && e.Name == "Node" {
			e.Parent = 1
		}
	}
	ret := decide(&editor{run: a, c: c, e: &e})
	if ret {
		e.Ret = 1
	}
	a.ev = append(a.ev, e)
	return ret
}

func (ed *editor) op(op string, n sqlast.Node) {
	id := 0
	if op != "D" {
		id = ed.run.t.add(n)
	}
	ed.e.Ops = append(ed.e.Ops, []interface{}{op, id})
	switch op {
	case "R":
		ed.c.Replace(n)
	case "D":
		ed.c.Delete()
	case "B":
		ed.c.InsertBefore(n)
	case "A":
		ed.c.InsertAfter(n)
	}
}

// slotType is the type of what may stand at the cursor, and whether that is in a list.
func slotType(c *sqlastutil.Cursor) (reflect.Type, bool) {
	v := reflect.Indirect(reflect.ValueOf(c.Parent())).FieldByName(c.Name())
	if !v.IsValid() {
		return nodeType, false
	}
	if v.Kind() == reflect.Slice {
		return v.Type().Elem(), true
	}
	return v.Type(), false
}

// apply runs Apply with recorded callbacks; nil callbacks are not given.
func applyTo(t *ids, root sqlast.Node, pre, post func(ed *editor) bool) (a *applyRun, res sqlast.Node, p interface{}) {
	a = &applyRun{t: t, limit: 20*len(t.nodes) + 20}
	var fpre, fpost sqlastutil.ApplyFunc
	if pre != nil {
		fpre = func(c *sqlastutil.Cursor) bool { return a.record(0, c, pre) }
	}
	if post != nil {
		fpost = func(c *sqlastutil.Cursor) bool { return a.record(1, c, post) }
	}
	p = guard(func() { res = sqlastutil.Apply(root, fpre, fpost) })
	return
}

// after is the tree as it is now.
func (t *ids) after(root sqlast.Node) [][]interface{} {
	fin := [][]interface{}{{[]interface{}{"Node", 0, []int{t.id(root)}}}}
	for _, n := range t.nodes[1:] {
		fin = append(fin, t.view(n))
	}
	return fin
}

// untouched reports the nodes whose other contents have changed.
func (t *ids) untouched() string {
	for i, n := range t.nodes {
		if i > 0 && scalars(n) != t.sigs[i] {
			return fmt.Sprintf("%s has become %s", t.sigs[i], scalars(n))
		}
	}
	return ""
}

func yes(*editor) bool { return true }

func order(t *ids, root sqlast.Node) []int {
	ev, _ := walkEvents(t, root, never)
	o := []int{}
	for _, e := range ev {
		if e[0] > 0 {
			o = append(o, e[0])
		}
	}
	return o
}

// choose picks the cases worth a trace: those having a node whose type, fields and children have been seen fewer than
// three times, and one in so many of the others.
func (r *Run) choose(cs []sqlCase) map[int]bool {
	return r.chooseBy(cs, r.arg("every", 20), 3, false)
}

// shape tells nodes apart by their fields that are no nodes: what is there, and what is set.
func shape(n sqlast.Node) string {
	v := reflect.Indirect(reflect.ValueOf(n))
	if v.Kind() != reflect.Struct {
		return ""
	}
	k := ""
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); v.Type().Field(i).PkgPath == "" {
			switch f.Kind() {
			case reflect.Bool:
				k += fmt.Sprint(" ", f.Bool())
			case reflect.Ptr, reflect.Interface:
				k += fmt.Sprint(" ", f.IsNil())
			}
		}
	}
	return k
}

func (r *Run) chooseBy(cs []sqlCase, every, times int, shapes bool) map[int]bool {
	seen := map[string]int{}
	out := map[int]bool{}
	sp := spelling{Idents: "plain", Keywords: "upper", Literals: "plain", Dialect: "generic"}
	rr := r.rng(0, 3)
	r.first(len(cs), func(i int, desc func(func() string)) {
		rd := render(rr, sp.spell(rr, cs[i].T), "plain", "generic")
		desc(func() string { return caseOf(rd) })
		o := parse(rd.Src, "generic", "file")
		if !o.ok() {
			return
		}
		take := rr.Intn(every) == 0
		for _, n := range newIDs(o.File).nodes[1:] {
			k := reflect.TypeOf(n).String()
			for _, s := range slots(n) {
				k += " " + s.Name
				for j, x := range s.Nodes {
					if j < 3 {
						k += fmt.Sprintf(" %T", x)
					}
				}
			}
			if shapes {
				k += shape(n)
			}
			if seen[k] < times {
				take = true
				seen[k]++
			}
		}
		if take {
			out[i] = true
		}
	})
	r.res.Counts["kinds of nodes with their children"] = len(seen)
	return out
}

func init() {
	// C14: walks are behaviours of Traverse
	commands["walk"] = func(r *Run) {
		cs := readSQL(r)
		d := r.gather(cs)
		one := func(rr *rand.Rand, root sqlast.Node, label string, all bool) {
			t := newIDs(root)
			if t.twice {
				r.count("a node occurs twice", 1)
				return
			}
			pick := map[sqlast.Node]bool{}
			declined := func(n sqlast.Node) bool { return pick[n] }
			ev, p := walkEvents(t, root, never)
			r.walkTrace(t, ev, p, label+" walk")
			for k := 0; k < 2; k++ {
				pick = map[sqlast.Node]bool{}
				if k == 0 {
					pick[t.nodes[1+rr.Intn(len(t.nodes)-1)]] = true
				} else {
					for _, n := range t.nodes[1:] {
						pick[n] = rr.Intn(4) == 0
					}
				}
				if all || k == 0 {
					ev, p = walkEvents(t, root, declined)
					r.walkTrace(t, ev, p, label+" walk, declining")
				}
				if all {
					ev, p = inspectEvents(t, root, declined)
					r.walkTrace(t, ev, p, label+" inspect, declining")
				}
			}
			ev, p = inspectEvents(t, root, never)
			r.walkTrace(t, ev, p, label+" inspect")
		}
		chosen := r.choose(cs)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			if !chosen[i] {
				return
			}
			sp := randomSpelling(rr, "plain")
			rd := render(rr, sp.spell(rr, c.T), "plain", sp.Dialect)
			desc(func() string { return caseOf(rd) })
			o := parse(rd.Src, rd.Dialect, "comments")
			if !o.ok() {
				return
			}
			r.note(i, len(cs), rd, c.K)
			all := rr.Intn(4) == 0
			one(rr, o.File, caseOf(rd), all)
			if all {
				t := newIDs(o.File)
				one(rr, t.nodes[1+rr.Intn(len(t.nodes)-1)], caseOf(rd)+" from a node", false)
			}
		})
		rr := r.rng(0, 1)
		for _, n := range orphans(rr, d) {
			one(rr, n, fmt.Sprintf("%T", n), true)
			one(rr, &sqlast.Nested{AST: n}, fmt.Sprintf("nested %T", n), true)
		}
		r.res.Counts["types of nodes"] = len(d.by)
	}

	// C15: traversals by Apply without edits
	commands["apply"] = func(r *Run) {
		cs := readSQL(r)
		d := r.gather(cs)
		one := func(rr *rand.Rand, root sqlast.Node, label string) {
			t := newIDs(root)
			if t.twice {
				return
			}
			before := dumpFull(root)
			ord := order(t, root)
			rec := func(how string, pre, post func(ed *editor) bool) *applyRun {
				r.eval(1)
				a, res, p := applyTo(t, root, pre, post)
				if p != nil {
					r.violate(Violation{Case: label + " " + how, What: fmt.Sprint(p)})
					return nil
				}
				if res != root {
					r.violate(Violation{Case: label + " " + how, What: "Apply does not return the root"})
				}
				if after := dumpFull(root); after != before {
					r.violate(Violation{Case: label + " " + how, What: "Apply without edits changes the tree", Expected: before, Got: after})
				}
				return a
			}
			save := func(how string, a *applyRun) {
				if a != nil {
					r.writeTrace(applyTrace{"apply", t.slots, ord, a.ev, t.after(root)}, label+" "+how+" nodes:"+t.text())
				}
			}
			full := rec("pre and post", yes, yes)
			save("pre and post", full)
			if full == nil {
				return
			}
			// one callback only: the same calls
			for ph, f := range [][2]func(*editor) bool{{yes, nil}, {nil, yes}} {
				if a := rec("one callback", f[0], f[1]); a != nil {
					var want []applyEvent
					for _, e := range full.ev {
						if e.Phase == ph {
							want = append(want, e)
						}
					}
					if fmt.Sprint(want) != fmt.Sprint(a.ev) {
						r.violate(Violation{Case: label, What: fmt.Sprintf("with only one callback (%d) the calls are others", ph), Expected: fmt.Sprint(want), Got: fmt.Sprint(a.ev)})
					}
				}
			}
			rec("no callbacks", nil, nil)
			// declining
			pick := map[sqlast.Node]bool{}
			pick[t.nodes[1+rr.Intn(len(t.nodes)-1)]] = true
			save("false pre", rec("false pre", func(ed *editor) bool { return !pick[ed.c.Node()] }, yes))
			save("false post", rec("false post", yes, func(ed *editor) bool { return !pick[ed.c.Node()] }))
			if rr.Intn(3) == 0 {
				some := map[sqlast.Node]bool{}
				for _, n := range t.nodes[1:] {
					some[n] = rr.Intn(4) == 0
				}
				save("false pre and post", rec("false pre and post", func(ed *editor) bool { return !some[ed.c.Node()] }, func(ed *editor) bool { return !pick[ed.c.Node()] }))
				var last sqlast.Node
				if ev := full.ev; len(ev) > 0 {
					last = t.nodes[ev[len(ev)-1].Node-1]
				}
				save("false post at the end", rec("false post at the end", yes, func(ed *editor) bool { return ed.c.Node() != last }))
				rec("post only, false", nil, func(ed *editor) bool { return !pick[ed.c.Node()] })
			}
		}
		chosen := r.choose(cs)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			if !chosen[i] {
				return
			}
			sp := randomSpelling(rr, "plain")
			rd := render(rr, sp.spell(rr, c.T), "plain", sp.Dialect)
			desc(func() string { return caseOf(rd) })
			o := parse(rd.Src, rd.Dialect, "comments")
			if !o.ok() {
				return
			}
			r.note(i, len(cs), rd, c.K)
			one(rr, o.File, caseOf(rd))
			if rr.Intn(4) == 0 {
				t := newIDs(o.File)
				one(rr, t.nodes[1+rr.Intn(len(t.nodes)-1)], caseOf(rd)+" from a node")
			}
		})
		rr := r.rng(0, 1)
		for _, n := range orphans(rr, d) {
			one(rr, n, fmt.Sprintf("%T", n))
			one(rr, &sqlast.Nested{AST: n}, fmt.Sprintf("nested %T", n))
		}
	}

	// C16: traversals with random edits, to be judged by TLC
	commands["edits"] = func(r *Run) {
		cs := readSQL(r)
		d := r.gather(cs)
		chosen := r.choose(cs)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			sp := randomSpelling(rr, "plain")
			rd := render(rr, sp.spell(rr, c.T), "plain", sp.Dialect)
			desc(func() string { return caseOf(rd) })
			o := parse(rd.Src, rd.Dialect, "file")
			if !o.ok() {
				return
			}
			r.replacements(rr, d, rd, o.File)
			if !chosen[i] {
				return
			}
			r.note(i, len(cs), rd, c.K)
			for k := 0; k < 2; k++ {
				r.randomEdits(rr, d, rd, cloneNode(o.File).(*sqlast.File), []int{12, 4}[k])
			}
			r.rename(rd, o.File)
		})
	}

	commands["lists"] = func(r *Run) { listScripts(r) }
}

// randomEdits applies random edits to a file during one traversal.
func (r *Run) randomEdits(rr *rand.Rand, d *donors, rd *rendered, f *sqlast.File, rate int) {
	r.eval(1)
	t := newIDs(f)
	if t.twice {
		return
	}
	ord := order(t, f)
	gone := map[sqlast.Node]bool{}
	var script []string
	root := sqlast.Node(f)
	edit := func(phase string) func(ed *editor) bool {
		return func(ed *editor) bool {
			n := ed.c.Node()
			ok := rr.Intn(40) != 0
			if phase == "post" {
				ok = rr.Intn(150) != 0
			}
			if rr.Intn(rate) != 0 || phase == "post" && gone[n] || ed.e.Parent == 1 && rr.Intn(3) != 0 {
				return ok
			}
			ty, list := slotType(ed.c)
			if _, ok := ed.c.Parent().(*sqlast.CaseExpr); ok {
				list = false // its two lists must stay equally long
			}
			for k := 1 + rr.Intn(3); k > 0; k-- {
				op := "R"
				if list {
					op = []string{"R", "D", "B", "A"}[rr.Intn(4)]
				}
				var y sqlast.Node
				if op != "D" {
					if y = d.pick(rr, ty); y == nil {
						continue
					}
				}
				script = append(script, fmt.Sprintf("%s %d: %s %T", phase, ed.e.Node, op, y))
				ed.op(op, y)
				if op == "D" {
					gone[n] = true
					break
				}
			}
			return ok
		}
	}
	a, res, p := applyTo(t, f, edit("pre"), edit("post"))
	label := fmt.Sprintf("%s edits: %s", caseOf(rd), strings.Join(script, "; "))
	if p != nil {
		r.violate(Violation{Case: label, What: fmt.Sprint(p)})
		return
	}
	root = res
	if what := t.untouched(); what != "" {
		r.violate(Violation{Case: label, What: "another part of the tree has changed: " + what})
	}
	r.writeTrace(applyTrace{"apply", t.slots, ord, a.ev, t.after(root)}, label+" nodes:"+t.text())
	r.count("edits", len(script))
	var s1, s2 string
	if p := guard(func() { s1 = root.ToSQLString(); s2 = cloneNode(root).ToSQLString() }); p != nil {
		r.violate(Violation{Case: label, What: "printing the edited tree: " + fmt.Sprint(p)})
	} else if s1 != s2 {
		r.violate(Violation{Case: label, What: "the printed text is not that of the edited tree", Expected: s2, Got: s1})
	}
}

// replacements replaces each node in turn, by setting the field and by Replace.
func (r *Run) replacements(rr *rand.Rand, d *donors, rd *rendered, f *sqlast.File) {
	type place struct {
		parent int
		field  fieldInfo
		index  int
	}
	t := newIDs(f)
	if t.twice {
		return
	}
	var places []place
	for i, n := range t.nodes[1:] {
		v := reflect.Indirect(reflect.ValueOf(n))
		for _, fi := range nodeFields(v.Type()) {
			fv := v.FieldByName(fi.Name)
			if fi.List {
				for k := 0; k < fv.Len(); k++ {
					places = append(places, place{i + 1, fi, k})
				}
			} else if !fv.IsNil() {
				places = append(places, place{i + 1, fi, -1})
			}
		}
	}
	for _, pl := range places {
		if len(places) > 6 && rr.Intn(len(places)) >= 6 {
			continue
		}
		y := d.pick(rr, pl.field.Type)
		if y == nil {
			continue
		}
		r.eval(1)
		// cloning preserves the order in which nodes are numbered
		want := cloneNode(f).(*sqlast.File)
		wt := newIDs(want)
		v := reflect.Indirect(reflect.ValueOf(wt.nodes[pl.parent])).FieldByName(pl.field.Name)
		if pl.index >= 0 {
			v = v.Index(pl.index)
		}
		v.Set(reflect.ValueOf(cloneNode(y)))
		got := cloneNode(f).(*sqlast.File)
		gt := newIDs(got)
		gv := reflect.Indirect(reflect.ValueOf(gt.nodes[pl.parent])).FieldByName(pl.field.Name)
		if pl.index >= 0 {
			gv = gv.Index(pl.index)
		}
		target := gv.Interface().(sqlast.Node)
		inPost := rr.Intn(2) == 0
		hits := 0
		do := func(c *sqlastutil.Cursor) bool {
			if c.Node() == target {
				hits++
				c.Replace(y)
			}
			return true
		}
		var res sqlast.Node
		label := fmt.Sprintf("%s replacing %s.%s[%d] by %T, in post: %v", caseOf(rd), typeName(reflect.ValueOf(gt.nodes[pl.parent])), pl.field.Name, pl.index, y, inPost)
		var s1, s2 string
		p := guard(func() {
			if inPost {
				res = sqlastutil.Apply(got, nil, do)
			} else {
				res = sqlastutil.Apply(got, do, nil)
			}
			s1, s2 = want.ToSQLString(), res.ToSQLString()
		})
		switch {
		case p != nil:
			r.violate(Violation{Case: label, What: fmt.Sprint(p)})
		case hits != 1:
			r.violate(Violation{Case: label, What: "the node is not visited once", Expected: 1, Got: hits})
		case dumpFull(want) != dumpFull(res):
			r.violate(Violation{Case: label, What: "another tree", Expected: dump(want), Got: dump(res)})
		case s1 != s2:
			r.violate(Violation{Case: label, What: "another text is printed", Expected: s1, Got: s2})
		}
	}
}

// rename replaces all identifiers; the printed text must parse to the renamed tree.
func (r *Run) rename(rd *rendered, f *sqlast.File) {
	r.eval(1)
	g := cloneNode(f).(*sqlast.File)
	want := cloneNode(f).(*sqlast.File)
	for _, n := range newIDs(want).nodes[1:] {
		if id, ok := n.(*sqlast.Ident); ok {
			id.Value = "renamed_" + strings.Trim(id.Value, "\"`")
		}
	}
	var text string
	p := guard(func() {
		sqlastutil.Apply(g, func(c *sqlastutil.Cursor) bool {
			if id, ok := c.Node().(*sqlast.Ident); ok {
				c.Replace(&sqlast.Ident{Value: "renamed_" + strings.Trim(id.Value, "\"`")})
			}
			return true
		}, nil)
		text = g.ToSQLString()
	})
	if p != nil {
		r.violate(Violation{Case: caseOf(rd) + " renaming", What: fmt.Sprint(p)})
		return
	}
	if dump(g) != dump(want) {
		r.violate(Violation{Case: caseOf(rd) + " renaming", What: "the renamed tree is another one", Expected: dump(want), Got: dump(g)})
		return
	}
	o := parse(text, rd.Dialect, "file")
	if !o.ok() || dump(o.File.Stmts) != dump(want.Stmts) {
		// the text before the edit prints faithfully: then so must the edited one
		if o0 := parse(f.ToSQLString(), rd.Dialect, "file"); o0.ok() && dump(o0.File.Stmts) == dump(f.Stmts) {
			r.violate(Violation{Case: caseOf(rd) + " renaming", What: "the text printed after renaming, " + text + ", is not that of the renamed tree: " + o.problem()})
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------
// the behaviours of Edits, on every list of the AST

type editScript struct {
	Size   int               `json:"size"`
	Script [][][]interface{} `json:"script"`
	Visits [][]interface{}   `json:"visits"`
	List   []int             `json:"list"`
}

func listScripts(r *Run) {
	var scripts []editScript
	var sqls []sqlCase
	readCases(r.In, func(b []byte) {
		if strings.HasPrefix(string(b), `{"size"`) || strings.Contains(string(b), `"script"`) {
			var s editScript
			if err := json.Unmarshal(b, &s); err != nil {
				fatal("script %s: %v", b, err)
			}
			scripts = append(scripts, s)
			return
		}
		var c sqlCase
		if err := json.Unmarshal(b, &c); err != nil {
			fatal("case %s: %v", b, err)
		}
		sqls = append(sqls, c)
	})
	if len(scripts) == 0 || len(sqls) == 0 {
		fatal("no cases")
	}
	d := r.gather(sqls)
	// the lists: a parent for each
	type list struct {
		owner sqlast.Node
		field fieldInfo
	}
	var lists []list
	file := parse("SELECT 1; SELECT 2", "generic", "file").File
	owners := []sqlast.Node{file}
	for _, t := range d.types {
		best := d.by[t][0]
		for _, n := range d.by[t] {
			if len(newIDs(n).nodes) < len(newIDs(best).nodes) {
				best = n
			}
		}
		owners = append(owners, best)
	}
	owners = append(owners, orphans(r.rng(0, 2), d)...)
	for _, o := range owners {
		for _, f := range nodeFields(reflect.TypeOf(o).Elem()) {
			if f.List {
				lists = append(lists, list{o, f})
			}
		}
	}
	r.count("kinds of lists", len(lists))
	r.each(len(scripts), func(i int, desc func(func() string)) {
		s := &scripts[i]
		rr := r.rng(i, 0)
		for _, l := range lists {
			label := fmt.Sprintf("%T.%s size=%d script=%v", l.owner, l.field.Name, s.Size, s.Script)
			desc(func() string { return label })
			r.eval(1)
			r.nontrivial(label)
			if i%(len(scripts)/4+1) == 0 && l.field.Name == "Args" {
				r.sample(label)
			}
			owner := cloneNode(l.owner)
			v := reflect.ValueOf(owner).Elem().FieldByName(l.field.Name)
			v.Set(reflect.MakeSlice(v.Type(), 0, s.Size))
			node := map[int]sqlast.Node{}
			// in some lists a node stands more than once
			again := rr.Intn(3) == 0
			fresh := func() sqlast.Node {
				if again && len(node) > 0 && rr.Intn(2) == 0 {
					k := rr.Intn(len(node))
					for j := 1; ; j++ {
						if x, ok := node[j]; ok {
							if k == 0 {
								return x
							}
							k--
						}
					}
				}
				return d.pick(rr, l.field.Type)
			}
			for k := 1; k <= s.Size; k++ {
				x := fresh()
				if x == nil {
					fatal("nothing for %v", l.field.Type)
				}
				node[k] = x
				v.Set(reflect.Append(v, reflect.ValueOf(x)))
			}
			if c, ok := owner.(*sqlast.CaseExpr); ok {
				c.Operand = nil
			}
			rest := scalars(owner)
			step := 0
			var problem string
			visit := func(phase string) sqlastutil.ApplyFunc {
				return func(c *sqlastutil.Cursor) bool {
					n := c.Node()
					if c.Parent() != owner || c.Name() != l.field.Name {
						return true
					}
					if step >= len(s.Visits) {
						problem = fmt.Sprintf("more visits than elements: %s at index %d", phase, c.Index())
						return true
					}
					w := s.Visits[step]
					if idx := int(w[2].(float64)); problem == "" && (w[0] != phase || node[int(w[1].(float64))] != n || idx >= 0 && idx != c.Index()) {
						problem = fmt.Sprintf("visit %d is %s at index %d, expected %v, perhaps of another node", step, phase, c.Index(), w)
					}
					for _, op := range s.Script[step] {
						var y sqlast.Node
						if op[0] != "D" {
							y = fresh()
							node[int(op[1].(float64))] = y
						}
						switch op[0] {
						case "R":
							c.Replace(y)
						case "D":
							c.Delete()
						case "B":
							c.InsertBefore(y)
						case "A":
							c.InsertAfter(y)
						}
					}
					step++
					return true
				}
			}
			p := guard(func() { sqlastutil.Apply(owner, visit("pre"), visit("post")) })
			if p != nil {
				r.violate(Violation{Case: label, What: fmt.Sprint(p)})
				continue
			}
			if problem == "" && step != len(s.Visits) {
				problem = fmt.Sprintf("%d visits instead of %d", step, len(s.Visits))
			}
			var got, want []string
			for k := 0; k < v.Len(); k++ {
				got = append(got, fmt.Sprintf("%p", v.Index(k).Interface()))
			}
			for _, k := range s.List {
				want = append(want, fmt.Sprintf("%p", node[k]))
			}
			if problem == "" && strings.Join(got, " ") != strings.Join(want, " ") {
				problem = "the list afterwards is another one"
			}
			if problem == "" && scalars(owner) != rest {
				problem = "the owner has changed"
			}
			if problem != "" {
				r.violate(Violation{Case: label, What: problem, Expected: s.List})
			}
		}
	})
}
