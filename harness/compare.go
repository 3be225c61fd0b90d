package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
)

// compareCase is a behaviour of Compare.tla
type compareCase struct {
	Ops [][3]int `json:"ops"`
}

// place is a part of an AST that can be changed and changed back.
type place struct {
	path string
	v    reflect.Value
	old  reflect.Value
	now  bool
}

func (p *place) flip() {
	if p.now = !p.now; !p.now {
		p.v.Set(p.old)
		return
	}
	p.old = reflect.New(p.v.Type()).Elem()
	p.old.Set(p.v)
	switch p.v.Kind() {
	case reflect.String:
		p.v.SetString(p.v.String() + "x")
	case reflect.Bool:
		p.v.SetBool(!p.v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		p.v.SetInt(p.v.Int() ^ 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		p.v.SetUint(p.v.Uint() ^ 1)
	case reflect.Float64:
		if p.v.Float() == 0 {
			p.v.SetFloat(1)
		} else {
			p.v.SetFloat(0)
		}
	case reflect.Ptr:
		if p.v.IsNil() {
			p.v.Set(reflect.New(p.v.Type().Elem()))
		} else {
			p.v.Set(reflect.Zero(p.v.Type()))
		}
	case reflect.Interface:
		p.v.Set(reflect.Zero(p.v.Type()))
	case reflect.Slice:
		if n := p.v.Len(); n > 0 {
			p.v.Set(p.v.Slice(0, n-1))
		} else {
			p.v.Set(reflect.MakeSlice(p.v.Type(), 1, 1))
		}
	}
}

// places lists the parts of an AST.
func places(f *sqlast.File) (ps []*place) {
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		if v.CanSet() && v.Kind() != reflect.Struct && (v.Kind() != reflect.Interface || !v.IsNil()) {
			ps = append(ps, &place{path: path, v: v})
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !v.IsNil() {
				walk(path+"*", v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).CanSet() {
					walk(path+"."+v.Type().Field(i).Name+":", v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		}
	}
	walk("", reflect.ValueOf(f))
	return
}

// apart are places of which none contains another: changing a slice changes its last element only.
func apart(ps []*place, is []int) bool {
	for _, i := range is {
		for _, j := range is {
			if i != j && strings.HasPrefix(ps[j].path, ps[i].path) {
				return false
			}
		}
	}
	return true
}

func init() {
	// C25
	commands["compare"] = func(r *Run) {
		var hs []compareCase
		var files []string
		readCases(r.In[:1], func(b []byte) {
			var h compareCase
			if err := json.NewDecoder(bytes.NewReader(b)).Decode(&h); err != nil {
				fatal("%s: %v", b, err)
			}
			hs = append(hs, h)
		})
		sort.Slice(hs, func(i, j int) bool { return fmt.Sprint(hs[i]) < fmt.Sprint(hs[j]) })
		files = r.In[1:]
		rin := r.In
		r.In = files
		cs := readSQL(r)
		r.In = rin
		n, each := r.arg("texts", 1000), r.arg("each", 10)
		if len(hs) == 0 {
			fatal("no behaviours")
		}
		r.each(n, func(i int, desc func(func() string)) {
			rr := r.rng(i, 25)
			c := &cs[rr.Intn(len(cs))]
			sp := randomSpelling(rr, "any")
			ls := sp.spell(rr, c.T)
			for len(ls) > 24 {
				c = &cs[rr.Intn(len(cs))]
				ls = sp.spell(rr, c.T)
			}
			rd := render(rr, ls, pick(rr, []string{"comments", "plain"}), sp.Dialect)
			desc(func() string { return caseOf(rd) })
			a, b := parse(rd.Src, rd.Dialect, "comments"), parse(rd.Src, rd.Dialect, "comments")
			if !a.ok() || !b.ok() {
				return
			}
			r.note(i, n, rd, c.K)
			pa, pb := places(a.File), places(b.File)
			if len(pa) != len(pb) {
				fatal("%s: %d places, %d places", caseOf(rd), len(pa), len(pb))
			}
			check := func(want bool, how func() string) bool {
				r.eval(1)
				// either way around, of the files, of a statement
				var got string
				for k := 0; k < 2; k++ {
					x, y := a.File, b.File
					if k == 1 {
						x, y = y, x
					}
					if p := guard(func() { got = xsqlparser.CompareWithoutMarker(x, y) }); p != nil {
						r.violate(Violation{Case: caseOf(rd), What: fmt.Sprintf("%s: %v", how(), p)})
						return false
					}
					if (got == "") != want {
						r.violate(Violation{Case: caseOf(rd), What: how(), Expected: map[string]bool{"equal": want}, Got: clip(got)})
						return false
					}
				}
				return true
			}
			if !check(true, func() string { return "the ASTs of one text" }) {
				return
			}
			// every kind of place, for itself
			order := rr.Perm(len(pa))
			if len(order) > each*4 {
				order = order[:each*4]
			}
			for _, j := range order {
				r.count("places: "+pa[j].v.Kind().String(), 1)
				pa[j].flip()
				ok := check(false, func() string { return "changed: " + pa[j].path })
				pa[j].flip()
				if !ok {
					return
				}
			}
			for k := 0; k < each; k++ {
				is := []int{rr.Intn(len(pa)), rr.Intn(len(pa)), rr.Intn(len(pa))}
				if is[0] == is[1] || is[1] == is[2] || is[0] == is[2] || !apart(pa, is) {
					continue
				}
				h := &hs[rr.Intn(len(hs))]
				for s, op := range h.Ops {
					ps := pa
					if op[0] == 2 {
						ps = pb
					}
					ps[is[op[1]-1]].flip()
					if !check(op[2] == 1, func() string {
						return fmt.Sprintf("places %q, %q, %q, after %v", pa[is[0]].path, pa[is[1]].path, pa[is[2]].path, h.Ops[:s+1])
					}) {
						return
					}
				}
				for _, j := range is {
					for _, p := range []*place{pa[j], pb[j]} {
						if p.now {
							p.flip()
						}
					}
				}
			}
		})
	}
}
