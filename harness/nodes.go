package main

import (
	"fmt"
	"reflect"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// C23: the extents of all nodes

type extentTrace struct {
	Tokens int      `json:"tokens"`
	Values []int    `json:"values"`
	Nodes  [][4]int `json:"nodes"`
	Text   []string `json:"text"`
	Types  []string `json:"types"`
	// positions: of the file, of its groups of comments
	File     [2][2]int   `json:"file"`
	Comments [][2][2]int `json:"comments"`
}

func isLeaf(n sqlast.Node) int {
	switch n.(type) {
	case *sqlast.Ident, *sqlast.LongValue, *sqlast.DoubleValue, *sqlast.SingleQuotedString, *sqlast.NationalStringLiteral, *sqlast.BooleanValue, *sqlast.NullValue:
		return 1
	}
	return 0
}

// extents notes the extents of the nodes of a file in tokens; nil if a call panics.
func (r *Run) nodeExtents(f *sqlast.File, rd *rendered) (tr *extentTrace, types []string) {
	tr = &extentTrace{Tokens: len(rd.Lex), Values: []int{}, Comments: [][2][2]int{}, Text: []string{}, Types: []string{}}
	from, to := map[sqltoken.Pos]int{}, map[sqltoken.Pos]int{}
	for i, l := range rd.Lex {
		from[rd.From[i]], to[rd.To[i]] = i+1, i+1
		tr.Text = append(tr.Text, l.Class)
		switch l.Class {
		case "id", "dbl", "str", "nstr":
			tr.Values = append(tr.Values, i+1)
		}
	}
	var open []int
	seen := 0
	p := guard(func() {
		extent := func(n sqlast.Node) [2][2]int {
			return [2][2]int{{n.Pos().Line, n.Pos().Col}, {n.End().Line, n.End().Col}}
		}
		tr.File = extent(f)
		for _, g := range f.Comments {
			tr.Comments = append(tr.Comments, extent(g))
		}
		sqlast.Inspect(f, func(n sqlast.Node) bool {
			if n == nil {
				open = open[:len(open)-1]
				return false
			}
			seen++
			if w, ok := n.(*sqlast.WindowSpec); ok && len(w.PartitionBy) == 0 && len(w.OrderBy) == 0 && w.WindowsFrame == nil {
				// OVER (): nothing of it is kept
				open = append(open, 0)
				return true
			}
			parent := 0
			if len(open) > 0 {
				parent = open[len(open)-1]
			}
			a, b := from[n.Pos()], to[n.End()]
			if f, ok := n.(*sqlast.File); ok && len(f.Comments) > 0 {
				// the comments before and behind the statements belong to the file
				if n.Pos() == f.Comments[0].Pos() {
					a = 1
				}
				if n.End() == f.Comments[len(f.Comments)-1].End() {
					b = tr.Tokens
				}
			}
			tr.Nodes = append(tr.Nodes, [4]int{a, b, parent, isLeaf(n)})
			tr.Types = append(tr.Types, reflect.TypeOf(n).Elem().Name())
			types = append(types, fmt.Sprintf("%T", n))
			open = append(open, len(tr.Nodes))
			return true
		})
	})
	if p != nil {
		r.violate(Violation{Case: caseOf(rd), What: fmt.Sprintf("asking node %d for its extent: %v", seen, p)})
		return nil, nil
	}
	return tr, types
}

func init() {
	commands["nodeextents"] = func(r *Run) {
		cs := readSQL(r)
		chosen := r.choose(cs)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			if !chosen[i] {
				return
			}
			rr := r.rng(i, 0)
			for k := 0; k < 2; k++ {
				sp := randomSpelling(rr, []string{"any", "plain"}[k])
				ls := sp.spell(rr, c.T)
				if k == 1 {
					for j := rr.Intn(3); j > 0; j-- {
						ls = append(ls, lexeme{";", ";"})
						ls = append(ls, sp.spell(rr, cs[rr.Intn(len(cs))].T)...)
					}
				}
				rd := render(rr, ls, "tame", sp.Dialect)
				desc(func() string { return caseOf(rd) })
				o := parse(rd.Src, rd.Dialect, "comments")
				if !o.ok() {
					return
				}
				r.eval(1)
				if k == 0 {
					r.note(i, len(cs), rd, c.K)
				}
				tr, types := r.nodeExtents(o.File, rd)
				if tr == nil {
					return
				}
				if k == 0 || rr.Intn(r.arg("spans", 1)) > 0 {
					tr.Text = []string{} // only within, not where
				}
				r.writeTrace(tr, fmt.Sprintf("%s nodes=%v", caseOf(rd), types))
			}
		})
	}
}
