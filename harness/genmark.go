package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// genmarkCase is a history of Genmark.tla
type genmarkCase struct {
	Runs []struct {
		T    string   `json:"t"`
		E    []string `json:"e"`
		O    string   `json:"o"`
		P    string   `json:"p"`
		OK   bool     `json:"ok"`
		File string   `json:"file"`
	} `json:"runs"`
	Old     bool         `json:"old"`
	Files   []markerFile `json:"files"`
	Package bool         `json:"package"`
}

type markerFile struct {
	File   string   `json:"file"`
	Type   string   `json:"type"`
	Marker string   `json:"marker"`
	Embeds []string `json:"embeds"`
	Pkg    string   `json:"pkg"`
}

var older = "package older\n" + strings.Repeat("\n// something that was there before\nvar _ = 0\n", 40)

// dirContents are the files below a directory.
func dirContents(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		b, err := ioutil.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		m[rel] = string(b)
		return err
	})
	if err != nil {
		fatal("%v", err)
	}
	return m
}

func (c *command) genmark(dir string, env []string, args ...string) (e ending) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.exe, args...)
	cmd.Dir = dir
	cmd.Env = env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); cmd.ProcessState == nil {
		fatal("%s: %v", c.exe, err)
	}
	e.out, e.err, e.status = out.String(), errb.String(), cmd.ProcessState.ExitCode()
	e.timeout = ctx.Err() != nil
	return
}

// judgeMarker tells what is wrong with a file that is to define a marker.
func judgeMarker(f *markerFile, src string) string {
	if out, err := format.Source([]byte(src)); err != nil || string(out) != src {
		return fmt.Sprintf("the file is not formatted Go: %v", err)
	}
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, f.File, src, 0)
	if err != nil {
		return err.Error()
	}
	if a.Name.Name != f.Pkg {
		return "the package is " + a.Name.Name
	}
	// on its own the interfaces it embeds may be missing, and other types with the same name be elsewhere
	prelude := "package " + f.Pkg + "\n"
	for _, e := range f.Embeds {
		if e != f.Type {
			prelude += fmt.Sprintf("type %s interface { isA%s() }\n", e, e)
		}
	}
	b, err := parser.ParseFile(fset, "prelude.go", prelude, 0)
	if err != nil {
		fatal("%v", err)
	}
	cyclic := false
	for _, e := range f.Embeds {
		cyclic = cyclic || e == f.Type
	}
	pkg, err := (&types.Config{}).Check(f.Pkg, fset, []*ast.File{a, b}, nil)
	if err != nil {
		if cyclic {
			return ""
		}
		return "it does not compile: " + err.Error()
	}
	t, ok := pkg.Scope().Lookup(f.Type).(*types.TypeName)
	if !ok {
		return "there is no type " + f.Type
	}
	in, ok := t.Type().Underlying().(*types.Interface)
	if !ok {
		return f.Type + " is no interface"
	}
	if !t.Exported() {
		return f.Type + " is not exported"
	}
	var got []string
	for i := 0; i < in.NumEmbeddeds(); i++ {
		n, ok := in.EmbeddedType(i).(*types.Named)
		if !ok {
			return "an embedded type without a name"
		}
		got = append(got, n.Obj().Name())
	}
	want := append([]string{}, f.Embeds...)
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("%s embeds %v", f.Type, got)
	}
	if in.NumExplicitMethods() != 1 {
		return fmt.Sprintf("%s has %d methods", f.Type, in.NumExplicitMethods())
	}
	m := in.ExplicitMethod(0)
	sig := m.Type().(*types.Signature)
	if m.Exported() || sig.Params().Len() != 0 || sig.Results().Len() != 0 {
		return "the marker is " + m.String()
	}
	i, ok := pkg.Scope().Lookup(f.Marker).(*types.TypeName)
	if !ok {
		return "there is no type " + f.Marker
	}
	if st, ok := i.Type().Underlying().(*types.Struct); !ok || st.NumFields() != 0 {
		return f.Marker + " is no empty struct"
	}
	if types.NewMethodSet(i.Type()).Lookup(pkg, m.Name()) == nil {
		return f.Marker + " does not have the marker"
	}
	if n := types.NewMethodSet(types.NewPointer(i.Type())).Len(); n != 1 {
		return fmt.Sprintf("%s has %d methods", f.Marker, n)
	}
	for _, n := range pkg.Scope().Names() {
		if n != f.Type && n != f.Marker && !strings.Contains(prelude, "type "+n+" ") {
			return "it declares " + n + " too"
		}
	}
	// a struct with the marker is what a struct without it is not
	var fields []*types.Var
	for _, e := range f.Embeds {
		fields = append(fields, types.NewField(token.NoPos, pkg, e, pkg.Scope().Lookup(e).Type(), true))
	}
	if types.Implements(types.NewStruct(fields, nil), in) {
		return "a struct without the marker is a " + f.Type
	}
	fields = append(fields, types.NewField(token.NoPos, pkg, f.Marker, i.Type(), true))
	if !types.Implements(types.NewStruct(fields, nil), in) {
		return "a struct with the marker is no " + f.Type
	}
	return ""
}

// decls are the declarations of a file without comments, sorted.
func decls(src string) ([]string, error) {
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		return nil, err
	}
	ds := []string{"package " + a.Name.Name}
	for _, d := range a.Decls {
		var b bytes.Buffer
		if err := printer.Fprint(&b, token.NewFileSet(), d); err != nil {
			return nil, err
		}
		ds = append(ds, strings.Join(strings.Fields(b.String()), " "))
	}
	sort.Strings(ds)
	return ds, nil
}

func init() {
	// C24
	commands["genmark"] = func(r *Run) {
		var cs []genmarkCase
		readCases(r.In, func(b []byte) {
			var c genmarkCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal("%s: %v", b, err)
			}
			cs = append(cs, c)
		})
		sort.SliceStable(cs, func(i, j int) bool { return fmt.Sprint(cs[i]) < fmt.Sprint(cs[j]) })
		if len(cs) == 0 {
			fatal("no cases")
		}
		c := &command{exe: r.Args["exe"]}
		top, every := r.Args["dir"], r.arg("every", 1)
		var base []string
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GOPACKAGE=") {
				base = append(base, e)
			}
		}
		r.each(len(cs), func(i int, desc func(func() string)) {
			h := &cs[i]
			if len(h.Runs) > 1 && r.rng(i, 24).Intn(every) > 0 {
				return
			}
			how := fmt.Sprintf("older files=%v", h.Old)
			desc(func() string { return how })
			dir := filepath.Join(top, fmt.Sprint(i))
			for _, d := range []string{"sub", "taken_gen.go"} {
				if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
					fatal("%v", err)
				}
			}
			defer os.RemoveAll(dir)
			if h.Old {
				for _, f := range []string{"out_gen.go", "foo_gen.go"} {
					if err := ioutil.WriteFile(filepath.Join(dir, f), []byte(older), 0644); err != nil {
						fatal("%v", err)
					}
				}
			}
			before := dirContents(dir)
			for k := range h.Runs {
				u := &h.Runs[k]
				var args []string
				if u.T != "" {
					args = append(args, "-t", u.T)
				}
				if len(u.E) > 0 {
					args = append(args, "-e", strings.Join(u.E, ","))
				}
				if u.O != "" {
					args = append(args, "-o", u.O)
				}
				env := base
				switch u.P {
				case "flag":
					args = append(args, "-pkg", "p")
				case "both":
					args = append(args, "-pkg", "p")
					env = append(base[:len(base):len(base)], "GOPACKAGE=other")
				case "env":
					env = append(base[:len(base):len(base)], "GOPACKAGE=p")
				}
				how += fmt.Sprintf(" genmark %q package=%s", args, u.P)
				e := c.genmark(dir, env, args...)
				r.eval(1)
				after := dirContents(dir)
				fail := func(what string) {
					r.violate(Violation{Case: how, What: what, Expected: u, Got: map[string]interface{}{"status": e.status, "stderr": clip(e.err), "files": after}})
				}
				switch {
				case e.timeout:
					fail("it does not end")
					return
				case strings.Contains(e.err, "panic:") || e.status < 0:
					fail("it crashes")
					return
				case u.OK && e.status != 0:
					fail("it fails")
					return
				case !u.OK && e.status == 0:
					fail("it succeeds")
					return
				case !u.OK && strings.TrimSpace(e.err) == "":
					fail("it fails without a message")
					return
				}
				for f, s := range after {
					if f != u.File && before[f] != s {
						fail("it changes " + f)
						return
					}
				}
				for f := range before {
					if _, ok := after[f]; !ok {
						fail("it removes " + f)
						return
					}
				}
				if _, ok := after[u.File]; u.OK && !ok {
					fail("it does not write " + u.File)
					return
				}
				before = after
			}
			r.nontrivial(how)
			if i%(len(cs)/6+1) == 0 {
				r.sample(how)
			}
			// what there is in the end
			fset := token.NewFileSet()
			all := []*ast.File{}
			for k := range h.Files {
				f := &h.Files[k]
				src := before[f.File]
				if f.Type == "" {
					if src != older {
						r.violate(Violation{Case: how, What: f.File + " has changed", Got: src})
						return
					}
					continue
				}
				if what := judgeMarker(f, src); what != "" {
					r.violate(Violation{Case: how, What: f.File + ": " + what, Expected: f, Got: src})
					return
				}
				a, _ := parser.ParseFile(fset, f.File, src, 0)
				all = append(all, a)
			}
			if h.Package && len(all) > 0 {
				a, _ := parser.ParseFile(fset, "", "package p\ntype Node interface { isANode() }\ntype Stmt interface { isAStmt() }\n", 0)
				if _, err := (&types.Config{}).Check("p", fset, append(all, a), nil); err != nil {
					r.violate(Violation{Case: how, What: "the package does not compile: " + err.Error(), Got: before})
				}
			}
		})
		regenerate(r, c, base, r.Args["repo"], filepath.Join(top, "again"))
	}
}

// regenerate follows the directives of the repository.
func regenerate(r *Run, c *command, base []string, repo, dir string) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		fatal("%v", err)
	}
	pkg := filepath.Join(repo, "sqlast")
	made := map[string]bool{}
	for f, src := range dirContents(pkg) {
		if !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") {
			continue
		}
		for _, l := range strings.Split(src, "\n") {
			if !strings.HasPrefix(l, "//go:generate genmark ") {
				continue
			}
			args := strings.Fields(l)[2:]
			e := c.genmark(dir, append(base[:len(base):len(base)], "GOPACKAGE=sqlast"), args...)
			r.eval(1)
			how := "sqlast: genmark " + strings.Join(args, " ")
			if e.status != 0 {
				r.violate(Violation{Case: how, What: "the directive fails", Got: clip(e.err)})
			}
			for g := range dirContents(dir) {
				if made[g] {
					continue
				}
				made[g] = true
				r.nontrivial(how)
				b, _ := ioutil.ReadFile(filepath.Join(dir, g))
				old, err := ioutil.ReadFile(filepath.Join(pkg, g))
				if err != nil {
					r.violate(Violation{Case: how, What: "the package has no file " + g})
					continue
				}
				x, err := decls(string(b))
				y, err2 := decls(string(old))
				if err != nil || err2 != nil || fmt.Sprint(x) != fmt.Sprint(y) {
					r.violate(Violation{Case: how, What: g + " of the package is another one", Expected: x, Got: y})
				}
			}
		}
	}
	r.count("directives followed", len(made))
	if len(made) == 0 {
		fatal("no directives in %s", pkg)
	}
}
