package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser/sqlast"
)

// cliCase is an end of Cli.tla
type cliCase struct {
	Input    string `json:"input"`
	Delivery string `json:"delivery"`
	Kind     string `json:"kind"`
	Status   int    `json:"status"`
}

// firstCase is a behaviour of FirstRand.tla
type firstCase struct {
	T     []string `json:"t"`
	K     string   `json:"k"`
	First []struct {
		T      []string `json:"t"`
		Script bool     `json:"script"`
		First  bool     `json:"first"`
		Len    int      `json:"len"`
	} `json:"first"`
}

// slowly delivers a text in pieces, with or without pauses.
type slowly struct {
	pieces []string
	pause  time.Duration
}

func (s *slowly) Read(p []byte) (int, error) {
	if len(s.pieces) == 0 {
		return 0, io.EOF
	}
	if s.pause > 0 {
		time.Sleep(s.pause)
	}
	n := copy(p, s.pieces[0])
	s.pieces[0] = s.pieces[0][n:]
	if s.pieces[0] == "" {
		s.pieces = s.pieces[1:]
	}
	return n, nil
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var simpleWord = regexp.MustCompile("^[A-Za-z][A-Za-z0-9_]*$")

type command struct {
	exe, dir string
}

type ending struct {
	out, err string
	status   int
	timeout  bool
}

func (c *command) run(args []string, stdin io.Reader) (e ending) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.exe, args...)
	cmd.Dir = c.dir
	cmd.Stdin = stdin
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	e.out, e.err = out.String(), errb.String()
	switch x := err.(type) {
	case nil:
	case *exec.ExitError:
		e.status = x.ExitCode()
	default:
		if cmd.ProcessState == nil {
			fatal("%s: %v", c.exe, err)
		}
		// the command may end before it has read its input
		e.status = cmd.ProcessState.ExitCode()
	}
	e.timeout = ctx.Err() != nil
	return
}

func init() {
	// C22
	commands["cli"] = func(r *Run) {
		var ends []cliCase
		var firsts []firstCase
		var lex []lexCase
		readCases(r.In, func(b []byte) {
			var err error
			switch {
			case bytes.Contains(b, []byte(`"delivery":`)):
				var c cliCase
				err = json.Unmarshal(b, &c)
				ends = append(ends, c)
			case bytes.Contains(b, []byte(`"first":`)):
				var c firstCase
				err = json.Unmarshal(b, &c)
				firsts = append(firsts, c)
			case bytes.Contains(b, []byte(`"d":`)):
				var c lexCase
				err = json.Unmarshal(b, &c)
				if c.E && c.D == "generic" {
					lex = append(lex, c)
				}
			}
			if err != nil {
				fatal("%s: %v", b, err)
			}
		})
		sort.SliceStable(ends, func(i, j int) bool { return fmt.Sprint(ends[i]) < fmt.Sprint(ends[j]) })
		sort.SliceStable(firsts, func(i, j int) bool { return fmt.Sprint(firsts[i]) < fmt.Sprint(firsts[j]) })
		sort.SliceStable(lex, func(i, j int) bool { return string(lex[i].S) < string(lex[j].S) })
		// configurations by what they are; the undecided ones appear with both ends
		var confs []cliCase
		seen := map[cliCase]int{}
		for _, e := range ends {
			k := e
			k.Status = 0
			if i, ok := seen[k]; ok {
				if confs[i].Status != e.Status {
					confs[i].Status = -1
				}
				continue
			}
			seen[k] = len(confs)
			confs = append(confs, e)
		}
		if len(confs) == 0 || len(firsts) == 0 || len(lex) == 0 {
			fatal("no cases: %d %d %d", len(confs), len(firsts), len(lex))
		}
		dir := r.Args["dir"]
		if err := os.MkdirAll(filepath.Join(dir, "a directory"), 0755); err != nil {
			fatal("%v", err)
		}
		c := &command{exe: r.Args["exe"], dir: dir}
		// texts edited so that a statement begins them or not
		var rejected, cut, rubbish []([]string)
		for i := range firsts {
			for _, e := range firsts[i].First {
				switch {
				case len(e.T) == 0:
				case !e.First && len(e.T) < len(firsts[i].T) && strings.HasPrefix(strings.Join(firsts[i].T, " "), strings.Join(e.T, " ")):
					cut = append(cut, e.T)
				case !e.First && !e.Script:
					rejected = append(rejected, e.T)
				case e.First && !e.Script:
					rubbish = append(rubbish, e.T)
				}
			}
		}
		if len(rejected) == 0 || len(cut) == 0 || len(rubbish) == 0 {
			fatal("no edited texts: %d %d %d", len(rejected), len(cut), len(rubbish))
		}
		each := r.arg("each", 10)
		r.each(len(confs)*each, func(i int, desc func(func() string)) {
			conf := confs[i%len(confs)]
			rr := r.rng(i, 22)
			src := cliText(rr, conf.Kind, firsts, lex, rejected, cut, rubbish)
			how := fmt.Sprintf("input=%s delivery=%s kind=%s source=%q", conf.Input, conf.Delivery, conf.Kind, src)
			desc(func() string { return how })
			var args []string
			var stdin io.Reader
			name := fmt.Sprintf("in %d.sql", i)
			path := filepath.Join(dir, name)
			switch conf.Input {
			case "file", "file relative", "file after two dashes":
				if err := ioutil.WriteFile(path, []byte(src), 0644); err != nil {
					fatal("%v", err)
				}
				defer os.Remove(path)
			}
			switch conf.Input {
			case "stdin named":
				args = []string{"-f", "stdin"}
			case "file":
				args = []string{"-f", path}
			case "file relative":
				args = []string{"-f", name}
			case "file after two dashes":
				args = []string{"--f=" + path}
			case "missing file":
				args = []string{"-f", filepath.Join(dir, "no such file")}
			case "missing directory":
				args = []string{"-f", filepath.Join(dir, "no such directory", "x.sql")}
			case "directory":
				args = []string{"-f", filepath.Join(dir, "a directory")}
			case "empty name":
				args = []string{"-f", ""}
			}
			if conf.Input == "stdin" || conf.Input == "stdin named" {
				switch conf.Delivery {
				case "whole":
					stdin = strings.NewReader(src)
				case "lines":
					stdin = &slowly{pieces: nonempty(strings.SplitAfter(src, "\n"))}
				case "late":
					k := rr.Intn(len(src) + 1)
					stdin = &slowly{pieces: nonempty([]string{src[:k], src[k:]}), pause: 30 * time.Millisecond}
				case "redirected":
					if err := ioutil.WriteFile(path, []byte(src), 0644); err != nil {
						fatal("%v", err)
					}
					defer os.Remove(path)
					f, err := os.Open(path)
					if err != nil {
						fatal("%v", err)
					}
					defer f.Close()
					stdin = f
				default:
					fatal("delivery %s", conf.Delivery)
				}
			} else {
				// the standard input holds another statement, which is not to be read
				stdin = strings.NewReader("SELECT not_to_be_read")
			}
			e := c.run(args, stdin)
			r.eval(1)
			r.nontrivial(how)
			r.count("runs: "+conf.Kind, 1)
			if i%(len(confs)*each/6+1) == 0 {
				r.sample(how)
			}
			fail := func(what string) {
				r.violate(Violation{Case: how, What: what, Expected: conf.Status, Got: map[string]interface{}{
					"status": e.status, "stdout": clip(e.out), "stderr": clip(e.err)}})
			}
			want := conf.Status
			stmt, err, p := parseStatement(src, "generic")
			if want < 0 {
				want = 0
				if err != nil || p != nil {
					want = 1
				}
			}
			switch {
			case e.timeout:
				fail("it does not end")
			case strings.Contains(e.err, "panic:") || strings.Contains(e.err, "goroutine ") || e.status < 0:
				fail("it crashes")
			case want == 0 && e.status != 0:
				fail("the statement is valid, but the command fails")
			case want != 0 && e.status == 0:
				fail("the command succeeds without a statement")
			case want != 0:
				if strings.TrimSpace(e.err) == "" {
					fail("it fails without a message")
				}
			case err != nil || p != nil:
				fail(fmt.Sprintf("the parser does not accept the statement: %v %v", err, p))
			default:
				if what := printed(stmt, ansi.ReplaceAllString(e.out, ""), e.err); what != "" {
					fail(what)
				}
			}
		})
	}
}

func nonempty(ss []string) (out []string) {
	for _, s := range ss {
		if s != "" {
			out = append(out, s)
		}
	}
	return
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

// printed looks for the AST and the SQL in what the command has written.
func printed(stmt sqlast.Stmt, out, err string) (what string) {
	if p := guard(func() {
		sql := stmt.ToSQLString()
		if !strings.Contains(out, sql) && !strings.Contains(err, sql) {
			what = fmt.Sprintf("the SQL is not printed: %q", sql)
			return
		}
		sqlast.Inspect(stmt, func(n sqlast.Node) bool {
			if n == nil || what != "" {
				return false
			}
			t := reflect.TypeOf(n)
			for t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			if !strings.Contains(out, t.Name()) {
				what = "the AST is printed without its " + t.Name()
			}
			if id, ok := n.(*sqlast.Ident); ok && simpleWord.MatchString(id.Value) && !strings.Contains(out, id.Value) {
				what = "the AST is printed without the identifier " + id.Value
			}
			return true
		})
	}); p != nil {
		return fmt.Sprint(p)
	}
	return
}

// cliText is a text of the kind.
func cliText(rr *rand.Rand, kind string, firsts []firstCase, lex []lexCase, rejected, cut, rubbish [][]string) string {
	sp := randomSpelling(rr, "any")
	sp.Dialect = "generic"
	layout := pick(rr, []string{"comments", "plain", "spaces"})
	lay := func(toks []string) string { return render(rr, sp.spell(rr, toks), layout, "generic").Src }
	derived := func() []string { return firsts[rr.Intn(len(firsts))].T }
	broken := func() string { return string(lex[rr.Intn(len(lex))].S) }
	switch kind {
	case "statement":
		layout = pick(rr, []string{"tight", "plain", "spaces"})
		return lay(derived())
	case "statement and comments":
		layout = "comments"
		return lay(derived())
	case "statement and semicolon":
		return lay(append(append([]string{}, derived()...), ";"))
	case "several statements":
		s := lay(derived())
		for n := 1 + rr.Intn(3); n > 0; n-- {
			s += "\n;" + lay(derived())
		}
		return s
	case "long statement":
		toks := derived()
		k := 1 + rr.Intn(len(toks))
		ls := sp.spell(rr, toks)
		a, b := render(rr, ls[:k], layout, "generic").Src, ""
		if k < len(ls) {
			b = render(rr, ls[k:], layout, "generic").Src
		}
		pad := pick(rr, []string{" ", "\n", "-- a line of a comment\n", "/* a comment */"})
		return a + "\n" + strings.Repeat(pad, (4000+rr.Intn(80000))/len(pad)+1) + b
	case "statement and rubbish":
		return lay(rubbish[rr.Intn(len(rubbish))])
	case "semicolon and statement":
		return ";" + lay(derived())
	case "lexical error":
		return broken()
	case "statement and lexical error":
		return lay(derived()) + "\n" + pick(rr, []string{"", ";"}) + "\n" + broken()
	case "syntax error":
		return lay(rejected[rr.Intn(len(rejected))])
	case "truncated":
		return lay(cut[rr.Intn(len(cut))])
	case "nothing":
		return ""
	case "blanks":
		return strings.Repeat(pick(rr, spaces), 1+rr.Intn(5000))
	case "comments":
		return pick(rr, comments) + "\n" + pick(rr, comments)
	case "other statement":
		toks := append([]string{}, derived()...)
		toks[0] = pick(rr, []string{"id", "int", "str", "FROM", "VALUES", "(", "*", "TABLE", "SET", "id", "WHERE"})
		return lay(toks)
	}
	fatal("kind %s", kind)
	return ""
}
