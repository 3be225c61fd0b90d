// Command harness replays the behaviours generated from the TLA+ specifications in /verif/specs
// into the real xsqlparser packages and records traces of them for validation by TLC.
// It is built from /repo's working tree by /verif/checks/run.py.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is a concrete behaviour of the real code that contradicts the specification.
type Violation struct {
	Case     string      `json:"case"` // how to reproduce: the source text or script of the case
	What     string      `json:"what"`
	Expected interface{} `json:"expected,omitempty"`
	Got      interface{} `json:"got,omitempty"`
	Key      string      `json:"key,omitempty"` // identifies a known finding
}

type Result struct {
	Evaluations int                    `json:"evaluations"`
	Distinct    int                    `json:"distinct"`
	Counts      map[string]int         `json:"counts"`
	Samples     []string               `json:"samples"`
	Violations  []Violation            `json:"violations"`
	Total       int                    `json:"total_violations"`
	Extra       map[string]interface{} `json:"extra,omitempty"`
}

// Run is one execution of a harness command.
type Run struct {
	Prop  string
	Seed  int64
	Tier  string
	In    []string
	Out   string
	Trace string
	Args  map[string]string

	mu       sync.Mutex
	res      Result
	seen     map[uint64]struct{}
	traceBuf *bufio.Writer
	labels   *bufio.Writer // what the traces are of, line by line
	evals    int64
	progress []slot
	isolate  *os.File
	only     int
}

type slot struct {
	mu    sync.Mutex
	desc  func() string
	start time.Time
	idx   int
}

func (r *Run) eval(n int) { atomic.AddInt64(&r.evals, int64(n)) }

func (r *Run) count(k string, n int) {
	r.mu.Lock()
	r.res.Counts[k] += n
	r.mu.Unlock()
}

// nontrivial notes a distinct non-trivial case.
func (r *Run) nontrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	r.mu.Lock()
	r.seen[h.Sum64()] = struct{}{}
	r.mu.Unlock()
}

func (r *Run) sample(s string) {
	r.mu.Lock()
	if len(r.res.Samples) < 8 {
		r.res.Samples = append(r.res.Samples, s)
	}
	r.mu.Unlock()
}

func (r *Run) violate(v Violation) {
	r.mu.Lock()
	r.res.Total++
	if len(r.res.Violations) < 25 {
		r.res.Violations = append(r.res.Violations, v)
	}
	r.mu.Unlock()
}

func (r *Run) arg(name string, def int) int {
	if s, ok := r.Args[name]; ok {
		n, err := strconv.Atoi(s)
		if err != nil {
			fatal("argument %s=%s", name, s)
		}
		return n
	}
	return def
}

func (r *Run) finish() {
	r.res.Evaluations = int(atomic.LoadInt64(&r.evals))
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Distinct = len(r.seen)
	if r.traceBuf != nil {
		r.traceBuf.Flush()
		r.labels.Flush()
	}
	b, err := json.MarshalIndent(&r.res, "", " ")
	if err != nil {
		fatal("result: %v", err)
	}
	if err := ioutil.WriteFile(r.Out, b, 0644); err != nil {
		fatal("result: %v", err)
	}
}

var stderr = os.Stderr

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

// failFast: the first violation ends the run (campaigns of planted bugs)
var failFast = os.Getenv("VERIF_FAILFAST") == "1"

func (r *Run) failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.res.Total > 0
}

const caseTimeout = 20 * time.Second

// cases taking longer than VERIF_SLOW are named, to keep them away from the timeout
var slow, _ = time.ParseDuration(os.Getenv("VERIF_SLOW"))

const heapLimit = 10 << 30

// each runs f on every item with all cores. A case that panics outside of the guarded calls is an error of the
// harness; one that does not end in time, or makes the heap explode, is reported as a violation of the property. eachBy takes the number of workers; each item of one worker comes after the one before.
func (r *Run) each(n int, f func(i int, setDesc func(func() string))) {
	r.eachBy(runtime.NumCPU(), n, f)
}

// first goes through all items in order, whatever case is asked for: a preparation.
func (r *Run) first(n int, f func(i int, setDesc func(func() string))) {
	only := r.only
	r.only = -1
	r.eachBy(1, n, f)
	r.only = only
}

func (r *Run) eachBy(workers, n int, f func(i int, setDesc func(func() string))) {
	if r.isolate != nil {
		workers = 1
	}
	r.progress = make([]slot, workers)
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(s *slot) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || failFast && r.failed() {
					return
				}
				if r.only >= 0 && i != r.only {
					continue
				}
				s.mu.Lock()
				s.start, s.idx, s.desc = time.Now(), i, nil
				s.mu.Unlock()
				if r.isolate != nil {
					var b [8]byte
					binary.LittleEndian.PutUint64(b[:], uint64(i))
					r.isolate.WriteAt(b[:], 0)
				}
				f(i, func(d func() string) {
					s.mu.Lock()
					s.desc = d
					s.mu.Unlock()
				})
				if d := time.Since(s.start); slow > 0 && d > slow {
					fmt.Fprintf(stderr, "slow case %d: %v\n", i, d)
				}
				s.mu.Lock()
				s.start = time.Time{}
				s.mu.Unlock()
			}
		}(&r.progress[w])
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			over := ms.HeapAlloc > heapLimit
			oldest := time.Time{}
			var desc string
			var idx int
			for i := range r.progress {
				s := &r.progress[i]
				s.mu.Lock()
				if !s.start.IsZero() && (oldest.IsZero() || s.start.Before(oldest)) {
					oldest, idx = s.start, s.idx
					desc = ""
					if s.desc != nil {
						desc = s.desc()
					}
				}
				s.mu.Unlock()
			}
			if !oldest.IsZero() && (over || time.Since(oldest) > caseTimeout) {
				what := fmt.Sprintf("does not terminate (%v)", caseTimeout)
				if over {
					what = "exhausts the memory"
				}
				r.violate(Violation{Case: desc, What: fmt.Sprintf("%s [case %d]", what, idx)})
				r.finish()
				os.Exit(0)
			}
		}
	}
}

// guard calls f and returns the panic it raises, if any.
func guard(f func()) (p interface{}) {
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 14 {
				st = st[:14]
			}
			p = fmt.Sprintf("panic: %v\n%s", e, strings.Join(st, "\n"))
		}
	}()
	f()
	return nil
}

// readCases reads the JSON documents printed by TLC (quoted strings, one per line) or written as ndjson.
func readCases(files []string, each func(b []byte)) {
	for _, fn := range files {
		f, err := os.Open(fn)
		if err != nil {
			fatal("%v", err)
		}
		rd := bufio.NewReaderSize(f, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if len(line) > 0 {
				switch line[0] {
				case '"':
					var s string
					if e := json.Unmarshal(line, &s); e == nil {
						each([]byte(s))
					} else {
						fatal("bad case %q: %v", line, e)
					}
				case '{', '[':
					each(append([]byte(nil), line...))
				}
			}
			if err != nil {
				break
			}
		}
		f.Close()
	}
}

var commands = map[string]func(r *Run){}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness COMMAND [flags]")
	}
	cmd := commands[os.Args[1]]
	if cmd == nil {
		var names []string
		for k := range commands {
			names = append(names, k)
		}
		sort.Strings(names)
		fatal("unknown command %s (have %v)", os.Args[1], names)
	}
	r := &Run{seen: map[uint64]struct{}{}, Args: map[string]string{}, only: -1}
	r.res.Counts = map[string]int{}
	r.res.Violations = []Violation{}
	r.res.Samples = []string{}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	in := fs.String("in", "", "comma separated case files")
	iso := fs.String("isolate", "", "file noting the current case; one worker")
	var kv string
	fs.StringVar(&r.Out, "out", "", "result file")
	fs.StringVar(&r.Trace, "trace", "", "trace file")
	fs.StringVar(&r.Prop, "prop", "", "property")
	fs.StringVar(&r.Tier, "tier", "quick", "tier")
	fs.Int64Var(&r.Seed, "seed", 1, "seed")
	fs.IntVar(&r.only, "only", -1, "run this case only")
	fs.StringVar(&kv, "args", "", "k=v,...")
	fs.Parse(os.Args[2:])
	if *in != "" {
		r.In = strings.Split(*in, ",")
	}
	for _, p := range strings.Split(kv, ",") {
		if i := strings.Index(p, "="); i > 0 {
			r.Args[p[:i]] = p[i+1:]
		}
	}
	if r.Out == "" {
		fatal("-out is required")
	}
	if *iso != "" {
		f, err := os.Create(*iso)
		if err != nil {
			fatal("%v", err)
		}
		r.isolate = f
	}
	if r.Trace != "" {
		f, err := os.Create(r.Trace)
		if err != nil {
			fatal("%v", err)
		}
		r.traceBuf = bufio.NewWriterSize(f, 1<<20)
		if f, err = os.Create(r.Trace + ".labels"); err != nil {
			fatal("%v", err)
		}
		r.labels = bufio.NewWriterSize(f, 1<<20)
	}
	// the parser prints to stdout and to the standard logger when it fails, the scanner to stderr
	log.SetOutput(ioutil.Discard)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout, os.Stderr = null, null
	}
	debug.SetGCPercent(400)
	cmd(r)
	r.finish()
}
