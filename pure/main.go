// Command pure decides the properties of the side-effect free parts of the
// library by enumerating their input space within stated bounds and comparing
// each result with an independent reference (package ref).
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// space is one enumerated family of inputs: case i of n.
type space struct {
	name string
	n    int
	f    func(c *ctx, i int)
}

type ctx struct {
	thorough bool
	in       []byte // the input under test, for reports
	what     string
}

type failure struct{ msg string }

func (c *ctx) fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

type check struct {
	prop   string
	spaces func(thorough bool) []space
}

var checks []check

type spaceStat struct {
	Name   string `json:"space"`
	Cases  int64  `json:"cases"`
	Evals  int64  `json:"evaluations"`
	Done   bool   `json:"complete"`
	Sample string `json:"-"`
}

var evals int64

var sampleMu sync.Mutex
var samplesOf = map[string]string{}

func ev(n int) { atomic.AddInt64(&evals, int64(n)) }

func main() {
	var prop, tier, evidence, replays string
	var seconds float64
	flag.StringVar(&prop, "prop", "", "")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.StringVar(&evidence, "evidence", "", "")
	flag.StringVar(&replays, "replays", "", "")
	flag.Float64Var(&seconds, "seconds", 60, "")
	flag.Parse()
	thorough := tier == "thorough"
	start := time.Now()
	deadline := start.Add(time.Duration(seconds * float64(time.Second)))
	var sps []space
	for _, c := range checks {
		if c.prop == prop {
			sps = append(sps, c.spaces(thorough)...)
		}
	}
	if len(sps) == 0 {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		os.Exit(2)
	}
	var stats []*spaceStat
	complete := true
	var viol *report
	for _, s := range sps {
		st := &spaceStat{Name: s.name}
		before := atomic.LoadInt64(&evals)
		st.Cases, st.Done, viol = run(s, thorough, deadline)
		st.Evals = atomic.LoadInt64(&evals) - before
		st.Sample = samplesOf[s.name]
		stats = append(stats, st)
		fmt.Printf("%s %-60s %10d cases %12d evaluations complete=%v\n", prop, s.name, st.Cases, st.Evals, st.Done)
		if !st.Done {
			complete = false
		}
		if viol != nil {
			break
		}
	}
	var cases, total int64
	var samples []any
	for _, s := range stats {
		cases += s.Cases
		total += s.Evals
		samples = append(samples, s.Name+": "+s.Sample)
	}
	code := 0
	var violations []any
	if viol != nil {
		os.MkdirAll(replays, 0o755)
		name := filepath.Join(replays, prop+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "space": viol.space, "case": viol.i, "message": viol.msg, "input_hex": hex.EncodeToString(viol.in), "what": viol.what}, "", " ")
		os.WriteFile(name, b, 0o644)
		fmt.Printf("\n%s, case %d: %s %s\ninput: %s\n", viol.space, viol.i, viol.what, viol.msg, clipHex(viol.in))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
		violations = append(violations, map[string]any{"message": viol.msg, "replay": name})
		code = 1
	}
	if evidence != "" {
		b, _ := json.MarshalIndent(map[string]any{"executions": total, "transitions": total, "states": cases, "outcomes": 0, "spaces": stats,
			"samples": samples, "complete": complete && viol == nil, "seconds": time.Since(start).Seconds(), "violations": violations}, "", " ")
		if err := os.WriteFile(evidence, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	os.Exit(code)
}

func clipHex(b []byte) string {
	s := hex.EncodeToString(b)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

type report struct {
	space, msg, what string
	i                int
	in               []byte
}

func run(s space, thorough bool, deadline time.Time) (int64, bool, *report) {
	var next, done int64
	var mu sync.Mutex
	var viol *report
	var stop atomic.Bool
	workers := runtime.NumCPU()
	chunk := int64(s.n/(workers*16) + 1)
	if chunk > 256 {
		chunk = 256
	}
	var wg sync.WaitGroup
	started := make([]atomic.Int64, workers)
	cur := make([]atomic.Int64, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !stop.Load() {
				lo := atomic.AddInt64(&next, chunk) - chunk
				if lo >= int64(s.n) {
					return
				}
				hi := min(lo+chunk, int64(s.n))
				for i := lo; i < hi && !stop.Load(); i++ {
					started[w].Store(time.Now().UnixNano())
					cur[w].Store(i)
					r := one(s, int(i), thorough)
					started[w].Store(0)
					atomic.AddInt64(&done, 1)
					if r != nil {
						mu.Lock()
						if viol == nil || r.i < viol.i {
							viol = r
						}
						mu.Unlock()
						stop.Store(true)
					}
				}
				if time.Now().After(deadline) {
					stop.Store(true)
				}
			}
		}(w)
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	for {
		select {
		case <-fin:
			return done, done == int64(s.n), viol
		case <-time.After(time.Second):
			for w := range started {
				if t := started[w].Load(); t != 0 && time.Since(time.Unix(0, t)) > 100*time.Second {
					return done, false, &report{space: s.name, i: int(cur[w].Load()), msg: "does not terminate (100 s)"}
				}
			}
		}
	}
}

func one(s space, i int, thorough bool) (r *report) {
	c := &ctx{thorough: thorough}
	defer func() {
		if x := recover(); x != nil {
			f, ok := x.(failure)
			msg := f.msg
			if !ok {
				msg = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
			}
			r = &report{s.name, msg, c.what, i, c.in}
		}
	}()
	s.f(c, i)
	if i == s.n/2 {
		sampleMu.Lock()
		samplesOf[s.name] = fmt.Sprintf("case %d of %d held; last input %s %s", i, s.n, c.what, clipHex(c.in))
		sampleMu.Unlock()
	}
	return nil
}
