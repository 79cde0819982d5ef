// Command zz_verif explores the executions of the library under the virtual
// runtime and checks the properties on each of them.
//
//	zz_verif -prop C10 -tier quick -seconds 60 -evidence FILE -replays DIR
//	zz_verif -replay FILE
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// Scenario is one family of executions: a driver whose free choices enumerate
// inputs, run under every schedule with up to a number of deviations from a
// default schedule.
type Scenario struct {
	Prop, Name string
	What       string // what it enumerates, for the evidence
	// D is the largest number of deviations in the quick and the thorough tier
	// (-1: not run in that tier).
	D        [2]int
	Early    bool  // timers may fire while goroutines can run
	Policies []int // default schedules; nil means all three
	MaxSteps int
	// NoStarve leaves out the default schedules that starve one goroutine; they
	// are otherwise run with up to Starve[tier] deviations.
	NoStarve bool
	Starve   [2]int
	// StarveMax: how many goroutines take turns (default 7); with Linger each is
	// left waiting for that long of virtual time while timers fire.
	StarveMax int
	Linger    time.Duration
	// Prune cuts off executions that reach a known happens-before state already
	// with 2 deviations; it is always done with 3.  That is sound only if there
	// are no data races (C22) and may lose executions whose remaining deviations
	// would have to fall between the same two operations.
	Prune bool
	// Restarted: objects have been started and stopped (or failed to start) before.
	Restarted, NoRestart bool
	NoLinger             bool
	// Loud: everything is logged.
	Loud bool
	Run  func()
}

var scenarios []*Scenario

func scn(s *Scenario) { scenarios = append(scenarios, s) }

// Job is a subtree of the executions of a scenario.
type Job struct {
	Scn     int
	Pol     int
	D       int
	Len     int      // length of the prefix of choices
	Dev     [][2]int // its non-zero entries
	Replay  bool
	NoTrace bool
}

func (j *Job) prefix() []int {
	p := make([]int, j.Len)
	for _, d := range j.Dev {
		p[d[0]] = d[1]
	}
	return p
}

func sparse(p []int) (r [][2]int) {
	for i, x := range p {
		if x != 0 {
			r = append(r, [2]int{i, x})
		}
	}
	return
}

// Viol describes a violating execution.
type Viol struct {
	Job     Job
	Message string
	Picks   []int
	Trace   []string `json:",omitempty"`
}

// Res is the result of a job.
type Res struct {
	Execs, Pruned  int
	Steps          int64
	States         int // new entries of the worker's state table
	Outcomes       []uint64
	Rest           []Job
	Viol           *Viol
	Diverged       int
	MaxSteps       int
	Sample         string
	DivMsg         string
	Trace          []string
	MaxDepth       int
	VirtualSeconds float64
}

func optsOf(s *Scenario, j *Job) vrt.Options {
	ms := s.MaxSteps
	if ms == 0 {
		ms = 100000
	}
	return vrt.Options{Prefix: j.prefix(), Budget: j.D, MaxSteps: ms, EarlyTime: s.Early, Linger: s.Linger, Policy: j.Pol}
}

func runOne(s *Scenario, o vrt.Options) vrt.Result {
	// (written only when they change: the race detector is watching)
	if restarted != s.Restarted || lProp != s.Prop || loudly != s.Loud {
		restarted, lProp, loudly = s.Restarted, s.Prop, s.Loud
	}
	return vrt.Run(o, s.Run)
}

func verdict(r *vrt.Result) string {
	if r.Diverged != "" {
		return ""
	}
	if r.Raced > 0 {
		return "data race reported by the race detector"
	}
	return r.Violation
}

var (
	watch      sync.Mutex
	watchStart time.Time
	watchJob   Job
)

func worker(limit time.Duration) {
	runtime.GOMAXPROCS(2)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	dec := json.NewDecoder(in)
	go func() {
		for {
			time.Sleep(time.Second)
			watch.Lock()
			if !watchStart.IsZero() && time.Since(watchStart) > limit {
				v := &Viol{Job: watchJob, Message: fmt.Sprintf("the execution does not come to an end (%v of real time without result): endless loop", limit), Picks: watchJob.prefix()}
				enc.Encode(Res{Viol: v})
				out.Flush()
				os.Exit(0)
			}
			watch.Unlock()
		}
	}()
	var table *vrt.Table
	var tableFor [3]int
	for {
		var j Job
		if err := dec.Decode(&j); err != nil {
			return
		}
		s := scenarios[j.Scn]
		if j.Replay {
			o := optsOf(s, &j)
			o.Trace = !j.NoTrace
			watch.Lock()
			watchStart, watchJob = time.Now(), j
			watch.Unlock()
			r := runOne(s, o)
			watch.Lock()
			watchStart = time.Time{}
			watch.Unlock()
			res := Res{Execs: 1, Trace: r.Trace}
			if m := verdict(&r); m != "" {
				res.Viol = &Viol{Job: j, Message: m, Picks: o.Prefix, Trace: r.Trace}
			} else if r.Diverged != "" {
				res.Diverged, res.DivMsg = 1, r.Diverged
			}
			enc.Encode(res)
			out.Flush()
			continue
		}
		key := [3]int{j.Scn, j.Pol, j.D}
		if table == nil {
			table = vrt.NewTable(22)
		} else if tableFor != key {
			table.Reset()
		}
		tableFor = key
		res := explore(s, j, table)
		if err := enc.Encode(res); err != nil {
			return
		}
		out.Flush()
		if res.Viol != nil && strings.HasPrefix(res.Viol.Message, "data race") {
			return // the race detector reports a race once per process
		}
	}
}

// sampleOf writes an execution out: the free choices made, where it deviated from
// the default schedule, and how it went.
func sampleOf(r *vrt.Result) string {
	var free, dev []string
	for i, c := range r.Choices {
		if c.Cost == 0 {
			free = append(free, fmt.Sprintf("%s=%d/%d", c.Kind, c.Pick, c.N))
		} else if c.Pick != 0 {
			dev = append(dev, fmt.Sprintf("at %d: %d of %d", i, c.Pick, c.N))
		}
	}
	return fmt.Sprintf("choices [%s], deviations [%s], %d decisions, %d steps, %d context switches, %v of virtual time, outcome %016x", strings.Join(free, " "), strings.Join(dev, ", "), len(r.Choices), r.Steps, r.Switches, r.Virtual, r.Outcome)
}

func explore(s *Scenario, j Job, table *vrt.Table) (res Res) {
	start := time.Now()
	before := table.Len()
	outs := map[uint64]bool{}
	stack := [][]int{j.prefix()}
	for len(stack) > 0 {
		if res.Execs > 0 && time.Since(start) > 700*time.Millisecond {
			break
		}
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		o := optsOf(s, &j)
		o.Prefix = p
		o.Visited = table
		o.Prune = j.D >= 3 || j.D == 2 && s.Prune
		o.Salt = uint64(j.Scn)<<8 + uint64(j.Pol)
		watch.Lock()
		watchStart = time.Now()
		watchJob = Job{Scn: j.Scn, Pol: j.Pol, D: j.D, Len: len(p), Dev: sparse(p)}
		watch.Unlock()
		r := runOne(s, o)
		watch.Lock()
		watchStart = time.Time{}
		watch.Unlock()
		res.Execs++
		res.Steps += int64(r.Steps)
		if r.Steps > res.MaxSteps {
			res.MaxSteps = r.Steps
		}
		if len(r.Choices) > res.MaxDepth {
			res.MaxDepth = len(r.Choices)
		}
		res.VirtualSeconds += r.Virtual.Seconds()
		if r.Diverged != "" {
			res.Diverged++
			res.DivMsg = r.Diverged
			continue
		}
		if r.Pruned {
			res.Pruned++
		} else if len(outs) < 5000 {
			outs[r.Outcome] = true
		}
		if m := verdict(&r); m != "" {
			picks := make([]int, len(r.Choices))
			for i, c := range r.Choices {
				picks[i] = c.Pick
			}
			vj := Job{Scn: j.Scn, Pol: j.Pol, D: j.D, Len: len(picks), Dev: sparse(picks)}
			res.Viol = &Viol{Job: vj, Message: m, Picks: picks}
			break
		}
		// push the alternatives of the new choices
		used := 0
		for i, c := range r.Choices {
			if i < len(p) {
				if c.Pick != 0 {
					used += c.Cost
				}
				continue
			}
			if c.Cost > 0 && used+c.Cost > j.D {
				continue
			}
			for a := c.N - 1; a >= 1; a-- {
				q := make([]int, i+1)
				for k := 0; k < i; k++ {
					q[k] = r.Choices[k].Pick
				}
				q[i] = a
				stack = append(stack, q)
			}
		}
		if (res.Sample == "" || res.Execs == 50) && !r.Pruned {
			res.Sample = sampleOf(&r)
		}
	}
	for _, p := range stack {
		res.Rest = append(res.Rest, Job{Scn: j.Scn, Pol: j.Pol, D: j.D, Len: len(p), Dev: sparse(p)})
	}
	res.States = table.Len() - before
	for o := range outs {
		res.Outcomes = append(res.Outcomes, o)
	}
	return
}

// proc is a worker process.
type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

func startProc(limit time.Duration) (*proc, error) {
	cmd := exec.Command(os.Args[0], "-worker", "-limit", limit.String())
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog, "GOGC=400")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, json.NewEncoder(in), json.NewDecoder(bufio.NewReaderSize(o, 1<<20))}, nil
}

func (p *proc) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

var raceLog string

type stat struct {
	Name     string `json:"scenario"`
	What     string `json:"enumerates"`
	Bound    int    `json:"deviations_completed"`
	Want     int    `json:"deviations_wanted"`
	Execs    int    `json:"executions"`
	Pruned   int    `json:"pruned"`
	Steps    int64  `json:"transitions"`
	States   int    `json:"states"`
	Outcomes int    `json:"distinct_outcomes"`
	MaxSteps int    `json:"longest_execution_steps"`
	Depth    int    `json:"deepest_choice_sequence"`
	Diverged int    `json:"diverged"`
	outs     map[uint64]bool
	Virtual  float64  `json:"virtual_seconds"`
	Samples  []string `json:"-"`
}

func main() {
	var (
		prop, tier, evidence, replays, replay, only string
		isWorker, list                              bool
		seconds                                     float64
		workers                                     int
		limit                                       time.Duration
	)
	flag.StringVar(&prop, "prop", "", "")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.StringVar(&evidence, "evidence", "", "")
	flag.StringVar(&replays, "replays", "", "")
	flag.StringVar(&replay, "replay", "", "")
	flag.StringVar(&only, "only", "", "scenario name")
	flag.BoolVar(&isWorker, "worker", false, "")
	flag.BoolVar(&list, "list", false, "")
	flag.Float64Var(&seconds, "seconds", 60, "")
	flag.IntVar(&workers, "workers", runtime.NumCPU(), "")
	flag.DurationVar(&limit, "limit", 60*time.Second, "")
	flag.StringVar(&raceLog, "racelog", "stderr", "")
	flag.Parse()
	registerAll()
	if isWorker {
		worker(limit)
		return
	}
	if replay != "" {
		os.Exit(doReplay(replay))
	}
	if list {
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name, s.D, s.What)
		}
		return
	}
	ti := 0
	if tier == "thorough" {
		ti = 1
	}
	os.Exit(master(prop, only, tier, ti, time.Duration(seconds*float64(time.Second)), workers, evidence, replays))
}

func policies(s *Scenario, ti, d int) []int {
	ps := []int{vrt.OldestFirst, vrt.RoundRobin, vrt.NewestFirst}
	if s.Policies != nil {
		ps = s.Policies
	}
	if s.NoStarve || s.Starve[ti] < d {
		return ps
	}
	ps = ps[:len(ps):len(ps)]
	m := 7
	if s.StarveMax > 0 {
		m = s.StarveMax
	}
	for k := 0; k < m; k++ {
		ps = append(ps, vrt.Starve(vrt.OldestFirst, k), vrt.Starve(vrt.RoundRobin, k))
	}
	for _, k := range []int{4, 6} {
		ps = append(ps, vrt.Starve(vrt.OldestFirst, vrt.StarveFrom+k), vrt.Starve(vrt.RoundRobin, vrt.StarveFrom+k))
	}
	return ps
}

func master(prop, only, tier string, ti int, budget time.Duration, workers int, evidence, replays string) int {
	start := time.Now()
	deadline := start.Add(budget)
	var mine []int
	stats := map[int]*stat{}
	maxD := 0
	for i, s := range scenarios {
		if s.Prop != prop || s.D[ti] < 0 || (only != "" && s.Name != only) {
			continue
		}
		mine = append(mine, i)
		stats[i] = &stat{Name: s.Name, What: s.What, Bound: -1, Want: s.D[ti], outs: map[uint64]bool{}}
		if s.D[ti] > maxD {
			maxD = s.D[ti]
		}
	}
	if len(mine) == 0 {
		fmt.Fprintf(os.Stderr, "no scenario for %s\n", prop)
		return 2
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []Job
	busy := 0
	stop := false
	var viol *Viol
	unconfirmed := []string{}
	pending := map[[2]int]int{} // scenario, D -> jobs not finished
	var wg sync.WaitGroup
	failed := ""
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.close()
				}
			}()
			crashes := 0
			for {
				mu.Lock()
				for len(queue) == 0 && !stop {
					cond.Wait()
				}
				if stop {
					mu.Unlock()
					return
				}
				j := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				busy++
				mu.Unlock()
				var res Res
				var err error
				if p == nil {
					p, err = startProc(60 * time.Second)
				}
				if err == nil {
					if err = p.enc.Encode(&j); err == nil {
						err = p.dec.Decode(&res)
					}
				}
				mu.Lock()
				busy--
				if err != nil {
					if p != nil {
						p.close()
						p = nil
					}
					crashes++
					if !stop {
						if crashes < 5 {
							queue = append(queue, j)
						} else {
							failed = fmt.Sprintf("worker: %v", err)
							stop = true
						}
					}
					cond.Broadcast()
					mu.Unlock()
					continue
				}
				st := stats[j.Scn]
				k := [2]int{j.Scn, j.D}
				pending[k]--
				st.Execs += res.Execs
				st.Pruned += res.Pruned
				st.Steps += res.Steps
				st.States += res.States
				st.Virtual += res.VirtualSeconds
				st.Diverged += res.Diverged
				if res.MaxSteps > st.MaxSteps {
					st.MaxSteps = res.MaxSteps
				}
				if res.MaxDepth > st.Depth {
					st.Depth = res.MaxDepth
				}
				if res.Sample != "" && (len(st.Samples) < 2 || len(st.Samples) < 4 && strings.Contains(res.Sample, " of ")) {
					st.Samples = append(st.Samples, res.Sample)
				}
				for _, o := range res.Outcomes {
					if len(st.outs) < 1000000 {
						st.outs[o] = true
					}
				}
				if res.Viol != nil && viol == nil {
					v := res.Viol
					mu.Unlock()
					ok, tr, msg := confirm(v)
					if strings.HasPrefix(v.Message, "data race") || !ok {
						p.close()
						p = nil
					}
					mu.Lock()
					if ok {
						v.Trace = tr
						v.Message = msg
						if viol == nil {
							viol = v
						}
						stop = true
					} else if strings.HasPrefix(v.Message, "data race") && len(unconfirmed) >= 3 {
						// each report is a proof by itself
						if viol == nil {
							viol = v
						}
						stop = true
					} else {
						unconfirmed = append(unconfirmed, scenarios[v.Job.Scn].Name+": "+firstLine(v.Message))
						if len(unconfirmed) > 20 {
							failed = "too many violations that do not reproduce: " + unconfirmed[0]
							stop = true
						}
					}
				}
				if !stop {
					queue = append(queue, res.Rest...)
					pending[k] += len(res.Rest)
				}
				if time.Now().After(deadline) {
					stop = true
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	complete := true
	for d := 0; d <= maxD; d++ {
		mu.Lock()
		for _, i := range mine {
			if scenarios[i].D[ti] < d {
				continue
			}
			for _, pol := range policies(scenarios[i], ti, d) {
				queue = append(queue, Job{Scn: i, Pol: pol, D: d})
				pending[[2]int{i, d}]++
			}
		}
		cond.Broadcast()
		for (len(queue) > 0 || busy > 0) && !stop {
			cond.Wait()
		}
		for _, i := range mine {
			if scenarios[i].D[ti] >= d && pending[[2]int{i, d}] == 0 && viol == nil {
				if stats[i].Bound == d-1 {
					stats[i].Bound = d
				}
			}
		}
		st := stop
		mu.Unlock()
		if st {
			complete = false
			break
		}
	}
	mu.Lock()
	stop = true
	cond.Broadcast()
	mu.Unlock()
	wg.Wait()
	if failed != "" {
		fmt.Fprintln(os.Stderr, "internal error:", failed)
	}
	// report
	tot := stat{}
	var list []*stat
	div := 0
	var samples []any
	minBound := 99
	for _, i := range mine {
		s := stats[i]
		s.Outcomes = len(s.outs)
		tot.Execs += s.Execs
		tot.Steps += s.Steps
		tot.States += s.States
		tot.Outcomes += s.Outcomes
		div += s.Diverged
		list = append(list, s)
		if s.Bound < s.Want {
			complete = false
		}
		if s.Bound < minBound {
			minBound = s.Bound
		}
		for k, x := range s.Samples {
			if k < 3 {
				samples = append(samples, s.Name+": "+x)
			}
		}
		fmt.Printf("%s %-34s bound %d/%d  %8d executions %10d transitions %9d states %7d outcomes depth %d\n", prop, s.Name, s.Bound, s.Want, s.Execs, s.Steps, s.States, s.Outcomes, s.Depth)
	}
	for _, u := range unconfirmed {
		fmt.Println("not reproducible, ignored:", u)
	}
	if div > 0 {
		fmt.Printf("%d executions did not follow their prefix (nondeterminism outside the scheduler)\n", div)
	}
	code := 0
	var violations []any
	if viol != nil {
		name := filepath.Join(replays, prop+".json")
		os.MkdirAll(replays, 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "scenario": scenarios[viol.Job.Scn].Name, "job": viol.Job, "message": viol.Message, "trace": viol.Trace}, "", " ")
		os.WriteFile(name, b, 0o644)
		fmt.Printf("\n%s\n\nscenario %s, policy %d, %d deviations: %v\n", viol.Message, scenarios[viol.Job.Scn].Name, viol.Job.Pol, viol.Job.D, viol.Job.Dev)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
		violations = append(violations, map[string]any{"message": viol.Message, "replay": name})
		code = 1
	} else if failed != "" {
		code = 2
	}
	if evidence != "" {
		sort.Slice(list, func(a, b int) bool { return list[a].Name < list[b].Name })
		b, _ := json.MarshalIndent(map[string]any{
			"executions": tot.Execs, "transitions": tot.Steps, "states": tot.States, "outcomes": tot.Outcomes,
			"scenarios": list, "samples": samples, "complete": complete, "min_bound": minBound,
			"seconds": time.Since(start).Seconds(), "violations": violations, "diverged": div, "unconfirmed": unconfirmed,
		}, "", " ")
		if err := os.WriteFile(evidence, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// confirm runs a violating execution again in fresh processes.
func confirm(v *Viol) (bool, []string, string) {
	tries := 3
	if strings.HasPrefix(v.Message, "data race") {
		// pools of the standard library order goroutines at random
		tries = 12
	}
	var trace []string
	for try := 0; try < tries; try++ {
		p, err := startProc(120 * time.Second)
		if err != nil {
			return false, nil, ""
		}
		j := v.Job
		j.Replay = true
		j.NoTrace = tries > 3 && try > 0
		var res Res
		if err = p.enc.Encode(&j); err == nil {
			err = p.dec.Decode(&res)
		}
		p.close()
		if err == nil {
			if res.Trace != nil {
				trace = res.Trace
			}
			if res.Viol != nil {
				return true, trace, res.Viol.Message
			}
		}
	}
	return false, nil, ""
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Scenario string
		Job      Job
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i, s := range scenarios {
		if s.Name == r.Scenario {
			r.Job.Scn = i
			o := optsOf(s, &r.Job)
			o.Trace = true
			res := runOne(s, o)
			for _, l := range res.Trace {
				fmt.Println(l)
			}
			if m := verdict(&res); m != "" {
				fmt.Println("VIOLATION:", m)
				return 1
			}
			fmt.Println("no violation", res.Diverged)
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "unknown scenario", r.Scenario)
	return 2
}
