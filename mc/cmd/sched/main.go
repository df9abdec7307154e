// Command sched explores the schedules of concurrent calls on the real engines (S07) and indexes (I08). It must be built
// by prepare-sched.sh to be instrumented.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/mc/eng"
	"verif/mc/rep"
	"verif/mc/sched"
)

// program is a small concurrent program.
type program struct {
	name    string
	bound   int
	maxRuns int
	// mk prepares a fresh execution
	mk func() ([]func(), func() string)
}

// outcome is what a worker reports about one program.
type outcome struct {
	I                                     int
	Runs, Steps, States, Extern, Diverged int
	Bound                                 int
	Capped                                bool
	Msg                                   string
	Schedule                              []int
	Trace                                 []string
	Observed                              int
	Seconds                               float64
}

// observed collects the different results seen by the executions of the running program.
var observed = map[uint64]struct{}{}

func explore(p *program) outcome {
	observed = map[uint64]struct{}{}
	t0 := time.Now()
	e := &sched.Explorer{Bound: p.bound, MaxRuns: p.maxRuns}
	if sched.Racing {
		// which accesses are unordered hardly depends on where the threads are preempted
		e.Bound, e.MaxRuns = 0, raceRuns()
		if msg, _ := e.Explore(p.mk); msg == "" {
			e.Bound = min(p.bound, 1)
		}
	}
	msg, schedule := e.Explore(p.mk)
	o := outcome{Runs: e.Runs, Steps: e.Steps, States: len(e.States), Extern: e.Extern, Diverged: e.Diverged, Bound: p.bound,
		Capped: e.Capped, Msg: msg, Schedule: schedule, Observed: len(observed), Seconds: time.Since(t0).Seconds()}
	if msg != "" && !strings.Contains(msg, "block forever") {
		// the same schedule again, with its trace
		n := 0
		for i := 0; i < 5; i++ {
			m, res := e.Once(p.mk, schedule, true)
			if m != "" {
				n++
				o.Trace = res.Trace
			}
			if strings.Contains(m, "block forever") {
				break
			}
		}
		o.Msg += fmt.Sprintf("\nthe schedule fails in %d of 5 replays", n)
	}
	return o
}

func raceRuns() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 5000
	}
	return 400
}

func worker(progs []*program) {
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var i int
		if _, err := fmt.Sscan(in.Text(), &i); err != nil {
			break
		}
		o := explore(progs[i])
		o.I = i
		out.Encode(o)
		if o.Msg != "" {
			// stores may be in any state now
			os.Exit(0)
		}
	}
	closeStores()
	eng.Cleanup()
	os.Exit(0)
}

func main() {
	id := os.Args[1]
	var progs []*program
	var r *rep.R
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	switch id {
	case "S07":
		progs = s07(thorough)
	case "I08":
		progs = i08(thorough)
	case "T05":
		if a := os.Getenv("VERIF_ALONE"); a != "" {
			i := 0
			fmt.Sscan(a, &i)
			alone(i)
		}
		progs = t05(thorough)
	default:
		fmt.Fprintln(os.Stderr, "unknown", id)
		os.Exit(2)
	}
	if os.Getenv("VERIF_WORKER") != "" {
		worker(progs)
	}
	rule := map[string]string{
		"S07": "programs of two and three threads of batches (sets, deletes, merges, refused merges), readers and compactions on colliding keys, on every engine; every schedule of the instrumented code up to the stated number of preemptions is executed and its call history, the readers' observations and the final contents are compared with every sequential order consistent with real time",
		"T05": "every two calls out of an alphabet of conversions, covers, bounds, parsers, cell helpers and debug requests that share their inputs, at the same time under every schedule of the instrumented code up to the stated number of preemptions, and every sequence of three of them up to the stated repetition; each answer is compared with the one the call gives in a process of its own, and is read again at the end; then the same programs under the data race detector",
		"I08": "programs of two and three threads indexing and querying through one shared index object (cover, point and time index, and pairs of them on one store); every schedule of the instrumented code up to the stated number of preemptions is executed and the results are compared with every sequential order consistent with real time",
	}[id]
	if id == "T05" {
		askAlone()
	}
	r = rep.New(id, "model_checking", rule)
	r.Assumptions = append(r.Assumptions, "scheduling points are the statements of /repo's packages and bolt's lock operations; goleveldb's and badger's own code runs between them as the Go runtime schedules it")
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	var mu sync.Mutex
	next := 0
	foreign, raceProgs, raceRun := 0, 0, 0
	var extern, diverged, capped, multi, doneProgs int
	bounds := map[string]int{}
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		for next < len(progs) {
			i := next
			next++
			if r.Stop() || r.Violations() >= 8 {
				return -1
			}
			if r.Case(progs[i].name) {
				return i
			}
		}
		return -1
	}
	pass := func(exe string, race bool) {
		next = 0
		var wg sync.WaitGroup
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var p *proc
				defer func() {
					if p != nil {
						p.stop()
					}
				}()
				for i := take(); i >= 0; i = take() {
					if p == nil {
						p = start(exe, id)
					}
					o, err := p.do(i)
					if err != nil {
						txt := p.crash()
						p = nil
						if race {
							switch w := racing(txt); {
							case w != "":
								r.Violate(progs[i].name, "%s: %s", progs[i].name, w)
							case strings.Contains(txt, "DATA RACE"):
								mu.Lock()
								foreign++
								mu.Unlock()
							default:
								fmt.Fprintf(os.Stderr, "worker: %v: %s\n", err, head(txt))
								os.Exit(2)
							}
							continue
						}
						if strings.Contains(txt, "github.com/akhenakh/oureadb") || strings.Contains(txt, "all goroutines are asleep") {
							r.Violate(progs[i].name, "%s: the process died: %s", progs[i].name, head(txt))
						} else {
							fmt.Fprintf(os.Stderr, "worker: %v: %s\n", err, head(txt))
							os.Exit(2)
						}
						continue
					}
					if race {
						r.Trans(o.Steps)
						mu.Lock()
						raceProgs++
						raceRun += o.Runs
						mu.Unlock()
					} else {
						r.Trace(o.Runs)
						r.Trans(o.Steps)
						r.AddStates(o.States)
					}
					if os.Getenv("VERIF_TIMES") != "" {
						fmt.Fprintf(os.Stderr, "%.2f %d %d %s\n", o.Seconds, o.Runs, o.Extern, progs[i].name)
					}
					if race && o.Msg == "" {
						continue
					}
					mu.Lock()
					doneProgs++
					extern += o.Extern
					diverged += o.Diverged
					if o.Capped {
						capped++
					}
					if o.Observed > 1 {
						multi++
					}
					bounds[fmt.Sprintf("programs_with_%d_preemptions", o.Bound)]++
					mu.Unlock()
					r.Sample(func() interface{} {
						return map[string]interface{}{"program": progs[i].name, "schedules": o.Runs, "preemption_bound": o.Bound, "distinct_outcomes": o.Observed, "scheduler_states": o.States}
					})
					if o.Msg != "" {
						r.Violate(progs[i].name, "%s: %s\nschedule (choices): %v\n%s", progs[i].name, o.Msg, o.Schedule, strings.Join(o.Trace, "\n"))
						p.stop()
						p = nil
					}
				}
			}()
		}
		wg.Wait()
	}
	pass(os.Args[0], false)
	if exe := os.Args[0] + "-race"; r.Violations() == 0 {
		if _, err := os.Stat(exe); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		pass(exe, true)
		r.Extra["race_detector_programs"] = raceProgs
		r.Extra["race_detector_schedules"] = raceRun
		r.Extra["race_detector_reports_inside_other_modules"] = foreign
	}
	r.Extra["programs"] = doneProgs
	r.Extra["schedules_with_a_thread_waiting_outside_the_scheduler"] = extern
	r.Extra["replay_prefixes_that_diverged"] = diverged
	r.Extra["programs_cut_at_the_schedule_limit"] = capped
	r.Extra["programs_with_several_outcomes"] = multi
	for k, v := range bounds {
		r.Extra[k] = v
	}
	if capped > 0 {
		r.NotExhaustive()
	}
	r.Finish()
}

func head(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// racing tells what two accesses of /repo's code are not ordered ("" if there are none in the report: a library's own
// business).
func racing(txt string) string {
	i := strings.Index(txt, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	txt = txt[i:]
	if j := strings.Index(txt, "\n=================="); j > 0 {
		txt = txt[:j]
	}
	// the innermost function of each access outside of the runtime and the standard library
	own := false
	for _, part := range strings.Split(txt, "\n\n") {
		if strings.HasPrefix(strings.TrimSpace(part), "Goroutine ") {
			continue
		}
		for _, l := range strings.Split(part, "\n") {
			if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
				continue
			}
			f := strings.TrimSpace(l)
			if k := strings.Index(f, "/"); k < 0 || !strings.Contains(f[:k], ".") {
				if !strings.HasPrefix(f, "verif/") && !strings.HasPrefix(f, "main.") {
					continue // runtime, standard library
				}
			}
			own = own || strings.HasPrefix(f, "github.com/akhenakh/oureadb/")
			break
		}
	}
	if !own {
		return ""
	}
	return "two calls touch the same memory without synchronisation\n" + head(txt)
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func start(exe, id string) *proc {
	cmd := exec.Command(exe, id)
	cmd.Env = append(os.Environ(), "VERIF_WORKER=1", "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=2", "GOGC=400", "GOMEMLIMIT=2500MiB")
	p := &proc{cmd: cmd, err: &bytes.Buffer{}}
	var err error
	if p.in, err = cmd.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	cmd.Stderr = p.err
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return p
}

func (p *proc) do(i int) (o outcome, err error) {
	fmt.Fprintln(p.in, i)
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return o, err
	}
	return o, json.Unmarshal(line, &o)
}

func (p *proc) crash() string {
	p.in.Close()
	p.cmd.Wait()
	return p.err.String()
}

func (p *proc) stop() {
	p.in.Close()
	done := make(chan struct{})
	go func() { p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		p.cmd.Process.Kill()
		<-done
	}
}

// --- histories ---

// call is one finished call of a history.
type call struct {
	name      string
	from, to  int64
	errored   bool
	mayFail   func(others []*call) bool // whether the error is allowed
	keys      map[string]bool           // keys it writes
	optional  bool                      // may or may not have taken effect
	apply     func(st map[string]string) map[string]string
	fits      func(st map[string]string) bool // whether the call may have run in st
	describes string
}

// linear looks for a sequential order of the calls, consistent with real time, in which every call fits and that ends in
// final.
func linear(calls []*call, init map[string]string, final func(map[string]string) bool) bool {
	used := make([]bool, len(calls))
	var rec func(st map[string]string, left int) bool
	rec = func(st map[string]string, left int) bool {
		if left == 0 {
			return final(st)
		}
		for i, c := range calls {
			if used[i] {
				continue
			}
			// no other pending call ended before c began
			ok := true
			for j, d := range calls {
				if j != i && !used[j] && d.to < c.from {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			if c.fits != nil && !c.fits(st) {
				continue
			}
			n := st
			if c.apply != nil {
				n = c.apply(st)
			}
			used[i] = true
			if rec(n, left-1) {
				used[i] = false
				return true
			}
			if c.optional && rec(st, left-1) {
				used[i] = false
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(init, len(calls))
}

func overlap(a, b *call) bool { return a.from < b.to && b.from < a.to }

func history(calls []*call) string {
	var b strings.Builder
	for _, c := range calls {
		fmt.Fprintf(&b, "\n  [%d,%d] %s %s", c.from, c.to, c.name, c.describes)
	}
	return b.String()
}
