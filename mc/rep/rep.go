// Package rep collects what a check covered, reports violations and writes the evidence file.
package rep

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// R is the report of one check run.
type R struct {
	ID, Level, Rule string
	Assumptions     []string
	Extra           map[string]interface{}

	start    time.Time
	deadline time.Time
	cut      int32 // set when the deadline stopped the enumeration

	transitions, traces, evals, moreStates int64

	mu       sync.Mutex
	states   map[uint64]struct{}
	samples  []interface{}
	seen     int
	viol     []violation
	known    map[string]string
	knownHit map[string]bool
	only     string
}

type violation struct{ key, text string }

// Root is /verif.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// New starts the report of check id.
func New(id, level, rule string) *R {
	r := &R{ID: id, Level: level, Rule: rule, start: time.Now(), states: map[uint64]struct{}{},
		Extra: map[string]interface{}{}, known: map[string]string{}, knownHit: map[string]bool{}, only: os.Getenv("VERIF_ONLY")}
	limit := 420 * time.Second
	if r.Thorough() {
		limit = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_LIMIT_S")); err == nil {
		limit = time.Duration(v) * time.Second
	}
	r.deadline = r.start.Add(limit)
	f, err := os.Open(filepath.Join(Root(), "known_findings.txt"))
	if err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			// known: property=<id> key=<key without blanks> <text>
			p := strings.SplitN(sc.Text(), " ", 4)
			if len(p) == 4 && p[0] == "known:" && p[1] == "property="+id && strings.HasPrefix(p[2], "key=") {
				r.known[p[2][4:]] = p[3]
			}
		}
		f.Close()
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	return r
}

// Thorough tells whether this is the thorough tier.
func (r *R) Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *R) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Stop tells that exploration should end: enough violations, or out of time.
func (r *R) Stop() bool {
	if time.Now().After(r.deadline) {
		atomic.StoreInt32(&r.cut, 1)
		return true
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) >= 5
}

// Case tells whether the case named key is to be run (VERIF_ONLY replays a single one).
func (r *R) Case(key string) bool { return r.only == "" || r.only == key }

// Hash of a string.
func Hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// State records a distinct state (or distinct non-trivial case).
func (r *R) State(s string) {
	h := Hash(s)
	r.mu.Lock()
	r.states[h] = struct{}{}
	r.mu.Unlock()
}

// States merges a set of state hashes.
func (r *R) States(m map[uint64]struct{}) {
	r.mu.Lock()
	for h := range m {
		r.states[h] = struct{}{}
	}
	r.mu.Unlock()
}

// AddStates counts states told apart elsewhere.
func (r *R) AddStates(n int) { atomic.AddInt64(&r.moreStates, int64(n)) }

// NotExhaustive notes that a limit other than the deadline cut the enumeration.
func (r *R) NotExhaustive() { atomic.StoreInt32(&r.cut, 1) }

// Trans counts transitions taken on the implementation (each compared with the model).
func (r *R) Trans(n int) { atomic.AddInt64(&r.transitions, int64(n)) }

// Trace counts complete traces run on the implementation.
func (r *R) Trace(n int) { atomic.AddInt64(&r.traces, int64(n)) }

// Eval counts cases.
func (r *R) Eval(n int) { atomic.AddInt64(&r.evals, int64(n)) }

// Sample keeps a few cases written out (the 1st, 10th, 100th, ... offered).
func (r *R) Sample(f func() interface{}) {
	r.mu.Lock()
	r.seen++
	n := r.seen
	keep := len(r.samples) < 8 && (n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000 || n == 100000 || n == 1000000)
	r.mu.Unlock()
	if keep {
		v := f()
		r.mu.Lock()
		r.samples = append(r.samples, v)
		r.mu.Unlock()
	}
}

// Violate records a violation; key identifies the failing case without blanks.
func (r *R) Violate(key, format string, args ...interface{}) {
	key = strings.Join(strings.Fields(key), "_")
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[key]; ok {
		r.knownHit[key] = true
		return
	}
	if len(r.viol) >= 20 {
		return
	}
	for _, v := range r.viol {
		if v.key == key {
			return
		}
	}
	r.viol = append(r.viol, violation{key, fmt.Sprintf(format, args...)})
}

// Violations so far.
func (r *R) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.viol) }

// Finish writes the evidence, prints the verdict and exits.
func (r *R) Finish() {
	tier := "quick"
	if r.Thorough() {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{}
	for k, v := range r.Extra {
		cov[k] = v
	}
	if r.samples == nil {
		r.samples = []interface{}{}
	}
	cov["samples"] = r.samples
	cov["exhaustive"] = atomic.LoadInt32(&r.cut) == 0 && r.only == ""
	cov["rule"] = r.Rule
	switch r.Level {
	case "model_checking":
		cov["states"] = len(r.states) + int(r.moreStates)
		cov["transitions"] = r.transitions
		cov["traces_validated_against_impl"] = r.traces
	default:
		cov["evaluations"] = r.evals
		cov["distinct_nontrivial"] = len(r.states) + int(r.moreStates)
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(r.viol),
	}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	dir := filepath.Join(Root(), "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	keys := []string{}
	for k := range r.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, r.known[k])
	}
	old, _ := filepath.Glob(filepath.Join(dir, r.ID+".replay.*.txt"))
	for _, f := range old {
		os.Remove(f)
	}
	for i, v := range r.viol {
		p := filepath.Join(dir, fmt.Sprintf("%s.replay.%d.txt", r.ID, i))
		txt := fmt.Sprintf("property: %s\ncase: %s\nreplay: cd %s && VERIF_TIER=%s VERIF_ONLY='%s' ./run.sh %s\n\n%s\n", r.ID, v.key, Root(), tier, v.key, r.ID, v.text)
		os.WriteFile(p, []byte(txt), 0644)
		fmt.Println(strings.ToValidUTF8(strings.TrimRight(v.text, "\n"), "?"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
	}
	fmt.Printf("%s %s: states/distinct=%d transitions=%d traces=%d evaluations=%d exhaustive=%v violations=%d %.1fs\n",
		r.ID, tier, len(r.states)+int(r.moreStates), r.transitions, r.traces, r.evals, cov["exhaustive"], len(r.viol), time.Since(r.start).Seconds())
	if len(r.viol) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Par runs f(0..n-1) on all cores.
func Par(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int, n)
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Blocked is returned by Guard when the function did not return in time.
const Blocked = "BLOCKED: the call never returned"

var blocked int32

// Guard runs f, turning a panic or a hang into a message.
func Guard(d time.Duration, f func() string) (msg string) {
	if atomic.LoadInt32(&blocked) > 0 && d > 10*time.Second {
		// a violation is found already, do not wait as long for the next one
		d = 10 * time.Second
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("PANIC: %v\n%s", p, shortStack())
			}
		}()
		done <- f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case m := <-done:
		return m
	case <-t.C:
		atomic.AddInt32(&blocked, 1)
		return Blocked
	}
}

// Catch runs f in this goroutine, turning a panic into a message.
func Catch(f func() string) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("PANIC: %v\n%s", p, shortStack())
		}
	}()
	return f()
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "oureadb") || strings.Contains(lines[i], "/repo/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}
