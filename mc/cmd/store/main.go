// Command store decides the storage properties S01-S06, S09, S10 by exhaustive enumeration of bounded histories.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
)

func main() {
	checks := map[string]func(){"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06, "S09": s09, "S10": s10, "S11": s11}
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check")
		os.Exit(2)
	}
	f()
}

const hang = 30 * time.Second

// dynMO delegates to the operator currently selected.
type dynMO struct{ cur store.MergeOperator }

func (d *dynMO) Name() string { return "dyn" }
func (d *dynMO) FullMerge(k, e []byte, o [][]byte) ([]byte, bool) {
	return d.cur.FullMerge(k, e, o)
}
func (d *dynMO) PartialMerge(k, l, r []byte) ([]byte, bool) { return d.cur.PartialMerge(k, l, r) }

// db is one open store used by one worker for many cases.
type db struct {
	eng  string
	s    store.KVStore
	mo   *dynMO
	dir  string
	used int
	log  []string // cases run since the store was opened, for replays
	conf map[string]interface{}
}

func openDB(name string, conf map[string]interface{}) (*db, error) {
	d := &db{eng: name, mo: &dynMO{cur: &eng.AppendMO{}}, dir: eng.Scratch(), conf: conf}
	s, err := eng.Open(name, d.dir, d.mo, conf)
	if err != nil {
		return nil, fmt.Errorf("open %s: %v", name, err)
	}
	d.s = s
	if name == "boltdb" {
		// Grow the file once: bolt cannot grow its memory map while a reader is open in the same goroutine.
		if err := eng.Put(s, eng.Model{"grow": strings.Repeat("g", 4<<20)}); err != nil {
			return nil, err
		}
		if err := eng.Clear(s); err != nil {
			return nil, err
		}
	}
	return d, nil
}

func (d *db) close() {
	if d.s != nil {
		s := d.s
		rep.Guard(hang, func() string { s.Close(); return "" })
		d.s = nil
	}
	os.RemoveAll(d.dir)
}

// pool hands out stores: one case at a time per store, replaced after maxUse cases or after trouble.
type pool struct {
	r      *rep.R
	name   string
	conf   map[string]interface{}
	maxUse int
	mu     sync.Mutex
	free   []*db
}

// newPool: old versions of keys slow the stores down, so they are replaced after a while.
func newPool(r *rep.R, name string) *pool { return &pool{r: r, name: name, maxUse: 120} }

func (p *pool) get() (*db, error) {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		d := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return d, nil
	}
	p.mu.Unlock()
	return openDB(p.name, p.conf)
}

func (p *pool) put(d *db) {
	d.used++
	if d.used >= p.maxUse {
		d.close()
		return
	}
	p.mu.Lock()
	p.free = append(p.free, d)
	p.mu.Unlock()
}

func (p *pool) closeAll() {
	for _, d := range p.free {
		d.close()
	}
	p.free = nil
}

// runCase runs fn on a recycled store that was emptied before. When it reports a problem the case is repeated on a
// fresh store, and if it passes there, the whole history of the recycled store is blamed (it is still a violation:
// the store was emptied and verified empty through its own interface before the case).
func (p *pool) runCase(key string, fn func(d *db) string) {
	if !p.r.Case(key) || p.r.Stop() {
		return
	}
	d, err := p.get()
	if err != nil {
		p.r.Violate(key, "%s: %v", key, err)
		return
	}
	msg := rep.Guard(hang, func() string {
		if err := eng.Clear(d.s); err != nil {
			return "emptying the store: " + err.Error()
		}
		return fn(d)
	})
	if msg == "" {
		p.put(d)
		return
	}
	if msg != rep.Blocked {
		d.close()
	}
	for try := 0; try < 3; try++ {
		f, err := openDB(p.name, p.conf)
		if err != nil {
			p.r.Violate(key, "%s: %v", key, err)
			return
		}
		m2 := rep.Guard(hang, func() string { return fn(f) })
		if m2 != "" {
			p.r.Violate(key, "engine %s, case %s (on a fresh store):\n%s", p.name, key, m2)
			return
		}
		f.close()
	}
	p.r.Violate(key, "engine %s, case %s (after %d earlier cases on the same store, emptied in between; passes on a fresh store):\n%s", p.name, key, d.used, msg)
}

// engines runs f for every engine concurrently, and f distributes its own work.
func engines(names []string, f func(name string)) {
	var wg sync.WaitGroup
	for _, n := range names {
		wg.Add(1)
		go func(n string) { defer wg.Done(); f(n) }(n)
	}
	wg.Wait()
}

// fold is what the merge operator of the check computes.
var fold = eng.MergeResult

// ---- batch programs ----

type kind byte

const (
	kSet kind = iota
	kDel
	kMerge
	kReset
	kExec
)

type step struct {
	k        kind
	b        int // batch object
	key, val string
}

func (s step) String() string {
	p := ""
	if s.b > 0 {
		p = fmt.Sprintf("b%d.", s.b)
	}
	switch s.k {
	case kSet:
		return fmt.Sprintf("%sSet(%s,%s)", p, eng.Q(s.key), eng.Q(s.val))
	case kDel:
		return fmt.Sprintf("%sDelete(%s)", p, eng.Q(s.key))
	case kMerge:
		return fmt.Sprintf("%sMerge(%s,%s)", p, eng.Q(s.key), eng.Q(s.val))
	case kReset:
		return p + "Reset"
	}
	return p + "Execute"
}

func progString(prog []step) string {
	var x []string
	for _, s := range prog {
		x = append(x, s.String())
	}
	return strings.Join(x, " ")
}

// mbatch is the model of a batch object.
type mbatch struct {
	ops    []step
	merges map[string][]string
	order  []string
}

func (m *mbatch) add(s step) {
	if s.k == kMerge {
		if m.merges == nil {
			m.merges = map[string][]string{}
		}
		if _, ok := m.merges[s.key]; !ok {
			m.order = append(m.order, s.key)
		}
		m.merges[s.key] = append(m.merges[s.key], s.val)
		return
	}
	m.ops = append(m.ops, s)
}

func (m *mbatch) apply(st eng.Model) {
	for _, k := range m.order {
		old, ok := st[k]
		ops := [][]byte{}
		for _, v := range m.merges[k] {
			ops = append(ops, []byte(v))
		}
		st[k] = string(fold([]byte(old), ok, ops))
	}
	for _, o := range m.ops {
		if o.k == kSet {
			st[o.key] = o.val
		} else {
			delete(st, o.key)
		}
	}
}

// runner executes a program on a store next to the model.
type runner struct {
	r      *rep.R
	d      *db
	st     eng.Model
	keys   []string
	local  map[uint64]struct{}
	scrub  func(b []byte) // what the caller does with its buffers after each call (S06)
	nosync bool
}

func (x *runner) run(prog []step) string {
	w, err := x.d.s.Writer()
	if err != nil {
		return "Writer: " + err.Error()
	}
	defer w.Close()
	nb := 1
	for _, s := range prog {
		if s.b+1 > nb {
			nb = s.b + 1
		}
	}
	bs := make([]store.KVBatch, nb)
	ms := make([]*mbatch, nb)
	for i := range bs {
		bs[i] = w.NewBatch()
		ms[i] = &mbatch{}
	}
	defer func() {
		for _, b := range bs {
			b.Close()
		}
	}()
	for i, s := range prog {
		b := bs[s.b]
		kb, vb := []byte(s.key), []byte(s.val)
		switch s.k {
		case kSet:
			b.Set(kb, vb)
			ms[s.b].add(s)
		case kDel:
			b.Delete(kb)
			ms[s.b].add(s)
		case kMerge:
			b.Merge(kb, vb)
			ms[s.b].add(s)
		case kReset:
			b.Reset()
			ms[s.b] = &mbatch{}
		case kExec:
			if err := w.ExecuteBatch(b); err != nil {
				return fmt.Sprintf("program: %s\nstep %d (%v): unexpected error %v", progString(prog), i, s, err)
			}
			ms[s.b].apply(x.st)
			x.r.Trans(1)
			if x.local != nil {
				x.local[rep.Hash(x.d.eng+x.st.String())] = struct{}{}
			}
			if msg := eng.Check(x.d.s, x.st, x.keys); msg != "" {
				return fmt.Sprintf("program: %s\nafter step %d: %s", progString(prog), i, msg)
			}
		}
		if x.scrub != nil {
			x.scrub(kb)
			x.scrub(vb)
		}
	}
	return ""
}

// product calls f with every sequence of length n over 0..k-1 until f returns false.
func product(k, n int, f func(ix []int) bool) {
	ix := make([]int, n)
	for {
		if !f(ix) {
			return
		}
		i := n - 1
		for i >= 0 {
			ix[i]++
			if ix[i] < k {
				break
			}
			ix[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// shard runs the cases 0..n-1 in parallel blocks.
func shard(r *rep.R, n int, f func(i int, local map[uint64]struct{})) {
	const block = 200
	nb := (n + block - 1) / block
	rep.Par(nb, func(b int) {
		local := map[uint64]struct{}{}
		for i := b * block; i < (b+1)*block && i < n; i++ {
			if r.Stop() {
				break
			}
			f(i, local)
		}
		r.States(local)
	})
}
