package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
	"verif/mc/sched"
)

// --- stores kept open across executions; every execution works under its own key prefix ---

type openStore struct {
	s    store.KVStore
	dir  string
	used int
}

var stores = map[string]*openStore{}

// refused is the operand the merge operator refuses.
const refused = "REFUSE"

type mergeOp struct{ eng.AppendMO }

func (m *mergeOp) FullMerge(key, existing []byte, ops [][]byte) ([]byte, bool) {
	for _, o := range ops {
		if strings.Contains(string(o), refused) {
			return nil, false
		}
	}
	return m.AppendMO.FullMerge(key, existing, ops)
}

func getStore(name string) store.KVStore {
	o := stores[name]
	limit := 4000
	if name == "gtreap" {
		limit = 500
	}
	if o != nil && o.used >= limit {
		o.s.Close()
		os.RemoveAll(o.dir)
		o = nil
	}
	if o == nil {
		dir := eng.Scratch()
		s, err := eng.Open(name, dir, &mergeOp{}, nil)
		if err != nil {
			panic(err)
		}
		if name == "boltdb" {
			// bolt cannot grow its memory map while a reader is open
			if err := eng.Put(s, eng.Model{"grow": strings.Repeat("g", 8<<20)}); err != nil {
				panic(err)
			}
			if err := eng.Clear(s); err != nil {
				panic(err)
			}
		}
		o = &openStore{s: s, dir: dir}
		stores[name] = o
	}
	o.used++
	return o.s
}

func closeStores() {
	for _, o := range stores {
		o.s.Close()
		os.RemoveAll(o.dir)
	}
}

// --- operations ---

type prim struct {
	kind byte // s, d, m
	key  string
	val  string // "" means a value of its own
}

type opDef struct {
	name  string
	prims []prim
	read  bool
	comp  int  // compaction with this batch size
	fails bool // the batch is refused
	write bool
}

func batchOp(name string, p ...prim) *opDef { return &opDef{name: name, prims: p, write: true} }

var (
	oSetA   = batchOp("set(a)", prim{'s', "a", ""})
	oSetAB  = batchOp("set(a,b)", prim{'s', "a", ""}, prim{'s', "b", ""})
	oDelA   = batchOp("del(a)", prim{'d', "a", ""})
	oMix    = batchOp("del(a)set(b)", prim{'d', "a", ""}, prim{'s', "b", ""})
	oMrgA   = batchOp("merge(a)", prim{'m', "a", ""})
	oMrgAB  = batchOp("merge(a,b)", prim{'m', "a", ""}, prim{'m', "b", ""})
	oMrgSet = batchOp("merge(a)set(b)", prim{'m', "a", ""}, prim{'s', "b", ""})
	oFail   = &opDef{name: "refused", prims: []prim{{'m', "a", refused}, {'s', "b", ""}, {'m', "b", ""}}, fails: true, write: true}
	oRead   = &opDef{name: "read", read: true}
	oZero   = batchOp("set(a)=0", prim{'s', "a", "\x00"})
	oComp   = &opDef{name: "compact", comp: 100, write: true}
	oComp1  = &opDef{name: "compact1", comp: 1, write: true}
)

// exec runs op as part of thread t and returns its calls.
func (op *opDef) exec(s store.KVStore, prefix, tag string, rec func(*call), extra func(func() string)) {
	sc := sched.Current()
	switch {
	case op.read:
		c := &call{name: op.name}
		c.from = sc.Clock()
		rd, err := s.Reader()
		c.to = sc.Clock()
		if err != nil {
			extra(func() string { return "Reader: " + err.Error() })
			return
		}
		got := map[string]string{}
		for _, k := range []string{"a", "b"} {
			v, err := rd.Get([]byte(prefix + k))
			if err != nil {
				extra(func() string { return "Get: " + err.Error() })
			}
			if v != nil {
				got[k] = string(v)
			}
		}
		scan := map[string]string{}
		it := rd.PrefixIterator([]byte(prefix))
		for {
			k, v, ok := it.Current()
			if !ok {
				break
			}
			scan[strings.TrimPrefix(string(k), prefix)] = string(v)
			it.Next()
		}
		it.Close()
		mg, err := rd.MultiGet([][]byte{[]byte(prefix + "b"), []byte(prefix + "a")})
		multi := map[string]string{}
		if err == nil && len(mg) == 2 {
			for i, k := range []string{"b", "a"} {
				if mg[i] != nil {
					multi[k] = string(mg[i])
				}
			}
		}
		rd.Close()
		c.describes = show(got)
		if !same(got, scan) || !same(got, multi) {
			extra(func() string {
				return fmt.Sprintf("one reader shows different states: gets %s, scan %s, multi-get %s", show(got), show(scan), show(multi))
			})
		}
		c.fits = func(st map[string]string) bool { return same(st, got) }
		rec(c)
	case op.comp > 0:
		from := sc.Clock()
		err := s.(interface{ CompactWithBatchSize(int) error }).CompactWithBatchSize(op.comp)
		to := sc.Clock()
		if err != nil {
			extra(func() string { return "Compact: " + err.Error() })
			return
		}
		// it works in several transactions: at least one pass, every pass may see later rows, and a limited pass need
		// not take them all
		for i := 0; i < 4; i++ {
			c := &call{name: op.name, from: from, to: to, optional: true}
			keys := []string{"a", "b"}
			k := keys[i%2]
			c.apply = func(st map[string]string) map[string]string {
				if st[k] != "\x00" {
					return st
				}
				return without(st, k)
			}
			rec(c)
		}
		// rows that were there all the time are gone
		c := &call{name: op.name, from: from, to: to}
		c.apply = func(st map[string]string) map[string]string {
			for k, v := range st {
				if v == "\x00" {
					st = without(st, k)
				}
			}
			return st
		}
		rec(c)
	default:
		w, err := s.Writer()
		if err != nil {
			extra(func() string { return "Writer: " + err.Error() })
			return
		}
		b := w.NewBatch()
		type done struct {
			prim
			v string
		}
		var ds []done
		for i, p := range op.prims {
			v := p.val
			if v == "" || v == refused {
				v += fmt.Sprintf("%s%d", tag, i)
			}
			ds = append(ds, done{p, v})
			switch p.kind {
			case 's':
				b.Set([]byte(prefix+p.key), []byte(v))
			case 'd':
				b.Delete([]byte(prefix + p.key))
			case 'm':
				b.Merge([]byte(prefix+p.key), []byte(v))
			}
		}
		c := &call{name: op.name, keys: map[string]bool{}}
		for _, d := range ds {
			c.keys[d.key] = true
		}
		c.from = sc.Clock()
		err = w.ExecuteBatch(b)
		c.to = sc.Clock()
		b.Close()
		w.Close()
		if err != nil {
			c.errored = true
			c.describes = "error: " + err.Error()
			rec(c)
			if !op.fails {
				extra(func() string { return "" })
			}
			return
		}
		if op.fails {
			extra(func() string { return op.name + ": the batch reported success" })
		}
		c.describes = fmt.Sprint(tag)
		c.apply = func(st map[string]string) map[string]string {
			n := map[string]string{}
			for k, v := range st {
				n[k] = v
			}
			merges := map[string][][]byte{}
			for _, d := range ds {
				switch d.kind {
				case 's':
					n[d.key] = d.v
				case 'd':
					delete(n, d.key)
				case 'm':
					merges[d.key] = append(merges[d.key], []byte(d.v))
				}
			}
			for k, ops := range merges {
				old, ok := st[k]
				n[k] = string(eng.MergeResult([]byte(old), ok, ops))
			}
			return n
		}
		rec(c)
	}
}

func without(st map[string]string, k string) map[string]string {
	n := map[string]string{}
	for x, v := range st {
		if x != k {
			n[x] = v
		}
	}
	return n
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func show(m map[string]string) string { return eng.Model(m).String() }

var execs int

// storeProgram makes a program of threads of operations.
func storeProgram(engine string, threads [][]*opDef, init map[string]string) func() ([]func(), func() string) {
	dict := false
	for _, t := range threads {
		for _, o := range t {
			dict = dict || o.comp > 0
		}
	}
	return func() ([]func(), func() string) {
		execs++
		s := getStore(engine)
		prefix := fmt.Sprintf("r%07d/", execs)
		if dict {
			prefix = "d" + prefix
		}
		start := eng.Model{}
		for k, v := range init {
			start[prefix+k] = v
		}
		if len(start) > 0 {
			if err := eng.Put(s, start); err != nil {
				panic(err)
			}
		}
		var mu sync.Mutex
		var calls []*call
		var problems []string
		rec := func(c *call) { sched.Quietly(func() { mu.Lock(); calls = append(calls, c); mu.Unlock() }) }
		extra := func(f func() string) {
			if m := f(); m != "" {
				mu.Lock()
				problems = append(problems, m)
				mu.Unlock()
			}
		}
		var bodies []func()
		for ti, ops := range threads {
			bodies = append(bodies, func() {
				for oi, o := range ops {
					o.exec(s, prefix, string(rune('A'+ti))+fmt.Sprint(oi), rec, extra)
				}
			})
		}
		judge := func() string {
			got := map[string]string{}
			rd, err := s.Reader()
			if err != nil {
				return "afterwards: Reader: " + err.Error()
			}
			it := rd.PrefixIterator([]byte(prefix))
			for {
				k, v, ok := it.Current()
				if !ok {
					break
				}
				got[strings.TrimPrefix(string(k), prefix)] = string(v)
				it.Next()
			}
			it.Close()
			for _, k := range []string{"a", "b"} {
				v, err := rd.Get([]byte(prefix + k))
				w, ok := got[k]
				if err != nil || (v != nil) != ok || string(v) != w {
					rd.Close()
					return fmt.Sprintf("afterwards: Get(%s) = %q %v, the scan shows %s", k, v, err, show(got))
				}
			}
			rd.Close()
			sort.Slice(calls, func(i, j int) bool { return calls[i].from < calls[j].from })
			var o strings.Builder
			o.WriteString(show(got))
			for _, c := range calls {
				o.WriteString(c.describes)
			}
			observed[rep.Hash(o.String())] = struct{}{}
			if len(problems) > 0 {
				return strings.Join(problems, "; ") + history(calls)
			}
			for _, c := range calls {
				if !c.errored || c.name == oFail.name {
					continue
				}
				// a batch may only fail because of a conflict: another batch on a common key at the same time
				ok := false
				for _, d := range calls {
					if d == c || !overlap(c, d) {
						continue
					}
					for k := range c.keys {
						ok = ok || d.keys[k]
					}
				}
				if !ok {
					return fmt.Sprintf("%s failed without a conflict%s", c.name, history(calls))
				}
			}
			if !linear(calls, init, func(st map[string]string) bool { return same(st, got) }) {
				return fmt.Sprintf("no sequential order of the calls explains the outcome\n  at first %s%s\n  at last %s", show(init), history(calls), show(got))
			}
			return ""
		}
		return bodies, judge
	}
}

func names(threads [][]*opDef) string {
	var ts []string
	for _, t := range threads {
		var os []string
		for _, o := range t {
			os = append(os, o.name)
		}
		ts = append(ts, strings.Join(os, ";"))
	}
	return strings.Join(ts, " | ")
}

func s07(thorough bool) []*program {
	full := map[string]string{"a": "x", "b": "y"}
	empty := map[string]string{}
	var progs []*program
	add := func(engine string, bound int, threads [][]*opDef, init map[string]string) {
		n := "from " + show(init)
		limit := 100000
		if thorough {
			limit = 400000
		}
		progs = append(progs, &program{name: filepath.Join(engine, names(threads), n), bound: bound, maxRuns: limit, mk: storeProgram(engine, threads, init)})
	}
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	alpha := []*opDef{oSetA, oSetAB, oDelA, oMix, oMrgA, oMrgAB, oMrgSet, oFail, oRead}
	short := []*opDef{oSetAB, oMix, oMrgA, oMrgAB, oRead}
	for _, e := range eng.Names {
		for i, x := range alpha {
			for _, y := range alpha[i:] {
				if !x.write && !y.write {
					continue
				}
				for _, init := range []map[string]string{empty, full} {
					add(e, pick(2, 3), [][]*opDef{{x}, {y}}, init)
				}
			}
		}
		for _, x := range short {
			for _, y := range short {
				for _, z := range short {
					if !z.write && !x.write && !y.write {
						continue
					}
					add(e, pick(1, 2), [][]*opDef{{x, y}, {z}}, full)
				}
			}
		}
		for i, x := range short {
			for j, y := range short[i:] {
				for _, z := range short[i+j:] {
					add(e, pick(1, 2), [][]*opDef{{x}, {y}, {z}}, full)
				}
			}
		}
		if e == "goleveldb" {
			zero := map[string]string{"a": "\x00", "b": "\x00"}
			comps := []*opDef{oComp}
			if thorough {
				comps = append(comps, oComp1)
			}
			// writers wait inside of the engine while a compaction runs, which the scheduler only notices by time: the
			// slowest programs by far
			for _, c := range comps {
				for _, y := range []*opDef{oSetAB, oZero, oMrgAB, oMix, oRead} {
					add(e, 1, [][]*opDef{{c}, {y}}, zero)
					if thorough || y == oZero {
						add(e, 1, [][]*opDef{{c}, {y}}, full)
					}
				}
				if thorough {
					add(e, 1, [][]*opDef{{c}, {oRead, oSetAB}}, zero)
					add(e, 1, [][]*opDef{{c}, {oSetAB}, {oRead}}, zero)
				}
			}
		}
	}
	return progs
}
