package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
)

// failMO refuses the n-th full merge after arming, and every merge of key "f".
type failMO struct {
	nth    int // 0: never
	calls  int
	panics bool // the n-th full merge panics instead
}

// execBatch executes a batch; a panic of the merge operator is caught where a caller would catch it and counts as an error.
func execBatch(w store.KVWriter, b store.KVBatch) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if p != opPanic {
				panic(p)
			}
			err = fmt.Errorf("panic of the merge operator")
		}
	}()
	return w.ExecuteBatch(b)
}

const opPanic = "the merge operator panics"

func (f *failMO) Name() string { return "fail" }
func (f *failMO) FullMerge(k, e []byte, o [][]byte) ([]byte, bool) {
	f.calls++
	if f.calls == f.nth && f.panics {
		panic(opPanic)
	}
	if f.calls == f.nth || string(k) == "f" {
		return nil, false
	}
	return eng.MergeResult(e, e != nil, o), true
}
func (f *failMO) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }

func fill(b store.KVBatch, ops []step) *mbatch {
	m := &mbatch{}
	for _, o := range ops {
		switch o.k {
		case kSet:
			b.Set([]byte(o.key), []byte(o.val))
		case kDel:
			b.Delete([]byte(o.key))
		case kMerge:
			b.Merge([]byte(o.key), []byte(o.val))
		}
		m.add(o)
	}
	return m
}

// mixed tells whether a key is both merged and set or deleted: no order is specified for that.
func mixed(p []step) bool {
	m := map[string]kind{}
	for _, s := range p {
		c := kSet
		if s.k == kMerge {
			c = kMerge
		}
		if o, ok := m[s.key]; ok && o != c {
			return true
		}
		m[s.key] = c
	}
	return false
}

// foreignBatch is a batch of no known engine.
type foreignBatch struct{}

func (foreignBatch) Set(k, v []byte)   {}
func (foreignBatch) Delete(k []byte)   {}
func (foreignBatch) Merge(k, v []byte) {}
func (foreignBatch) Reset()            {}
func (foreignBatch) Close() error      { return nil }

func s04() {
	r := rep.New("S04", "fault_enumeration", "every batch of up to three operations containing at least one that can fail (refused merge of a key, empty or oversized key), and every batch of up to four merges failing at every position (the operator refuses, or panics and the caller catches it), executed twice, followed by a good batch, a reuse of the failed batch object and (persistent engines) a reopen; plus oversized batches, foreign batches and conflicting transactions; after each step the contents are compared with the model in which a failed batch did nothing; a call that does not return is a violation")
	huge := strings.Repeat("h", 70000)
	h32 := strings.Repeat("h", 40000)
	al := []step{
		{k: kSet, key: "a", val: "1"}, {k: kDel, key: "c"}, {k: kMerge, key: "m", val: "x"}, {k: kSet, key: "b", val: ""},
		{k: kMerge, key: "f", val: "x"}, {k: kSet, key: "", val: "1"}, {k: kDel, key: ""}, {k: kMerge, key: "", val: "x"},
		{k: kSet, key: huge, val: "1"}, {k: kDel, key: h32}, {k: kMerge, key: h32, val: "x"},
	}
	suspicious := func(s step) bool { return s.key == "f" || s.key == "" || len(s.key) > 1000 }
	var progsA [][]step
	for _, p := range batches(al, 3) {
		n := 0
		for _, s := range p {
			if suspicious(s) {
				n++
			}
		}
		if n > 0 && n <= 2 && !mixed(p) {
			progsA = append(progsA, p)
		}
	}
	init := eng.Model{"a": "0", "c": "0", "f": "0", "m": "0"}
	keys := []string{"a", "b", "c", "f", "m", "zz"}
	type mergeCase struct {
		prog   []step
		nth    int
		panics bool
	}
	var merges []mergeCase
	alM := []step{{k: kMerge, key: "m", val: "x"}, {k: kMerge, key: "n", val: "y"}, {k: kMerge, key: "o", val: "z"}, {k: kMerge, key: "p", val: "w"}, {k: kSet, key: "a", val: "1"}, {k: kDel, key: "c"}}
	for _, p := range batches(alM, r.Pick(4, 5)) {
		ks := map[string]bool{}
		for _, s := range p {
			if s.k == kMerge {
				ks[s.key] = true
			}
		}
		for n := 1; n <= len(ks); n++ {
			merges = append(merges, mergeCase{p, n, false}, mergeCase{p, n, true})
		}
	}
	engines(eng.Names, func(name string) {
		p := newPool(r, name)
		one := func(d *db, prog []step, nth int, panics, reopen bool, local map[uint64]struct{}) string {
			mo := &failMO{panics: panics}
			d.mo.cur = mo
			defer func() { d.mo.cur = &eng.AppendMO{} }()
			st := init.Clone()
			if err := eng.Put(d.s, st); err != nil {
				return err.Error()
			}
			w, err := d.s.Writer()
			if err != nil {
				return err.Error()
			}
			b := w.NewBatch()
			mb := fill(b, prog)
			where := ""
			failed := 0
			exec := func(what string) string {
				mo.calls, mo.nth = 0, nth
				err := execBatch(w, b)
				mo.nth = 0
				r.Eval(1)
				if err == nil {
					mb.apply(st)
				} else {
					failed++
				}
				where = fmt.Sprintf("batch [%s] (%d-th full merge fails, by a panic: %v), %s, error %v: ", progString(prog), nth, panics, what, err)
				if err == nil && mo.calls >= nth && nth > 0 {
					return where + "the merge operator refused but the batch reported success"
				}
				if msg := eng.Check(d.s, st, keys); msg != "" {
					return where + msg
				}
				return ""
			}
			if msg := exec("first execution"); msg != "" {
				return msg
			}
			if msg := exec("second execution"); msg != "" {
				return msg
			}
			if failed > 0 {
				local[rep.Hash(fmt.Sprint(name, progString(prog), nth))] = struct{}{}
			}
			good := []step{{k: kSet, key: "g", val: "1"}, {k: kDel, key: "a"}, {k: kMerge, key: "q", val: "x"}}
			step2 := func(bb store.KVBatch, what string) string {
				m2 := fill(bb, good)
				if err := w.ExecuteBatch(bb); err != nil {
					return where + what + ": unexpected error " + err.Error()
				}
				m2.apply(st)
				if msg := eng.Check(d.s, st, keys); msg != "" {
					return where + what + ": " + msg
				}
				return ""
			}
			fresh := w.NewBatch()
			if msg := step2(fresh, "then a good batch"); msg != "" {
				return msg
			}
			b.Reset()
			if msg := step2(b, "then the failed batch reset and reused"); msg != "" {
				return msg
			}
			fresh.Close()
			b.Close()
			w.Close()
			if reopen && name != "gtreap" {
				if err := d.s.Close(); err != nil {
					return where + "Close: " + err.Error()
				}
				s, err := eng.Open(name, d.dir, d.mo, nil)
				if err != nil {
					return where + "reopen: " + err.Error()
				}
				d.s = s
				if msg := eng.Check(d.s, st, keys); msg != "" {
					return where + "after reopening: " + msg
				}
			}
			return ""
		}
		shard(r, len(progsA), func(i int, local map[uint64]struct{}) {
			p.runCase(fmt.Sprintf("%s/ops/%d", name, i), func(d *db) string { return one(d, progsA[i], 0, false, len(progsA[i]) == 1, local) })
			r.Sample(func() interface{} { return map[string]string{"engine": name, "batch": progString(progsA[i])} })
		})
		shard(r, len(merges), func(i int, local map[uint64]struct{}) {
			p.runCase(fmt.Sprintf("%s/merge/%d", name, i), func(d *db) string {
				return one(d, merges[i].prog, merges[i].nth, merges[i].panics, len(merges[i].prog) <= 2, local)
			})
		})
		p.closeAll()
		// foreign batches
		p.runCase(name+"/foreign", func(d *db) string {
			if err := eng.Put(d.s, init); err != nil {
				return err.Error()
			}
			w, err := d.s.Writer()
			if err != nil {
				return err.Error()
			}
			others := []store.KVBatch{nil, foreignBatch{}}
			on := "goleveldb"
			if name == "goleveldb" {
				on = "gtreap"
			}
			o, err := openDB(on, nil)
			if err != nil {
				return err.Error()
			}
			defer o.close()
			ow, err := o.s.Writer()
			if err != nil {
				return err.Error()
			}
			ob := ow.NewBatch()
			fill(ob, []step{{k: kSet, key: "a", val: "1"}, {k: kMerge, key: "m", val: "2"}})
			others = append(others, ob)
			for i, b := range others {
				r.Eval(1)
				if err := w.ExecuteBatch(b); err == nil {
					return fmt.Sprintf("foreign batch %d accepted", i)
				}
				if msg := eng.Check(d.s, init, keys); msg != "" {
					return fmt.Sprintf("after a foreign batch %d: %s", i, msg)
				}
			}
			return ""
		})
		// oversized batches
		type big struct{ n, val int }
		bigs := []big{{1, 1 << 20}, {9, 1 << 20}, {10, 1 << 20}, {12, 1 << 20}, {200, 64 << 10}, {20000, 10}, {110000, 1}, {150000, 1}}
		for _, bg := range bigs {
			bg := bg
			if r.Stop() {
				break
			}
			p.runCase(fmt.Sprintf("%s/big/%d/%d", name, bg.n, bg.val), func(d *db) string {
				if err := eng.Put(d.s, init); err != nil {
					return err.Error()
				}
				st := init.Clone()
				w, err := d.s.Writer()
				if err != nil {
					return err.Error()
				}
				b := w.NewBatch()
				val := bytes.Repeat([]byte("v"), bg.val)
				next := st.Clone()
				b.Delete([]byte("a"))
				delete(next, "a")
				for i := 0; i < bg.n; i++ {
					k := fmt.Sprintf("k%06d", i)
					b.Set([]byte(k), val)
					next[k] = string(val)
				}
				r.Eval(1)
				err = w.ExecuteBatch(b)
				if err == nil {
					st = next
				} else {
					r.State(fmt.Sprint(name, "big", bg))
				}
				got, cerr := eng.Contents(d.s)
				if cerr != nil {
					return cerr.Error()
				}
				if d := eng.Diff(st, got); d != "" {
					var miss []string
					for k := range st {
						if _, ok := got[k]; !ok {
							miss = append(miss, k)
						}
					}
					sort.Strings(miss)
					return fmt.Sprintf("batch of %d sets of %d bytes: error %v, expected %d entries, observed %d entries; %d missing", bg.n, bg.val, err, len(st), len(got), len(miss))
				}
				b.Reset()
				b.Set([]byte("after"), []byte("1"))
				if err := w.ExecuteBatch(b); err != nil {
					return "next batch: " + err.Error()
				}
				st["after"] = "1"
				got, cerr = eng.Contents(d.s)
				if cerr != nil {
					return cerr.Error()
				}
				if d := eng.Diff(st, got); d != "" {
					return fmt.Sprintf("batch of %d sets of %d bytes (error %v), after the next batch: expected %d entries, observed %d", bg.n, bg.val, err, len(st), len(got))
				}
				return ""
			})
			p.closeAll()
		}
		// long batches with one bad operation at the end or in the middle
		for _, n := range []int{50, 999, 1000, 1001, 10000, 110000, 220000} {
			for _, bad := range []step{{k: kSet, key: "", val: "1"}, {k: kSet, key: huge, val: "1"}, {k: kDel, key: huge}, {k: kMerge, key: "f", val: "x"}} {
				for _, at := range []int{n, n / 2} {
					n, bad, at := n, bad, at
					if r.Stop() {
						break
					}
					if n > 100000 && (at != n || bad.key != "" && bad.key != "f" || name == "boltdb" && !r.Thorough()) {
						continue
					}
					p.runCase(fmt.Sprintf("%s/long/%d/%s/%d", name, n, bad, at), func(d *db) string { return longBatch(r, d, init, n, bad, at) })
				}
			}
			if n > 100000 {
				p.closeAll()
			}
		}
		// many merges, each of which may be the one refused
		for _, n := range []int{20, 200, 1500} {
			for _, nth := range []int{1, 2, n / 2, n - 1, n} {
				n, nth := n, nth
				p.runCase(fmt.Sprintf("%s/merges/%d/%d", name, n, nth), func(d *db) string { return longMerges(r, d, init, n, nth) })
			}
		}
		if name == "badger" {
			conflicts(r, p)
		}
		p.closeAll()
	})
	r.Finish()
}

// longBatch executes n sets with one operation that may be refused in between, and then a good batch.
func longBatch(r *rep.R, d *db, init eng.Model, n int, bad step, at int) string {
	d.mo.cur = &failMO{}
	defer func() { d.mo.cur = &eng.AppendMO{} }()
	if err := eng.Put(d.s, init); err != nil {
		return err.Error()
	}
	st := init.Clone()
	w, err := d.s.Writer()
	if err != nil {
		return err.Error()
	}
	b := w.NewBatch()
	next := st.Clone()
	badop := func() {
		mb := fill(b, []step{bad})
		mb.apply(next)
	}
	for i := 0; i < n; i++ {
		if i == at {
			badop()
		}
		k := fmt.Sprintf("k%06d", i)
		b.Set([]byte(k), nil)
		next[k] = ""
	}
	if at == n {
		badop()
	}
	what := ""
	check := func() string {
		got, err := eng.Contents(d.s)
		if err != nil {
			return what + err.Error()
		}
		if eng.Diff(st, got) != "" {
			return fmt.Sprintf("%s: expected %d entries, observed %d", what, len(st), len(got))
		}
		return ""
	}
	r.Eval(1)
	err = w.ExecuteBatch(b)
	if err == nil {
		st = next
		if bad.key == "f" {
			return "the merge operator refused but the batch reported success"
		}
	}
	what = fmt.Sprintf("batch of %d sets with %s at %d, error %v", n, bad, at, err)
	if msg := check(); msg != "" {
		return msg
	}
	b.Reset()
	b.Set([]byte("after"), []byte("1"))
	if err := w.ExecuteBatch(b); err != nil {
		return what + ": next batch: " + err.Error()
	}
	st["after"] = "1"
	what += ", after the next batch"
	return check()
}

// longMerges executes a batch merging n keys of which the nth full merge is refused.
func longMerges(r *rep.R, d *db, init eng.Model, n, nth int) string {
	mo := &failMO{}
	d.mo.cur = mo
	defer func() { d.mo.cur = &eng.AppendMO{} }()
	if err := eng.Put(d.s, init); err != nil {
		return err.Error()
	}
	st := init.Clone()
	w, err := d.s.Writer()
	if err != nil {
		return err.Error()
	}
	b := w.NewBatch()
	var ops []step
	for i := 0; i < n; i++ {
		ops = append(ops, step{k: kMerge, key: fmt.Sprintf("m%05d", i), val: "x"}, step{k: kSet, key: fmt.Sprintf("s%05d", i), val: "y"})
	}
	mb := fill(b, ops)
	mo.nth = nth
	r.Eval(2)
	if err := w.ExecuteBatch(b); err == nil {
		return fmt.Sprintf("batch of %d merges, %d-th refused: reported success", n, nth)
	}
	mo.nth = 0
	if msg := eng.Check(d.s, st, []string{"m00000", "s00000"}); msg != "" {
		return fmt.Sprintf("batch of %d merges, %d-th refused: %s", n, nth, msg)
	}
	if err := w.ExecuteBatch(b); err != nil {
		return fmt.Sprintf("batch of %d merges executed again: %v", n, err)
	}
	mb.apply(st)
	if msg := eng.Check(d.s, st, []string{"m00000", "s00000"}); msg != "" {
		return fmt.Sprintf("batch of %d merges executed again after a refusal: %s", n, msg)
	}
	return ""
}

// hookMO runs a nested batch from within the merge operator: on an engine with optimistic transactions this is the
// schedule in which another batch commits between the read and the commit of this one.
type hookMO struct {
	hook func()
	done bool
}

func (h *hookMO) Name() string { return "hook" }
func (h *hookMO) FullMerge(k, e []byte, o [][]byte) ([]byte, bool) {
	if !h.done {
		h.done = true
		h.hook()
	}
	return eng.MergeResult(e, e != nil, o), true
}
func (h *hookMO) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }

func conflicts(r *rep.R, p *pool) {
	inner := batches([]step{{k: kSet, key: "m", val: "S"}, {k: kDel, key: "m"}, {k: kMerge, key: "m", val: "I"}, {k: kSet, key: "a", val: "S"}, {k: kDel, key: "zz"}}, 2)
	outer := batches([]step{{k: kMerge, key: "m", val: "O"}, {k: kSet, key: "b", val: "O"}, {k: kDel, key: "c"}}, 2)
	for _, o := range outer {
		hasMerge := false
		for _, s := range o {
			hasMerge = hasMerge || s.k == kMerge
		}
		if !hasMerge {
			continue
		}
		for _, in := range inner {
			o, in := o, in
			mk := 0
			for _, s := range in {
				if s.key == "m" {
					mk++
				}
			}
			if mk > 1 {
				continue // sets and merges of one key in one batch
			}
			p.runCase(fmt.Sprintf("badger/conflict/%s/%s", progString(o), progString(in)), func(d *db) string {
				st := eng.Model{"m": "0", "a": "0", "c": "0"}
				if err := eng.Put(d.s, st); err != nil {
					return err.Error()
				}
				h := &hookMO{}
				d.mo.cur = h
				defer func() { d.mo.cur = &eng.AppendMO{} }()
				w, err := d.s.Writer()
				if err != nil {
					return err.Error()
				}
				ib := w.NewBatch()
				im := fill(ib, in)
				var ierr error
				h.hook = func() { ierr = w.ExecuteBatch(ib) }
				ob := w.NewBatch()
				om := fill(ob, o)
				oerr := w.ExecuteBatch(ob)
				r.Eval(1)
				if ierr != nil {
					return "inner batch failed: " + ierr.Error()
				}
				if oerr != nil {
					r.State(progString(o) + progString(in))
				}
				im.apply(st)
				touches := false
				for _, s := range in {
					touches = touches || s.key == "m"
				}
				if oerr == nil && touches {
					return fmt.Sprintf("outer [%s], inner [%s] committed in between on the merged key: the outer batch reported success", progString(o), progString(in))
				}
				if oerr == nil {
					om.apply(st)
				}
				if msg := eng.Check(d.s, st, []string{"m", "a", "b", "c"}); msg != "" {
					return fmt.Sprintf("outer [%s] (error %v), inner [%s] committed while the outer one was merging: %s", progString(o), oerr, progString(in), msg)
				}
				return ""
			})
		}
	}
}
