package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
)

// retainMO returns its arguments themselves whenever it can, as an operator may.
type retainMO struct{ mode int }

func (m *retainMO) Name() string { return "retain" }
func (m *retainMO) PartialMerge(k, l, r []byte) ([]byte, bool) {
	switch m.mode {
	case 1: // append in place
		return append(l, r...), true
	case 2: // the last one wins
		return r, true
	case 3: // the first one wins
		return l, true
	}
	return nil, false
}
func (m *retainMO) FullMerge(k, e []byte, o [][]byte) ([]byte, bool) {
	switch m.mode {
	case 2:
		return o[len(o)-1], true
	case 3:
		return o[0], true
	}
	return eng.MergeResult(e, e != nil, o), true
}

func (m *retainMO) model(old string, present bool, ops []string) string {
	switch m.mode {
	case 2:
		return ops[len(ops)-1]
	case 3:
		return ops[0]
	}
	var bs [][]byte
	for _, o := range ops {
		bs = append(bs, []byte(o))
	}
	return string(eng.MergeResult([]byte(old), present, bs))
}

// garbage overwrites b in one of several ways.
func garbage(b []byte, how int) {
	for i := range b {
		switch how {
		case 0:
			b[i] = 0xff
		case 1:
			b[i] = 0
		case 2:
			b[i] = 'a' // another key
		default:
			b[i]++
		}
	}
}

const garbageKinds = 4

// scrubbed runs one batch whose buffers are overwritten right after every call.
// layout 0: separate slices; 1: key and value in one slice, with spare capacity; 2: the NewBatchEx buffer;
// 3: one small buffer reused for every call.
func scrubbed(d *db, prog []step, layout, how, mode int, keys []string) string {
	mo := &retainMO{mode}
	d.mo.cur = mo
	defer func() { d.mo.cur = &eng.AppendMO{} }()
	st := eng.Model{"a": "0", "d": "0"}
	if err := eng.Put(d.s, st); err != nil {
		return err.Error()
	}
	w, err := d.s.Writer()
	if err != nil {
		return err.Error()
	}
	defer w.Close()
	var b store.KVBatch
	var arena []byte
	total := 0
	for _, s := range prog {
		total += len(s.key) + len(s.val)
	}
	if layout == 2 {
		arena, b, err = w.NewBatchEx(store.KVBatchOptions{TotalBytes: total, NumSets: len(prog), NumDeletes: 1, NumMerges: 2})
		if err != nil {
			return err.Error()
		}
		if len(arena) != total {
			return fmt.Sprintf("NewBatchEx buffer of %d bytes instead of %d", len(arena), total)
		}
	} else {
		b = w.NewBatch()
		max := 44
		for _, x := range prog {
			if len(x.val) > max {
				max = len(x.val) + 1
			}
		}
		arena = make([]byte, 20+max)
	}
	used := 0
	first := prog
	// the later rounds run after the batch was executed and reset: the same operations, the same in another order with
	// other values, and the same on other keys
	for round := 0; round < 4; round++ {
		prog := append([]step(nil), first...)
		for i := range prog {
			switch round {
			case 2:
				prog[i] = first[len(first)-1-i]
				if prog[i].k != kDel {
					prog[i].val += "+"
				}
			case 3:
				prog[i].key += "_"
			}
		}
		merges := map[string][]string{}
		var mk []string
		for _, s := range prog {
			var kb, vb, all []byte
			switch layout {
			case 0:
				kb, vb = append(make([]byte, 0, len(s.key)+3), s.key...), append(make([]byte, 0, len(s.val)+3), s.val...)
			case 1:
				all = append(append(make([]byte, 0, 100), s.key...), s.val...)
				kb, vb = all[:len(s.key)], all[len(s.key):]
			case 2:
				kb = arena[used : used+len(s.key)]
				copy(kb, s.key)
				vb = arena[used+len(s.key) : used+len(s.key)+len(s.val)]
				copy(vb, s.val)
				used += len(s.key) + len(s.val)
			case 3:
				kb = arena[:copy(arena, s.key)]
				vb = arena[20 : 20+copy(arena[20:], s.val)]
			}
			switch s.k {
			case kSet:
				b.Set(kb, vb)
			case kDel:
				b.Delete(kb)
			case kMerge:
				b.Merge(kb, vb)
				if merges[s.key] == nil {
					mk = append(mk, s.key)
				}
				merges[s.key] = append(merges[s.key], s.val)
			}
			if string(kb) != s.key || string(vb) != s.val {
				return fmt.Sprintf("%v modified its arguments: %q %q", s, kb, vb)
			}
			for _, x := range [][]byte{kb[:cap(kb)][len(kb):], vb[:cap(vb)][len(vb):]} {
				if layout != 0 {
					break
				}
				for _, c := range x {
					if c != 0 {
						return fmt.Sprintf("%v wrote into the spare capacity of its arguments", s)
					}
				}
			}
			if layout == 2 {
				garbage(kb, how)
				garbage(vb, how)
			} else {
				garbage(kb[:cap(kb)], how)
				garbage(vb[:cap(vb)], how)
			}
		}
		if msg := eng.Check(d.s, st, keys); msg != "" {
			return "before the batch is executed: " + msg
		}
		if err := w.ExecuteBatch(b); err != nil {
			return err.Error()
		}
		garbage(arena[:cap(arena)], how)
		for _, k := range mk {
			old, ok := st[k]
			st[k] = mo.model(old, ok, merges[k])
		}
		for _, s := range prog {
			switch s.k {
			case kSet:
				st[s.key] = s.val
			case kDel:
				delete(st, s.key)
			}
		}
		if msg := eng.Check(d.s, st, keys); msg != "" {
			return msg
		}
		b.Reset()
		garbage(arena[:cap(arena)], (how+1)%garbageKinds)
		if msg := eng.Check(d.s, st, keys); msg != "" {
			return "after Reset: " + msg
		}
		if layout == 2 {
			break // the buffer belongs to one use of the batch
		}
	}
	b.Close()
	if msg := eng.Check(d.s, st, keys); msg != "" {
		return "after closing the batch: " + msg
	}
	return ""
}

// scribble reads keys in the given ways and overwrites or appends to what was returned between the reads.
func scribble(d *db, seq []int, keys []string) string {
	st := eng.Model{"a": "0123456789", "b": "", "c": "x", "d": "yy", "ab": "0123456789012345678901234567890123456789", "c\x00": strings.Repeat("0123456789", 30)}
	if err := eng.Put(d.s, st); err != nil {
		return err.Error()
	}
	r1, err := d.s.Reader()
	if err != nil {
		return err.Error()
	}
	defer r1.Close()
	r2, err := d.s.Reader()
	if err != nil {
		return err.Error()
	}
	defer r2.Close()
	type held struct {
		key string
		got []byte
		own []byte // what it must still contain
	}
	var hs []*held
	for i, a := range seq {
		rd := r1
		if a >= 6 {
			rd = r2
			a -= 6
		}
		switch a {
		case 0, 1: // Get, then overwrite (0) or append (1)
			for _, k := range keys {
				kb := append(make([]byte, 0, len(k)+8), k...)
				v, err := rd.Get(kb)
				if err != nil {
					return err.Error()
				}
				if w, ok := st[k]; string(v) != w || ok != (v != nil) {
					return fmt.Sprintf("step %d: Get(%q) = %q", i, k, v)
				}
				if v == nil {
					continue
				}
				if a == 1 {
					v = append(v, "scribbled over the end of the value"...)
				}
				garbage(v, i%garbageKinds)
				hs = append(hs, &held{k, v, append([]byte{}, v...)})
			}
		case 2, 3: // MultiGet, then overwrite or append
			var kb [][]byte
			for _, k := range keys {
				kb = append(kb, append(make([]byte, 0, len(k)+8), k...))
			}
			vs, err := rd.MultiGet(kb)
			if err != nil {
				return err.Error()
			}
			for j, k := range keys {
				if w, ok := st[k]; string(vs[j]) != w || ok != (vs[j] != nil) {
					return fmt.Sprintf("step %d: MultiGet(%q) = %q", i, k, vs[j])
				}
			}
			for j, k := range keys {
				v := vs[j]
				if v == nil {
					continue
				}
				if w := st[k]; string(v) != w {
					return fmt.Sprintf("step %d: writing to the other values of one MultiGet changed the value of %q to %q", i, k, v)
				}
				if a == 3 {
					v = append(v, "scribbled over the end of the value"...)
				}
				garbage(v, i%garbageKinds)
				hs = append(hs, &held{k, v, append([]byte{}, v...)})
			}
			for _, k := range kb {
				garbage(k[:cap(k)], 3)
			}
		case 4: // iterate
			kvs, err := eng.ScanAll(rd)
			if err != nil {
				return err.Error()
			}
			if len(kvs) != len(st) {
				return fmt.Sprintf("step %d: scan %v", i, kvs)
			}
			for _, kv := range kvs {
				if st[kv[0]] != kv[1] {
					return fmt.Sprintf("step %d: scan %v", i, kvs)
				}
			}
		case 5: // overwrite everything in the store, then restore it
			m := eng.Model{}
			for k := range st {
				m[k] = "other"
			}
			if err := eng.Put(d.s, m); err != nil {
				return err.Error()
			}
			if msg := eng.Check(d.s, m, keys); msg != "" {
				return fmt.Sprintf("step %d: %s", i, msg)
			}
			if err := eng.Put(d.s, st); err != nil {
				return err.Error()
			}
		}
		for _, h := range hs {
			if string(h.got) != string(h.own) {
				return fmt.Sprintf("step %d: bytes returned earlier for %q changed from %q to %q", i, h.key, h.own, h.got)
			}
		}
		if msg := eng.Check(d.s, st, keys); msg != "" {
			return fmt.Sprintf("after step %d: %s", i, msg)
		}
	}
	return ""
}

// largeValues reads values of n bytes and uses what was returned after the reader was closed and the keys were written again.
func largeValues(d *db, n, how int) (msg string) {
	debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(false)
	what := ""
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("values of %d bytes, %s: %v", n, what, p)
		} else if msg != "" {
			msg = fmt.Sprintf("values of %d bytes, %s: %s", n, what, msg)
		}
	}()
	val := func(c byte) []byte { return bytes.Repeat([]byte{c}, n) }
	put := func(k string, v []byte) {
		w, err := d.s.Writer()
		if err != nil {
			panic(err)
		}
		defer w.Close()
		b := w.NewBatch()
		kb := []byte(k)
		b.Set(kb, v)
		garbage(kb, how)
		garbage(v, how)
		if err := w.ExecuteBatch(b); err != nil {
			panic(err)
		}
		b.Close()
	}
	what = "writing"
	put("a", val('a'))
	put("b", val('b'))
	rd, err := d.s.Reader()
	if err != nil {
		return err.Error()
	}
	ok := false
	defer func() {
		if !ok && rd != nil {
			rd.Close()
		}
	}()
	same := func(got []byte, c byte) string {
		if !bytes.Equal(got, val(c)) {
			i := 0
			for i < len(got) && i < n && got[i] == c {
				i++
			}
			return fmt.Sprintf("the value of %q has %d bytes and differs at %d", string(c), len(got), i)
		}
		return ""
	}
	what = "reading"
	var held [][]byte
	for i := 0; i < 2; i++ {
		g, err := rd.Get([]byte("a"))
		if err != nil {
			return err.Error()
		}
		mg, err := rd.MultiGet([][]byte{[]byte("b"), []byte("a"), []byte("b")})
		if err != nil {
			return err.Error()
		}
		for j, x := range [][]byte{g, mg[1], mg[0], mg[2]} {
			if m := same(x, "aabb"[j]); m != "" {
				return m
			}
			held = append(held, x)
		}
	}
	what = "writing to what Get and MultiGet returned"
	for i, x := range held {
		garbage(x, how)
		_ = append(x, "scribbled over the end of the value"...)
		for j, y := range held[i+1:] {
			if m := same(y, "aabb"[(i+1+j)%4]); m != "" {
				return "another result: " + m
			}
		}
	}
	what = "reading again after writing to earlier results"
	if v, err := rd.Get([]byte("a")); err != nil {
		return err.Error()
	} else if m := same(v, 'a'); m != "" {
		return m
	}
	v, err := rd.MultiGet([][]byte{[]byte("b"), []byte("a")})
	if err != nil {
		return err.Error()
	}
	if err := rd.Close(); err != nil {
		return err.Error()
	}
	rd = nil
	ok = true
	what = "using results after the reader was closed and the keys were written again"
	for i := 0; i < 4; i++ {
		put("a", val('x'))
		put("b", val('y'))
		if m := same(v[0], 'b'); m != "" {
			return m
		}
		if m := same(v[1], 'a'); m != "" {
			return m
		}
	}
	if err := eng.Clear(d.s); err != nil {
		return err.Error()
	}
	put("c", val('z'))
	if m := same(v[0], 'b'); m != "" {
		return m
	}
	garbage(v[0], how)
	if m := same(v[1], 'a'); m != "" {
		return m
	}
	got, err := eng.Contents(d.s)
	if err != nil {
		return err.Error()
	}
	if len(got) != 1 || got["c"] != string(val('z')) {
		return "the contents have changed"
	}
	return ""
}

func s06() {
	r := rep.New("S06", "exploration", "every batch of up to three operations (sets, deletes, merges, repeated keys) x four buffer layouts (including the NewBatchEx buffer) x four overwriting patterns x merge operators that keep, append to or return their arguments, with every buffer overwritten right after the call that took it; every sequence of reads on two readers where all returned bytes are overwritten or appended to; NewBatchEx sizes")
	al := []step{{k: kSet, key: "aa", val: "1"}, {k: kSet, key: "bb", val: "22"}, {k: kDel, key: "d"}, {k: kMerge, key: "m", val: "xyz"}, {k: kMerge, key: "m", val: "w"}, {k: kMerge, key: "nn", val: "uv"}, {k: kSet, key: "aa", val: ""}}
	bs := batches(al, r.Pick(3, 4))
	// long values and keys
	long := []step{{k: kSet, key: "aa", val: strings.Repeat("long", 1200)}, {k: kMerge, key: "m", val: strings.Repeat("0123", 1100)}, {k: kSet, key: strings.Repeat("k", 19), val: strings.Repeat("v", 300)}, {k: kDel, key: "d"}, {k: kMerge, key: "m", val: "w"}}
	for _, b := range batches(long, 2) {
		bs = append(bs, b)
	}
	keys := []string{"a", "aa", "bb", "d", "m", "nn", "zz", "aa_", "m_"}
	seqs := [][]int{}
	for n := 1; n <= r.Pick(3, 4); n++ {
		product(12, n, func(ix []int) bool {
			seqs = append(seqs, append([]int{}, ix...))
			return true
		})
	}
	engines(eng.Names, func(name string) {
		p := newPool(r, name)
		type job struct{ prog, layout, how, mode int }
		var jobs []job
		for i, b := range bs {
			modes := 1
			for _, s := range b {
				if s.k == kMerge {
					modes = 4
				}
			}
			for l := 0; l < 4; l++ {
				for h := 0; h < garbageKinds; h++ {
					for m := 0; m < modes; m++ {
						jobs = append(jobs, job{i, l, h, m})
					}
				}
			}
		}
		shard(r, len(jobs), func(i int, local map[uint64]struct{}) {
			j := jobs[i]
			p.runCase(fmt.Sprintf("%s/batch/%d/%d/%d/%d", name, j.prog, j.layout, j.how, j.mode), func(d *db) string {
				r.Eval(1)
				if len(bs[j.prog]) > 0 {
					local[rep.Hash(fmt.Sprint(name, j))] = struct{}{}
				}
				msg := scrubbed(d, bs[j.prog], j.layout, j.how, j.mode, keys)
				if msg != "" {
					msg = fmt.Sprintf("batch [%s], layout %d, overwritten with pattern %d, merge mode %d: %s", progString(bs[j.prog]), j.layout, j.how, j.mode, msg)
				}
				return msg
			})
			r.Sample(func() interface{} {
				return map[string]interface{}{"engine": name, "batch": progString(bs[j.prog]), "layout": j.layout, "pattern": j.how}
			})
		})
		shard(r, len(seqs), func(i int, local map[uint64]struct{}) {
			p.runCase(fmt.Sprintf("%s/read/%v", name, seqs[i]), func(d *db) string {
				r.Eval(1)
				local[rep.Hash(fmt.Sprint(name, seqs[i]))] = struct{}{}
				if msg := scribble(d, seqs[i], []string{"a", "b", "c", "d", "ab", "zz", "a", "c\x00"}); msg != "" {
					return fmt.Sprintf("reads %v: %s", seqs[i], msg)
				}
				return ""
			})
		})
		sizes := []int{0, 1, 31, 32, 33, 100, 1000, 1023, 1024, 2048, 3000, 4000, 4096, 5000, 8192, 16383, 16384, 16385, 30000, 32768, 40000, 65535, 65536, 70000, 131072, 300000, 1 << 20}
		for _, n := range sizes {
			for how := 0; how < garbageKinds; how++ {
				n, how := n, how
				if r.Stop() {
					break
				}
				p.runCase(fmt.Sprintf("%s/large/%d/%d", name, n, how), func(d *db) string {
					r.Eval(1)
					if name == "boltdb" { // its file must not grow while a reader is open
						if err := eng.Put(d.s, eng.Model{"grow": strings.Repeat("g", 8*n)}); err != nil {
							return err.Error()
						}
						if err := eng.Clear(d.s); err != nil {
							return err.Error()
						}
					}
					return largeValues(d, n, how)
				})
			}
		}
		// NewBatchEx sizes; buffers of several batches never overlap
		p.runCase(name+"/sizes", func(d *db) string {
			w, err := d.s.Writer()
			if err != nil {
				return err.Error()
			}
			var bufs [][]byte
			sizes := []int{0, 1, 2, 3, 7, 8, 15, 16, 17, 100, 255, 256, 1000, 4095, 4096, 4097, 65536, 1 << 20}
			for rnd := 0; rnd < 2; rnd++ {
				for _, n := range sizes {
					for _, o := range []store.KVBatchOptions{{TotalBytes: n}, {TotalBytes: n, NumSets: 3}, {TotalBytes: n, NumSets: 1, NumDeletes: 2, NumMerges: 3}} {
						r.Eval(1)
						buf, b, err := w.NewBatchEx(o)
						if err != nil || len(buf) != n {
							return fmt.Sprintf("NewBatchEx(%+v): buffer of %d bytes, error %v", o, len(buf), err)
						}
						if b == nil {
							return "NewBatchEx returned no batch"
						}
						bufs = append(bufs, buf)
					}
				}
			}
			for i, b := range bufs {
				for j := range b[:cap(b)] {
					b[:cap(b)][j] = byte(i)
				}
			}
			for i, b := range bufs {
				for _, c := range b[:cap(b)] {
					if c != byte(i) {
						return fmt.Sprintf("buffer %d shares memory with another one", i)
					}
				}
			}
			return ""
		})
		p.closeAll()
	})
	r.Finish()
}
