package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/null"

	"verif/mc/eng"
	"verif/mc/rep"
)

// progs lists every program over alphabet of length 1..n that ends with Execute.
func progs(alpha []step, n int, end []step) [][]step {
	var out [][]step
	for l := 0; l < n; l++ {
		product(len(alpha), l, func(ix []int) bool {
			for _, e := range end {
				p := make([]step, 0, l+1)
				for _, i := range ix {
					p = append(p, alpha[i])
				}
				out = append(out, append(p, e))
			}
			return true
		})
	}
	return out
}

// batches lists every op list of length 0..n over alpha.
func batches(alpha []step, n int) [][]step {
	var out [][]step
	for l := 0; l <= n; l++ {
		product(len(alpha), l, func(ix []int) bool {
			p := make([]step, 0, l)
			for _, i := range ix {
				p = append(p, alpha[i])
			}
			out = append(out, p)
			return true
		})
	}
	return out
}

func s01() {
	r := rep.New("S01", "model_checking", "every program of Set/Delete/Reset/Execute calls on one or two batch objects up to the stated length, every sequence of two batches of up to two operations, and size sweeps, on every engine; after every Execute a new reader's full scan, Get and MultiGet are compared with a sorted map; and the MultiGet helper over every list of up to five keys that are absent, empty, present or fail to be read")
	exec := step{k: kExec}
	set := func(k, v string) step { return step{k: kSet, key: k, val: v} }
	del := func(k string) step { return step{k: kDel, key: k} }

	type family struct {
		name  string
		init  eng.Model
		keys  []string
		progs [][]step
		only  string
	}
	var fams []family
	keys := []string{"a", "b", "c", "a", "zz", ""}
	// A: one batch object, executed, reset and executed again in every possible way
	alA := []step{exec, set("a", "x"), set("a", ""), del("a"), set("b", "y"), del("b"), {k: kReset}}
	pa := progs(alA, r.Pick(6, 7), []step{exec})
	fams = append(fams, family{name: "A", init: eng.Model{}, keys: keys, progs: pa})
	fams = append(fams, family{name: "A'", init: eng.Model{"a": "0", "b": "", "c": "1"}, keys: keys, progs: progs(alA, r.Pick(5, 6), []step{exec})})
	fams = append(fams, family{name: "A+", init: eng.Model{}, keys: keys, progs: progs(alA, r.Pick(7, 8), []step{exec}), only: "gtreap"})
	// B: two batches of up to two operations over nested keys
	alB := []step{}
	for _, k := range []string{"a", "a\x00", "b"} {
		alB = append(alB, set(k, ""), set(k, "x"), del(k))
	}
	bb := batches(alB, 2)
	var pb [][]step
	for _, x := range bb {
		for _, y := range bb {
			p := append([]step{}, x...)
			p = append(p, exec, step{k: kReset})
			p = append(p, y...)
			pb = append(pb, append(p, exec))
		}
	}
	fams = append(fams, family{name: "B", init: eng.Model{}, keys: []string{"a", "a\x00", "b", "a\x00\x00"}, progs: pb})
	// C: long batches on few keys
	alC := []step{set("a", "x"), set("a", "y"), set("a", ""), del("a"), set("b", "x"), del("b")}
	var pc [][]step
	for _, x := range batches(alC, r.Pick(5, 6)) {
		pc = append(pc, append(append([]step{}, x...), exec))
	}
	fams = append(fams, family{name: "C", init: eng.Model{"b": "0"}, keys: keys, progs: pc})
	// D: two batch objects, interleaved
	var alD []step
	for b := 0; b < 2; b++ {
		for _, s := range []step{set("a", fmt.Sprint("x", b)), set("b", fmt.Sprint("y", b)), del("a"), {k: kReset}, exec} {
			s.b = b
			alD = append(alD, s)
		}
	}
	fams = append(fams, family{name: "D", init: eng.Model{"a": "0"}, keys: keys, progs: progs(alD, r.Pick(5, 6), []step{exec, {k: kExec, b: 1}})})
	// F: adversarial keys, three at a time
	adv := []string{"\x00", "\x00\x00", "a", "a\x00", "aa", "a\xff", "a\xff\xff", "b", "d", "\xff", "\xff\xff", "!x", strings.Repeat("k", 300)}
	var pf [][]step
	for _, x := range adv {
		for _, y := range adv {
			for _, z := range adv {
				pf = append(pf, []step{set(x, "1"), set(y, "2"), exec, {k: kReset}, del(z), set(x, "3"), exec})
			}
		}
	}
	fams = append(fams, family{name: "F", init: eng.Model{}, keys: adv, progs: pf})

	engines(eng.Names, func(name string) {
		p := newPool(r, name)
		for _, f := range fams {
			if f.only != "" && f.only != name {
				continue
			}
			f := f
			shard(r, len(f.progs), func(i int, local map[uint64]struct{}) {
				prog := f.progs[i]
				key := fmt.Sprintf("%s/%s/%d", name, f.name, i)
				p.runCase(key, func(d *db) string {
					x := &runner{r: r, d: d, st: f.init.Clone(), keys: f.keys, local: local}
					if len(f.init) > 0 {
						if err := eng.Put(d.s, f.init); err != nil {
							return "initial batch: " + err.Error()
						}
					}
					return x.run(prog)
				})
				r.Trace(1)
				r.Sample(func() interface{} {
					return map[string]string{"engine": name, "program": progString(prog), "initial": f.init.String()}
				})
			})
		}
		// E: sizes
		sizes := []int{0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4097}
		if r.Thorough() {
			sizes = append(sizes, 9999, 10000, 10001, 20000, 50000)
		}
		shard(r, len(sizes)*4, func(i int, local map[uint64]struct{}) {
			n, mode := sizes[i/4], i%4
			key := fmt.Sprintf("%s/E/ops%d/%d", name, n, mode)
			p.runCase(key, func(d *db) string { return sized(r, d, n, mode) })
			r.Trace(1)
			local[rep.Hash(key)] = struct{}{}
		})
		vs := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 34, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1}
		if r.Thorough() {
			vs = append(vs, 1<<22, 1<<22+1)
		}
		shard(r, len(vs), func(i int, local map[uint64]struct{}) {
			n := vs[i]
			key := fmt.Sprintf("%s/E/val%d", name, n)
			p.runCase(key, func(d *db) string {
				val := strings.Repeat("v", n)
				x := &runner{r: r, d: d, st: eng.Model{}, keys: []string{"k", "l", "m"}, local: local}
				return x.run([]step{set("k", val), set("l", "1"), exec, set("k", val+"w"), exec, {k: kReset}, set("m", val), del("k"), exec})
			})
			ks := n
			if ks == 0 || ks > 32767 { // bolt takes keys of up to 32768 bytes
				return
			}
			key = fmt.Sprintf("%s/E/key%d", name, ks)
			p.runCase(key, func(d *db) string {
				k := strings.Repeat("k", ks)
				x := &runner{r: r, d: d, st: eng.Model{}, keys: []string{k, k + "k", k[:ks-1] + "j", k + "\x00"}, local: local}
				return x.run([]step{set(k, "1"), set(k+"k", "2"), set(k[:ks-1]+"j", "3"), exec, {k: kReset}, del(k), exec, set(k, "4"), exec})
			})
			r.Trace(2)
		})
		p.closeAll()
	})
	longHistories(r)
	nullEngine(r)
	multiGetHelper(r)
	r.Finish()
}

// longHistories: many batches on a hundred keys, in every one of the listed strides and sizes, also with configurations
// that make the engines split pages, blocks and tables early.
func longHistories(r *rep.R) {
	variants := map[string]map[string]interface{}{
		"gtreap": nil, "boltdb": nil, "goleveldb": nil, "badger": nil,
		"boltdb/fill1":      {"fillPercent": 1.0, "nosync": true},
		"boltdb/fill0":      {"fillPercent": 0.1, "bucket": "other"},
		"goleveldb/small":   {"write_buffer_size": 2048.0, "block_size": 64.0, "block_restart_interval": 1.0, "lru_cache_capacity": 1.0},
		"goleveldb/filters": {"write_buffer_size": 8192.0, "bloom_filter_bits_per_key": 4.0},
	}
	var names []string
	for n := range variants {
		names = append(names, n)
	}
	type par struct{ p, q, n int }
	var pars []par
	for p := 1; p <= r.Pick(7, 12); p++ {
		for q := 1; q <= r.Pick(5, 12); q++ {
			for _, n := range []int{1, 9, 60} {
				pars = append(pars, par{p, q, n})
			}
		}
	}
	k := func(i int) string { return fmt.Sprintf("%c%02d", 'a'+i%3, i%101) }
	engines(names, func(variant string) {
		p := newPool(r, strings.Split(variant, "/")[0])
		p.conf = variants[variant]
		shard(r, len(pars), func(i int, local map[uint64]struct{}) {
			a := pars[i]
			r.Trace(1)
			p.runCase(fmt.Sprintf("%s/H/%d/%d/%d", variant, a.p, a.q, a.n), func(d *db) string {
				x := &runner{r: r, d: d, st: eng.Model{}, local: local, keys: []string{k(0), k(1), k(50), k(100), "zz"}}
				for b := 0; b < r.Pick(24, 60); b++ {
					var prog []step
					for j := 0; j < a.n; j++ {
						prog = append(prog, step{k: kSet, key: k(b*a.p + j*a.q), val: fmt.Sprint(b, " ", j, strings.Repeat("x", b*j%5*60))})
						if j%2 == 0 {
							prog = append(prog, step{k: kDel, key: k(b*a.q + j*a.p + 3)})
						}
					}
					if msg := x.run(append(prog, step{k: kExec})); msg != "" {
						return cut(fmt.Sprintf("batch %d of strides %d and %d, %d operations: %s", b, a.p, a.q, a.n, msg))
					}
				}
				return ""
			})
		})
		p.closeAll()
	})
}

// sized runs one batch of n operations (mode 0: distinct keys, 1: every key twice, 2: set then delete every other,
// 3: ten keys over and over), then a second small one.
func sized(r *rep.R, d *db, n, mode int) string {
	x := &runner{r: r, d: d, st: eng.Model{}}
	var prog []step
	k := func(i int) string { return fmt.Sprintf("key%06d", i) }
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			prog = append(prog, step{k: kSet, key: k(i), val: fmt.Sprint(i)})
		case 1:
			prog = append(prog, step{k: kSet, key: k(i / 2), val: fmt.Sprint(i)})
		case 2:
			prog = append(prog, step{k: kSet, key: k(i), val: "v"})
			if i%2 == 1 {
				prog = append(prog, step{k: kDel, key: k(i - 1)})
			}
		case 3:
			prog = append(prog, step{k: kSet, key: k(i % 10), val: fmt.Sprint(i)})
		}
	}
	for i := 0; i < n+2; i += 1 + n/200 {
		x.keys = append(x.keys, k(i))
	}
	prog = append(prog, step{k: kExec}, step{k: kReset}, step{k: kDel, key: k(n / 2)}, step{k: kSet, key: k(n), val: "last"}, step{k: kExec})
	if msg := x.run(prog); msg != "" {
		if len(msg) > 3000 {
			msg = msg[:1200] + " ... " + msg[len(msg)-1200:]
		}
		return fmt.Sprintf("batch of %d operations, mode %d: %s", n, mode, msg)
	}
	return ""
}

func nullEngine(r *rep.R) {
	msg := rep.Guard(hang, func() string {
		s, err := null.New(nil, nil)
		if err != nil {
			return err.Error()
		}
		al := []step{{k: kSet, key: "a", val: "x"}, {k: kDel, key: "a"}, {k: kMerge, key: "a", val: "x"}, {k: kSet, key: "", val: ""}, {k: kReset}}
		for _, ops := range batches(al, 3) {
			w, err := s.Writer()
			if err != nil {
				return err.Error()
			}
			for _, ex := range []bool{false, true} {
				var b store.KVBatch
				if ex {
					buf, bb, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: 10})
					if err != nil || len(buf) != 10 {
						return fmt.Sprintf("NewBatchEx: %d bytes, %v", len(buf), err)
					}
					b = bb
				} else {
					b = w.NewBatch()
				}
				for _, o := range ops {
					switch o.k {
					case kSet:
						b.Set([]byte(o.key), []byte(o.val))
					case kDel:
						b.Delete([]byte(o.key))
					case kMerge:
						b.Merge([]byte(o.key), []byte(o.val))
					case kReset:
						b.Reset()
					}
				}
				if err := w.ExecuteBatch(b); err != nil {
					return fmt.Sprintf("%s: %v", progString(ops), err)
				}
				if msg := eng.Check(s, eng.Model{}, []string{"a", "", "b", "a"}); msg != "" {
					return fmt.Sprintf("%s: %s", progString(ops), msg)
				}
				rd, _ := s.Reader()
				for _, it := range []store.KVIterator{rd.PrefixIterator([]byte("a")), rd.RangeIterator(nil, nil)} {
					it.Seek([]byte("a"))
					it.Next()
					if it.Valid() || it.Key() != nil || it.Value() != nil {
						return "iterator of the null engine shows something"
					}
					it.Close()
				}
				rd.Close()
				b.Close()
				r.Trans(1)
				r.Trace(1)
			}
			w.Close()
		}
		return ""
	})
	if msg != "" {
		r.Violate("null", "null engine: %s", msg)
	}
	r.State("null")
}

// oneGet is a reader whose Get answers what the key says.
type oneGet struct {
	store.KVReader
	calls []string
}

func (o *oneGet) Get(k []byte) ([]byte, error) {
	o.calls = append(o.calls, string(k))
	switch k[0] {
	case 'n':
		return nil, nil
	case 'e':
		return []byte{}, nil
	case 'v':
		return append([]byte("value of "), k...), nil
	}
	return nil, fmt.Errorf("the read fails")
}

// multiGetHelper is asked for every list of up to five keys that are absent, empty, present or cannot be read.
func multiGetHelper(r *rep.R) {
	const kinds = "nevx"
	for n := 0; n <= 5; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(kinds)
		}
		for c := 0; c < total; c++ {
			var keys [][]byte
			list, fails := "", false
			for i, k := 0, c; i < n; i, k = i+1, k/len(kinds) {
				keys = append(keys, []byte{kinds[k%len(kinds)], '0' + byte(i%3)})
				list += string(keys[i]) + ","
				fails = fails || kinds[k%len(kinds)] == 'x'
			}
			key := "helper/" + list
			if !r.Case(key) {
				continue
			}
			r.Eval(1)
			r.Trans(1)
			if m := rep.Guard(hang, func() string {
				o := &oneGet{}
				vs, err := store.MultiGet(o, keys)
				if fails {
					if err == nil {
						return "MultiGet succeeds although a read of its fails"
					}
					return ""
				}
				if err != nil {
					return "MultiGet: " + err.Error()
				}
				if len(vs) != n {
					return fmt.Sprintf("%d values for %d keys", len(vs), n)
				}
				for i, k := range keys {
					w, _ := (&oneGet{}).Get(k)
					if (vs[i] == nil) != (w == nil) || !bytes.Equal(vs[i], w) {
						return fmt.Sprintf("key %q: got %q, Get answers %q", k, vs[i], w)
					}
				}
				return ""
			}); m != "" {
				r.Violate(key, "store.MultiGet over keys %s (n absent, e empty, v present, x failing): %s", list, m)
			}
		}
	}
}
