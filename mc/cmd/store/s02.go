package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
)

// bound is a prefix or range iteration request.
type bound struct {
	prefix     bool
	p          []byte // prefix, or start
	end        []byte
	start, lim string // for printing
}

func (b bound) String() string {
	q := func(x []byte) string {
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("%q", x)
	}
	if b.prefix {
		return "PrefixIterator(" + q(b.p) + ")"
	}
	return "RangeIterator(" + q(b.p) + "," + q(b.end) + ")"
}

func (b bound) in(k string) bool {
	if b.prefix {
		return strings.HasPrefix(k, string(b.p))
	}
	return k >= string(b.p) && (b.end == nil || k < string(b.end))
}

func (b bound) open(r store.KVReader) store.KVIterator {
	if b.prefix {
		return r.PrefixIterator(b.p)
	}
	return r.RangeIterator(b.p, b.end)
}

// mIter is the reference iterator.
type mIter struct {
	b    bound
	keys []string // in bounds, sorted
	pos  int
}

func newMIter(b bound, m eng.Model) *mIter {
	it := &mIter{b: b}
	for _, k := range m.Keys() {
		if b.in(k) {
			it.keys = append(it.keys, k)
		}
	}
	return it
}

func (m *mIter) seek(t string) { m.pos = sort.SearchStrings(m.keys, t) }
func (m *mIter) next() {
	if m.pos < len(m.keys) {
		m.pos++
	}
}

func cmpIter(it store.KVIterator, mi *mIter, m eng.Model) string {
	k, v, ok := it.Current()
	if ok != it.Valid() {
		return fmt.Sprintf("Current says valid=%v but Valid says %v", ok, it.Valid())
	}
	want := mi.pos < len(mi.keys)
	if ok != want {
		if want {
			return fmt.Sprintf("invalid, expected to be on %s", eng.Q(mi.keys[mi.pos]))
		}
		return fmt.Sprintf("on %s, expected to be invalid", eng.Q(string(k)))
	}
	if !ok {
		return ""
	}
	wk := mi.keys[mi.pos]
	if string(k) != wk || string(v) != m[wk] {
		return fmt.Sprintf("on %s=%s, expected %s=%s", eng.Q(string(k)), eng.Q(string(v)), eng.Q(wk), eng.Q(m[wk]))
	}
	if kk, vv := it.Key(), it.Value(); string(kk) != wk || string(vv) != m[wk] {
		return fmt.Sprintf("Key/Value give %s=%s, expected %s=%s", eng.Q(string(kk)), eng.Q(string(vv)), eng.Q(wk), eng.Q(m[wk]))
	}
	return ""
}

// deBruijn returns a sequence over 0..k-1 containing every word of length n (not cyclic: the tail is repeated).
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}

func iterPrograms(rd store.KVReader, m eng.Model, b bound, targets []string, depth, dbOrder int, r *rep.R) string {
	// operations: 0 = Next, i = Seek(targets[i-1])
	run := func(ops []int) string {
		it := b.open(rd)
		defer it.Close()
		mi := newMIter(b, m)
		msg := cmpIter(it, mi, m)
		var done []string
		for _, o := range ops {
			if msg != "" {
				break
			}
			if o == 0 {
				it.Next()
				mi.next()
				done = append(done, "Next")
			} else {
				it.Seek([]byte(targets[o-1]))
				mi.seek(targets[o-1])
				done = append(done, fmt.Sprintf("Seek(%q)", targets[o-1]))
			}
			msg = cmpIter(it, mi, m)
		}
		r.Trans(len(done) + 1)
		r.Trace(1)
		if msg != "" {
			if len(done) > 12 {
				done = append([]string{"..."}, done[len(done)-12:]...)
			}
			return fmt.Sprintf("contents %v, %v, after [%s]: %s", m, b, strings.Join(done, " "), msg)
		}
		return ""
	}
	k := len(targets) + 1
	for l := 0; l <= depth; l++ {
		var msg string
		product(k, l, func(ix []int) bool { msg = run(ix); return msg == "" })
		if msg != "" {
			return msg
		}
	}
	// full traversal and well past the end
	if msg := run(make([]int, len(m)+4)); msg != "" {
		return msg
	}
	if dbOrder > 0 {
		return run(deBruijn(k, dbOrder))
	}
	return ""
}

func s02() {
	r := rep.New("S02", "model_checking", "all subsets of a universe of nested, NUL and 0xff keys as contents x every prefix and every start/end pair of the bound alphabet (also nil and empty) x every Next/Seek program up to the stated length plus one walk containing every longer word; long keys sharing long beginnings with values up to 70,000 bytes; every interleaving of three (thorough: four) steps (Next, Seek, close and reopen, Get) on two iterators of one reader; each step is compared with a sorted-slice iterator, on every engine (goleveldb also after compaction to tables)")
	uni := []string{"\x00", "a", "a\x00", "aa", "a\xff", "b", "\xff"}
	uni = append(uni, "a\xff\xff", "\xff\xff")
	if r.Thorough() {
		uni = append(uni, "a\x00\x00", "c")
	}
	bs := []string{"\x00", "a", "a\x00", "aa", "a\xff", "a\xff\xff", "b", "c", "\xff", "\xff\xff"}
	var bounds []bound
	bounds = append(bounds, bound{prefix: true}, bound{prefix: true, p: []byte{}})
	for _, p := range bs {
		bounds = append(bounds, bound{prefix: true, p: []byte(p)})
	}
	ends := [][]byte{nil, {}}
	for _, p := range bs {
		ends = append(ends, []byte(p))
	}
	for _, s := range ends {
		for _, e := range ends {
			bounds = append(bounds, bound{p: s, end: e})
		}
	}
	targets := []string{"", "a", "a\x00\x00", "a\xff", "b", "\xff"}
	if r.Thorough() {
		targets = []string{"", "\x00\x00", "a", "a\x00\x00", "aa", "a\xff", "a\xff\xff", "b", "\xff", "\xff\xff\xff"}
	}
	n := 1 << uint(len(uni))
	variants := []string{"gtreap", "boltdb", "goleveldb", "badger", "goleveldb+compact"}
	engines(variants, func(variant string) {
		name := strings.Split(variant, "+")[0]
		p := newPool(r, name)
		rep.Par(n, func(mask int) {
			if r.Stop() {
				return
			}
			m := eng.Model{}
			for i, k := range uni {
				if mask&(1<<uint(i)) != 0 {
					m[k] = fmt.Sprintf("v%d", i)
					if i == 2 {
						m[k] = ""
					}
				}
			}
			depth := 2
			small := mask == n-1 || mask == 0 || mask == 0x55&(n-1)
			if small && r.Thorough() {
				depth = 3
			}
			p.runCase(fmt.Sprintf("%s/%d", variant, mask), func(d *db) string {
				if err := eng.Put(d.s, m); err != nil {
					return err.Error()
				}
				if variant != name {
					if err := d.s.(interface{ Compact() error }).Compact(); err != nil {
						return err.Error()
					}
				}
				rd, err := d.s.Reader()
				if err != nil {
					return err.Error()
				}
				defer rd.Close()
				for _, b := range bounds {
					if msg := iterPrograms(rd, m, b, targets, depth, 2, r); msg != "" {
						return msg
					}
					r.State(fmt.Sprint(variant, mask, b))
				}
				return ""
			})
			r.Sample(func() interface{} { return map[string]string{"engine": variant, "contents": m.String()} })
		})
		// many keys: more entries than any internal batching (treap channel, badger prefetch, leveldb blocks, bolt pages)
		big := eng.Model{}
		for i := 0; i < r.Pick(1500, 6000); i++ {
			big[fmt.Sprintf("k%05d", i)] = strings.Repeat("x", i%7*i%50)
		}
		p.runCase(variant+"/big", func(d *db) string {
			if err := eng.Put(d.s, big); err != nil {
				return err.Error()
			}
			if variant != name {
				if err := d.s.(interface{ Compact() error }).Compact(); err != nil {
					return err.Error()
				}
			}
			rd, err := d.s.Reader()
			if err != nil {
				return err.Error()
			}
			defer rd.Close()
			for _, b := range []bound{{}, {prefix: true, p: []byte("k")}, {prefix: true, p: []byte("k00")}, {prefix: true, p: []byte("k009")}, {p: []byte("k00100"), end: []byte("k01100")}, {p: []byte("k00999x")}, {end: []byte("k00500")}} {
				if msg := iterPrograms(rd, big, b, []string{"k00099", "k00100", "k01099", "k00500x", "z"}, 1, 2, r); msg != "" {
					if len(msg) > 1000 {
						msg = "..." + msg[len(msg)-1000:]
					}
					return msg
				}
			}
			return ""
		})
		// as many, each with two keys that extend it
		chain := eng.Model{}
		for i := 0; i < r.Pick(1100, 4000); i++ {
			k := fmt.Sprintf("c%05d", i)
			chain[k], chain[k+"\x00"], chain[k+"\x00\x00"] = "1", "2", "3"
		}
		p.runCase(variant+"/chain", func(d *db) string {
			if err := eng.Put(d.s, chain); err != nil {
				return err.Error()
			}
			if variant != name {
				if err := d.s.(interface{ Compact() error }).Compact(); err != nil {
					return err.Error()
				}
			}
			rd, err := d.s.Reader()
			if err != nil {
				return err.Error()
			}
			defer rd.Close()
			for _, b := range []bound{{}, {p: []byte("c00000\x00")}, {p: []byte("c00000\x00\x00")}, {p: []byte("c00001"), end: []byte("d")}, {prefix: true, p: []byte("c")}, {prefix: true, p: []byte("c00")}} {
				if msg := iterPrograms(rd, chain, b, nil, 0, 0, r); msg != "" {
					if len(msg) > 1000 {
						msg = "..." + msg[len(msg)-1000:]
					}
					return msg
				}
			}
			return ""
		})
		longKeys(r, p, variant, name)
		twoIterators(r, p, variant, name)
		p.closeAll()
	})
	r.Finish()
}

// longKeys: contents of long keys that share long beginnings, values of all sizes, and every bound among them.
func longKeys(r *rep.R, p *pool, variant, name string) {
	ns := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096}
	rep.Par(len(ns), func(i int) {
		n := ns[i]
		if r.Stop() {
			return
		}
		for _, fill := range []string{"k", "\xff", "\x00"} {
			if name == "boltdb" && n > 1025 && fill == "\xff" {
				continue // one is enough for the largest
			}
			base := strings.Repeat(fill, n)
			m := eng.Model{}
			ks := []string{base[:n-1], base, base + "\x00", base + "k", base + "ka", base + "l", base + "\xff", base + fill, "j" + base, base[:n-1] + "\x01"}
			for j, k := range ks {
				m[k] = strings.Repeat("v", []int{0, 1, 31, 32, 33, 200, 1 << 10, 5000, 70000, 2}[(i+j)%10])
			}
			p.runCase(fmt.Sprintf("%s/long/%d/%q", variant, n, fill), func(d *db) string {
				if err := eng.Put(d.s, m); err != nil {
					return err.Error()
				}
				if variant != name {
					if err := d.s.(interface{ Compact() error }).Compact(); err != nil {
						return err.Error()
					}
				}
				rd, err := d.s.Reader()
				if err != nil {
					return err.Error()
				}
				defer rd.Close()
				for a := range ks {
					var bs []bound
					bs = append(bs, bound{prefix: true, p: []byte(ks[a])}, bound{p: []byte(ks[a])}, bound{end: []byte(ks[a])})
					for b := range ks {
						bs = append(bs, bound{p: []byte(ks[a]), end: []byte(ks[b])})
					}
					for _, b := range bs {
						if msg := iterPrograms(rd, m, b, []string{ks[1], ks[3], ks[7], "z"}, 1, 1, r); msg != "" {
							return cut(msg)
						}
					}
				}
				return ""
			})
		}
	})
}

// twoIterators: every interleaving of programs of up to three steps on two iterators of one reader, the first of which
// may be closed in between.
func twoIterators(r *rep.R, p *pool, variant, name string) {
	m := eng.Model{"a": "1", "a\x00": "2", "aa": "", "ab": "4", "b": "5", "c": "6"}
	bs := []bound{{}, {prefix: true, p: []byte("a")}, {p: []byte("a\x00"), end: []byte("b")}, {prefix: true, p: []byte("aa")}, {p: []byte("ab")}}
	rep.Par(len(bs)*len(bs), func(i int) {
		if r.Stop() {
			return
		}
		p.runCase(fmt.Sprintf("%s/two/%d", variant, i), func(d *db) string {
			if err := eng.Put(d.s, m); err != nil {
				return err.Error()
			}
			if variant != name {
				if err := d.s.(interface{ Compact() error }).Compact(); err != nil {
					return err.Error()
				}
			}
			rd, err := d.s.Reader()
			if err != nil {
				return err.Error()
			}
			defer rd.Close()
			b := []bound{bs[i%len(bs)], bs[i/len(bs)]}
			var msg string
			// 0, 1: Next; 2, 3: Seek; 4, 5: closed and opened again; 6, 7: Get in between
			depth := r.Pick(3, 4)
			product(8, depth, func(ix []int) bool {
				its := []store.KVIterator{b[0].open(rd), b[1].open(rd)}
				mis := []*mIter{newMIter(b[0], m), newMIter(b[1], m)}
				defer func() {
					its[0].Close()
					its[1].Close()
				}()
				for _, o := range ix {
					w := o % 2
					switch o / 2 {
					case 0:
						its[w].Next()
						mis[w].next()
					case 1:
						t := []string{"ab", "a"}[w]
						its[w].Seek([]byte(t))
						mis[w].seek(t)
					case 2:
						its[w].Close()
						its[w] = b[w].open(rd)
						mis[w] = newMIter(b[w], m)
					case 3:
						k := []string{"ab", "nothing"}[w]
						if v, err := rd.Get([]byte(k)); err != nil || string(v) != m[k] {
							msg = fmt.Sprintf("Get(%q) = %q, %v", k, v, err)
							return false
						}
					}
					for w := range its {
						if c := cmpIter(its[w], mis[w], m); c != "" {
							msg = fmt.Sprintf("contents %v, iterators %v and %v of one reader, after the steps %v (even: the first, odd: the second; 0-1 Next, 2-3 Seek, 4-5 closed and opened again, 6-7 Get): iterator %d: %s", m, b[0], b[1], ix, w+1, c)
							return false
						}
					}
					r.Trans(1)
				}
				r.Trace(1)
				return true
			})
			return msg
		})
	})
}
