package main

import (
	"fmt"
	"strings"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
)

type snap struct {
	rd  store.KVReader
	m   eng.Model
	its []*openIter
	id  int
}

type openIter struct {
	it store.KVIterator
	mi *mIter
	b  bound
}

const (
	aBatch1 = iota
	aBatch2
	aBatch3
	aOpen
	aIter
	aStep
	aClose
	aSeek
	aBig
	aCompact
	aMerge
	aIterOld
)

var actNames = []string{"batch1", "batch2", "batch3", "open", "iter", "next", "close", "seek", "bigbatch", "compact", "merge", "iter on the oldest reader"}

// isolation runs one interleaving. eager: everything every reader shows is compared after every action; otherwise only
// at the end (so that nothing a comparison may cache can hide a leak of later writes).
func isolation(r *rep.R, d *db, acts []int, eager bool, local map[uint64]struct{}) string {
	st := eng.Model{"a": "0", "aa": "0", "b": "0", "d1": "\x00"}
	if err := eng.Put(d.s, st); err != nil {
		return err.Error()
	}
	keys := []string{"a", "aa", "b", "c", "d1", "zz"}
	var open []*snap
	var its []*openIter // all iterators, oldest first
	nOpen := 0
	defer func() {
		for _, it := range its {
			it.it.Close()
		}
		for _, s := range open {
			s.rd.Close()
		}
	}()
	w, err := d.s.Writer()
	if err != nil {
		return err.Error()
	}
	defer w.Close()
	checkAll := func() string {
		for _, s := range open {
			if msg := eng.CheckReader(s.rd, s.m, keys); msg != "" {
				return fmt.Sprintf("reader %d: %s", s.id, msg)
			}
			it := s.rd.PrefixIterator([]byte("a"))
			mi := newMIter(bound{prefix: true, p: []byte("a")}, s.m)
			for i := 0; i <= len(mi.keys)+1; i++ {
				if msg := cmpIter(it, mi, s.m); msg != "" {
					it.Close()
					return fmt.Sprintf("reader %d: a new prefix iterator: %s", s.id, msg)
				}
				it.Next()
				mi.next()
			}
			it.Close()
			for _, o := range s.its {
				if msg := cmpIter(o.it, o.mi, s.m); msg != "" {
					return fmt.Sprintf("reader %d: open %v: %s", s.id, o.b, msg)
				}
			}
		}
		return ""
	}
	var done []string
	fail := func(msg string) string {
		return fmt.Sprintf("[%s] %s", strings.Join(done, " "), msg)
	}
	for i, a := range acts {
		done = append(done, actNames[a])
		tag := fmt.Sprint("s", i)
		switch a {
		case aBatch1, aBatch2, aBatch3, aBig, aMerge:
			b := w.NewBatch()
			switch a {
			case aBatch1:
				b.Set([]byte("a"), []byte(tag))
				b.Set([]byte("b"), []byte(tag+"b"))
				st["a"], st["b"] = tag, tag+"b"
			case aBatch2:
				b.Delete([]byte("a"))
				b.Set([]byte("aa"), []byte(tag))
				b.Delete([]byte("b"))
				delete(st, "a")
				delete(st, "b")
				st["aa"] = tag
			case aBatch3:
				b.Set([]byte("c"), []byte(tag))
				b.Delete([]byte("aa"))
				b.Set([]byte("d1"), []byte{0})
				st["c"], st["d1"] = tag, "\x00"
				delete(st, "aa")
			case aMerge:
				for _, k := range []string{"a", "aa"} {
					b.Merge([]byte(k), []byte(tag))
					old, ok := st[k]
					st[k] = string(eng.MergeResult([]byte(old), ok, [][]byte{[]byte(tag)}))
				}
			case aBig:
				for j := 0; j < 150; j++ {
					k := fmt.Sprintf("m%03d", j)
					b.Set([]byte(k), []byte(tag))
					st[k] = tag
				}
			}
			if err := w.ExecuteBatch(b); err != nil {
				return fail("unexpected error: " + err.Error())
			}
			b.Close()
			// a reader opened after the batch returned sees all of it
			if msg := eng.Check(d.s, st, keys); msg != "" {
				return fail("new reader: " + msg)
			}
		case aOpen:
			rd, err := d.s.Reader()
			if err != nil {
				return fail("unexpected error: " + err.Error())
			}
			nOpen++
			open = append(open, &snap{rd: rd, m: st.Clone(), id: nOpen})
		case aIter, aIterOld:
			s := open[len(open)-1]
			if a == aIterOld {
				s = open[0]
			}
			b := bound{}
			if len(its)%2 == 1 {
				b = bound{prefix: true, p: []byte("a")}
			}
			o := &openIter{it: b.open(s.rd), mi: newMIter(b, s.m), b: b}
			s.its = append(s.its, o)
			its = append(its, o)
		case aStep:
			its[0].it.Next()
			its[0].mi.next()
		case aSeek:
			its[0].it.Seek([]byte("a"))
			its[0].mi.seek("a")
		case aClose:
			s := open[0]
			open = open[1:]
			for _, o := range s.its {
				o.it.Close()
			}
			var rest []*openIter
			for _, o := range its {
				own := false
				for _, x := range s.its {
					own = own || x == o
				}
				if !own {
					rest = append(rest, o)
				}
			}
			its = rest
			if err := s.rd.Close(); err != nil {
				return fail("Reader.Close: " + err.Error())
			}
		case aCompact:
			if err := d.s.(interface{ Compact() error }).Compact(); err != nil {
				return fail("unexpected error: " + err.Error())
			}
			for k, v := range st {
				if strings.HasPrefix(k, "d") && v == "\x00" {
					delete(st, k)
				}
			}
		}
		r.Trans(1)
		local[rep.Hash(fmt.Sprint(d.eng, st, len(open), len(its)))] = struct{}{}
		if eager {
			if msg := checkAll(); msg != "" {
				return fail(msg)
			}
		} else if a == aStep || a == aSeek {
			// the moved iterator is compared in any case
			for _, s := range open {
				for _, o := range s.its {
					if o == its[0] {
						if msg := cmpIter(o.it, o.mi, s.m); msg != "" {
							return fail(fmt.Sprintf("reader %d: open %v: %s", s.id, o.b, msg))
						}
					}
				}
			}
		}
	}
	if msg := checkAll(); msg != "" {
		return fail("at the end: " + msg)
	}
	return ""
}

// interleavings lists the feasible action sequences of exactly length n that open a reader and write after it.
func interleavings(alpha []int, n, maxOpen, maxIter int) [][]int {
	var out [][]int
	var rec func(p []int, open []int, wrote bool)
	rec = func(p []int, open []int, wrote bool) {
		if len(p) == n {
			if wrote {
				out = append(out, append([]int{}, p...))
			}
			return
		}
		total := 0
		for _, o := range open {
			total += o
		}
		for _, a := range alpha {
			no := append([]int{}, open...)
			nw := wrote
			switch a {
			case aOpen:
				if len(open) >= maxOpen {
					continue
				}
				no = append(no, 0)
			case aIter:
				if len(open) == 0 || total >= maxIter {
					continue
				}
				no[len(no)-1]++
			case aIterOld:
				if len(open) < 2 || total >= maxIter {
					continue
				}
				no[0]++
			case aStep, aSeek:
				if total == 0 {
					continue
				}
			case aClose:
				if len(open) == 0 || n-len(p) == 1 {
					continue
				}
				no = no[1:]
			default:
				nw = nw || len(open) > 0
			}
			rec(append(p, a), no, nw)
		}
	}
	rec(nil, nil, false)
	return out
}

func s03() {
	r := rep.New("S03", "model_checking", "every feasible interleaving, up to the stated length, of three different batches of sets and deletes, a batch of merges, reader opens (up to three), iterator creations (two at most), steps, seeks and reader closes, and with compactions and large batches in a second family; each reader and iterator is compared with the model of the moment it was opened, after every action and in a second run only at the end; up to 120 readers of different states open at once, closed in three orders")
	base := []int{aBatch1, aBatch2, aBatch3, aMerge, aOpen, aIter, aStep, aClose}
	main1 := interleavings(base, r.Pick(6, 7), 2, 2)
	main2 := interleavings([]int{aBatch1, aMerge, aBatch2, aOpen, aIter, aStep, aSeek}, r.Pick(6, 7), 1, 1)
	// several readers, and iterators created late on old ones
	main3 := interleavings([]int{aBatch1, aBatch2, aOpen, aIterOld, aIter, aStep, aClose}, r.Pick(6, 7), 3, 2)
	comp := interleavings([]int{aBatch2, aBatch3, aOpen, aIter, aStep, aCompact, aBig}, r.Pick(4, 5), 1, 1)
	compLong := interleavings([]int{aBatch2, aBatch3, aOpen, aIter, aStep, aCompact, aBig}, r.Pick(5, 6), 2, 1)
	big := interleavings([]int{aBatch2, aOpen, aIter, aStep, aBig}, r.Pick(5, 6), 2, 1)
	r.Extra["interleavings"] = len(main1) + len(main2) + len(main3)
	engines(eng.Names, func(name string) {
		p := newPool(r, name)
		fam := func(f string, list [][]int) {
			shard(r, len(list)*2, func(i int, local map[uint64]struct{}) {
				acts, eager := list[i/2], i%2 == 0
				p.runCase(fmt.Sprintf("%s/%s/%d", name, f, i), func(d *db) string { return isolation(r, d, acts, eager, local) })
				r.Trace(1)
				r.Sample(func() interface{} {
					var s []string
					for _, a := range acts {
						s = append(s, actNames[a])
					}
					return map[string]interface{}{"engine": name, "actions": s, "compare_after_every_action": eager}
				})
			})
		}
		fam("main", main1)
		fam("seek", main2)
		fam("old", main3)
		fam("big", big)
		switch name {
		case "boltdb":
			fam("compact", comp)
		case "goleveldb":
			fam("compact", compLong)
		}
		for _, n := range []int{1100, 5000, r.Pick(12000, 100000)} {
			n := n
			p.runCase(fmt.Sprintf("%s/busy/%d", name, n), func(d *db) string { return busyReader(r, d, n) })
		}
		counts := []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 120}
		rep.Par(len(counts)*12, func(i int) {
			if r.Stop() {
				return
			}
			n, order, per := counts[i/12], i/4%3, i%4
			p.runCase(fmt.Sprintf("%s/readers/%d/%d/%d", name, n, order, per), func(d *db) string { return manyReaders(r, d, n, order, per) })
			r.Trace(1)
		})
		p.closeAll()
	})
	r.Finish()
}

// busyReader uses one reader for a long time while the contents change.
func busyReader(r *rep.R, d *db, n int) string {
	st := eng.Model{"a": "0", "b": "0", "ab": ""}
	if err := eng.Put(d.s, st); err != nil {
		return err.Error()
	}
	rd, err := d.s.Reader()
	if err != nil {
		return err.Error()
	}
	defer rd.Close()
	if err := eng.Put(d.s, eng.Model{"a": "1", "c": "1"}); err != nil {
		return err.Error()
	}
	keys := []string{"a", "b", "c", "ab"}
	for i := 0; i < n; i++ {
		k := keys[i%4]
		v, err := rd.Get([]byte(k))
		if err != nil {
			return err.Error()
		}
		if w, ok := st[k]; ok != (v != nil) || string(v) != w {
			return fmt.Sprintf("read %d: Get(%q) = %q, the reader was opened with %v", i, k, v, st)
		}
		if i%16 == 0 {
			if msg := eng.CheckReader(rd, st, keys); msg != "" {
				return fmt.Sprintf("after %d reads: %s", i, msg)
			}
		}
		if i%(n/8) == 5 {
			if err := eng.Put(d.s, eng.Model{"a": fmt.Sprint(i), "c": fmt.Sprint(i), fmt.Sprint("ab", i): "x"}); err != nil {
				return err.Error()
			}
		}
		if i%(n/3) == 7 {
			if c, ok := d.s.(interface{ Compact() error }); ok {
				if err := c.Compact(); err != nil {
					return err.Error()
				}
			}
		}
	}
	r.Trans(n)
	r.Trace(1)
	// one iterator going on and on
	it := rd.PrefixIterator([]byte("a"))
	defer it.Close()
	for i := 0; i < n; i++ {
		w := [][2]string{{"a", "0"}, {"ab", ""}}
		k, v, ok := it.Current()
		if i%3 == 2 {
			if ok {
				return fmt.Sprintf("step %d of an iterator: %q instead of the end", i, k)
			}
			it.Seek([]byte("a"))
			continue
		}
		if !ok || string(k) != w[i%3][0] || string(v) != w[i%3][1] {
			return fmt.Sprintf("step %d of an iterator: %q=%q (%v) instead of %q", i, k, v, ok, w[i%3])
		}
		it.Next()
	}
	r.Trans(n)
	return ""
}

// manyReaders keeps n readers, each opened in another state (per 0-1: a batch before each; 2: every third; 3: also an
// iterator on each), and closes them oldest first, newest first or every other one; all those open are compared.
func manyReaders(r *rep.R, d *db, n, order, per int) string {
	st := eng.Model{"a": "0", "b": "0"}
	if err := eng.Put(d.s, st); err != nil {
		return err.Error()
	}
	keys := []string{"a", "b", "c", "zz"}
	var open []*snap
	defer func() {
		for _, s := range open {
			for _, o := range s.its {
				o.it.Close()
			}
			s.rd.Close()
		}
	}()
	check := func(what string) string {
		for _, s := range open {
			if msg := eng.CheckReader(s.rd, s.m, keys); msg != "" {
				return fmt.Sprintf("%s, reader %d of %d: %s", what, s.id, n, msg)
			}
			for _, o := range s.its {
				if msg := cmpIter(o.it, o.mi, s.m); msg != "" {
					return fmt.Sprintf("%s, iterator of reader %d of %d: %s", what, s.id, n, msg)
				}
				o.it.Next()
				o.mi.next()
			}
		}
		r.Trans(len(open))
		return ""
	}
	change := func(i int) string {
		b := eng.Model{"a": fmt.Sprint("a", i), fmt.Sprintf("n%03d", i): "x"}
		if i%5 == 3 {
			b["c"] = fmt.Sprint("c", i)
		}
		if err := eng.Put(d.s, b); err != nil {
			return err.Error()
		}
		for k, v := range b {
			st[k] = v
		}
		return ""
	}
	for i := 0; i < n; i++ {
		if per != 2 || i%3 == 0 {
			if msg := change(i); msg != "" {
				return msg
			}
		}
		rd, err := d.s.Reader()
		if err != nil {
			return err.Error()
		}
		s := &snap{rd: rd, m: st.Clone(), id: i}
		if per == 3 {
			b := bound{prefix: i%2 == 0}
			s.its = append(s.its, &openIter{it: b.open(rd), mi: newMIter(b, s.m), b: b})
		}
		open = append(open, s)
		if per == 1 && len(open) == 6 { // never more than six at once
			x := open[0]
			if order == 1 {
				x = open[5]
				open = open[:5]
			} else {
				open = open[1:]
			}
			if err := x.rd.Close(); err != nil {
				return err.Error()
			}
			if msg := check(fmt.Sprintf("after closing reader %d", x.id)); msg != "" {
				return msg
			}
		}
	}
	if msg := check("all open"); msg != "" {
		return msg
	}
	for i := 0; len(open) > 0; i++ {
		at := 0
		switch order {
		case 1:
			at = len(open) - 1
		case 2:
			at = i % len(open)
		}
		s := open[at]
		open = append(open[:at:at], open[at+1:]...)
		for _, o := range s.its {
			o.it.Close()
		}
		if err := s.rd.Close(); err != nil {
			return err.Error()
		}
		if i%4 == 0 {
			if msg := change(1000 + i); msg != "" {
				return msg
			}
		}
		if i < 5 || i%9 == 0 {
			if msg := check(fmt.Sprintf("after closing %d readers", i+1)); msg != "" {
				return msg
			}
		}
	}
	return eng.Check(d.s, st, keys)
}
