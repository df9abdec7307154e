package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
)

type compactor interface {
	Compact() error
	CompactWithBatchSize(n int) error
}

// compacted is the model: rows under "d" with a value of one zero byte disappear.
func compacted(m eng.Model) eng.Model {
	n := eng.Model{}
	for k, v := range m {
		if !(strings.HasPrefix(k, "d") && v == "\x00") {
			n[k] = v
		}
	}
	return n
}

// compactOnce compacts with the batch size (-100: the default) while a reader opened before stays open.
func compactOnce(d *db, m eng.Model, bs int, keys []string, reader bool) string {
	if err := eng.Put(d.s, m); err != nil {
		return err.Error()
	}
	c := d.s.(compactor)
	var before store.KVReader
	var it store.KVIterator
	if reader {
		var err error
		before, err = d.s.Reader()
		if err != nil {
			return err.Error()
		}
		it = before.PrefixIterator([]byte("d"))
	}
	st := m
	for round := 0; round < 2; round++ { // a second compaction has nothing left to do
		var err error
		if bs == -100 {
			err = c.Compact()
		} else {
			err = c.CompactWithBatchSize(bs)
		}
		if err != nil {
			return fmt.Sprintf("round %d: %v", round, err)
		}
		st = compacted(st)
		if msg := eng.Check(d.s, st, keys); msg != "" {
			return cut(fmt.Sprintf("round %d: %s", round, msg))
		}
		if bs != -100 && !reader {
			break
		}
	}
	if before != nil {
		if msg := eng.CheckReader(before, m, keys); msg != "" {
			return cut("a reader opened before the compaction: " + msg)
		}
		n := 0
		for {
			k, v, ok := it.Current()
			if !ok {
				break
			}
			if w, ok := m[string(k)]; !ok || w != string(v) || !strings.HasPrefix(string(k), "d") {
				return fmt.Sprintf("an iterator opened before the compaction shows %q=%q", k, v)
			}
			n++
			it.Next()
		}
		want := 0
		for k := range m {
			if strings.HasPrefix(k, "d") {
				want++
			}
		}
		if n != want {
			return fmt.Sprintf("an iterator opened before the compaction shows %d of %d entries", n, want)
		}
		it.Close()
		before.Close()
	}
	// the store still takes batches
	next := st.Clone()
	next["dnew"] = "\x00"
	if err := eng.Put(d.s, eng.Model{"dnew": "\x00"}); err != nil {
		return err.Error()
	}
	if msg := eng.Check(d.s, next, keys); msg != "" {
		return cut("after the next batch: " + msg)
	}
	return ""
}

func s10() {
	r := rep.New("S10", "model_checking", "every subset of nine kinds of entries (dictionary rows with zero, zero-zero, one and empty values, the bare prefix, neighbours of the prefix) x batch sizes around the number of rows (including zero and negative), with and without a reader and an iterator opened before, plus row counts around the default batch sizes, long keys and every one-byte value and many long ones; contents before and after are compared with the model, and a compaction that does not return is a violation")
	entries := [][2]string{{"d", "\x00"}, {"d\x00", "\x00"}, {"da", "\x00"}, {"db", "\x00\x00"}, {"dc", ""}, {"dd", "\x00"}, {"d\xff", "\x01"}, {"c\xff", "\x00"}, {"e", "\x00"}}
	keys := []string{"", "D", "dz"}
	for _, e := range entries {
		keys = append(keys, e[0])
	}
	sizes := []int{0, 1, 2, 3, 4, 5, 100, -1}
	ns := []int{0, 1, 2, 49, 50, 51, 98, 99, 100, 101, 102, 199, 200, 201, 249, 250, 251, 499, 500, 501, 502, 750, 751}
	if r.Thorough() {
		ns = append(ns, 999, 1000, 1001, 2500, 5000, 20000)
	}
	engines([]string{"boltdb", "goleveldb"}, func(name string) {
		p := newPool(r, name)
		type job struct {
			m      eng.Model
			bs     int
			reader bool
			key    string
		}
		var jobs []job
		for sub := 0; sub < 1<<uint(len(entries)); sub++ {
			m := eng.Model{}
			rows := 0
			for i, e := range entries {
				if sub>>uint(i)&1 == 1 {
					m[e[0]] = e[1]
					if len(compacted(eng.Model{e[0]: e[1]})) == 0 {
						rows++
					}
				}
			}
			for _, bs := range append(sizes, -100) {
				for _, rd := range []bool{false, true} {
					// batch sizes beyond the number of rows behave alike: keep one of them
					if bs > rows+1 && bs != 100 {
						continue
					}
					jobs = append(jobs, job{m, bs, rd, fmt.Sprintf("%s/%b/%d/%v", name, sub, bs, rd)})
				}
			}
		}
		// entries are interleaved so that batches end at rows of every kind
		for _, n := range ns {
			for _, bs := range []int{0, 1, 7, 99, 100, 101, 250, -100} {
				if bs == 1 && n > 60 || bs == 7 && n > 300 {
					continue
				}
				m := eng.Model{"c": "\x00", "e": "\x00"}
				for i := 0; i < n; i++ {
					m[fmt.Sprintf("d%05d", i)] = "\x00"
					if i%3 == 0 {
						m[fmt.Sprintf("d%05dx", i)] = "\x05"
					}
				}
				jobs = append(jobs, job{m, bs, n%2 == 0, fmt.Sprintf("%s/n%d/%d", name, n, bs)})
			}
		}
		// dictionary rows with long keys, and values of every length and byte
		for _, n := range []int{1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096} {
			for _, fill := range []string{"k", "\x00", "\xff", "d"} {
				m := eng.Model{}
				base := "d" + strings.Repeat(fill, n)
				for i, v := range []string{"\x00", "\x01", "\x00", "\x00\x00", "", "\x00"} {
					m[base+fmt.Sprint(i)] = v
					m[base[1:]+fmt.Sprint(i)] = v
				}
				m[base], m[base[:n]] = "\x00", "\x00"
				for _, bs := range []int{1, 2, 3, -100} {
					jobs = append(jobs, job{m, bs, n%2 == 0, fmt.Sprintf("%s/long%d/%q/%d", name, n, fill, bs)})
				}
			}
		}
		for _, bs := range []int{1, 10, 100, -100} {
			m := eng.Model{}
			for i := 0; i < 256; i++ {
				m[fmt.Sprintf("dv%03d", i)] = string([]byte{byte(i)})
				m[string([]byte{byte(i)})] = "\x00"
				m[string([]byte{'d', byte(i), 'x'})] = "\x00"
				m[fmt.Sprintf("dz%03d", i)] = strings.Repeat("\x00", i)
				m[fmt.Sprintf("dy%03d", i)] = strings.Repeat("\x80", i) + "\x00"
				m[fmt.Sprintf("dx%03d", i)] = "\x00" + strings.Repeat("x", i)
			}
			jobs = append(jobs, job{m, bs, true, fmt.Sprintf("%s/values/%d", name, bs)})
		}
		// bolt waits up to 10 ms per pass: many stores at once
		var wg sync.WaitGroup
		ch := make(chan job, len(jobs))
		for _, j := range jobs {
			ch <- j
		}
		close(ch)
		for w := 0; w < 48; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				local := map[uint64]struct{}{}
				for j := range ch {
					if r.Stop() {
						break
					}
					j := j
					p.runCase(j.key, func(d *db) string {
						r.Trace(1)
						r.Trans(1)
						local[rep.Hash(name+j.m.String())] = struct{}{}
						if msg := compactOnce(d, j.m, j.bs, keys, j.reader); msg != "" {
							return fmt.Sprintf("contents %s, batch size %d (-100: Compact()), reader open: %v: %s", cut(j.m.String()), j.bs, j.reader, msg)
						}
						return ""
					})
					r.Sample(func() interface{} {
						return map[string]interface{}{"engine": name, "contents": cut(j.m.String()), "batch_size": j.bs, "reader": j.reader}
					})
				}
				r.States(local)
			}()
		}
		wg.Wait()
		p.closeAll()
	})
	r.Finish()
}
