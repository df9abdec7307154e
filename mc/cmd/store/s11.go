package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/akhenakh/oureadb/store"
	"github.com/dgraph-io/badger"
	"github.com/syndtr/goleveldb/leveldb"

	"verif/mc/eng"
	"verif/mc/rep"
)

// libDB finds the library's database inside a store, by its type.
func libDB(s store.KVStore) interface{} {
	v := reflect.ValueOf(s)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || !v.CanAddr() {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Type() {
		case reflect.TypeOf((*leveldb.DB)(nil)), reflect.TypeOf((*badger.DB)(nil)):
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
		}
	}
	return nil
}

// badgerMarks reads the numbers of the newest read begun and of the one below which all are done, and of open updates.
func badgerMarks(db *badger.DB) (last, done uint64, refs int64, ok bool) {
	orc := reflect.ValueOf(db).Elem().FieldByName("orc")
	if !orc.IsValid() || orc.Kind() != reflect.Ptr || orc.IsNil() {
		return
	}
	rm, rc := orc.Elem().FieldByName("readMark"), orc.Elem().FieldByName("refCount")
	if !rm.IsValid() || !rc.IsValid() || rm.IsNil() {
		return
	}
	l, d := rm.Elem().FieldByName("lastIndex"), rm.Elem().FieldByName("doneUntil")
	if !l.IsValid() || !d.IsValid() {
		return
	}
	u := func(v reflect.Value) uint64 { return atomic.LoadUint64((*uint64)(unsafe.Pointer(v.UnsafeAddr()))) }
	return u(l), u(d), int64(u(rc)), true
}

// openTx is the number of open read transactions in the statistics of the store, if they have it.
func openTx(s store.KVStore) (int, bool) {
	st, ok := s.(interface{ Stats() json.Marshaler })
	if !ok {
		return 0, false
	}
	b, err := st.Stats().MarshalJSON()
	if err != nil {
		return 0, false
	}
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return 0, false
	}
	n, ok := m["OpenTxN"].(float64)
	return int(n), ok
}

// held says what the store still holds although every handle was closed; observed is false when the engine shows nothing.
func held(s store.KVStore) (msg string, observed bool) {
	if n, ok := openTx(s); ok {
		observed = true
		if n != 0 {
			return fmt.Sprintf("%d read transactions are still open", n), true
		}
	}
	switch db := libDB(s).(type) {
	case *leveldb.DB:
		observed = true
		for _, p := range []string{"leveldb.aliveiters", "leveldb.alivesnaps"} {
			// the library lets go of them in the background
			for try := 0; ; try++ {
				v, err := db.GetProperty(p)
				if err != nil {
					return p + ": " + err.Error(), true
				}
				if v == "0" {
					break
				}
				if try == 400 {
					return fmt.Sprintf("%s is still %s", p, v), true
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
	case *badger.DB:
		for try := 0; ; try++ {
			last, done, refs, ok := badgerMarks(db)
			if !ok {
				return
			}
			observed = true
			if last <= done && refs == 0 {
				break
			}
			if try == 400 {
				return fmt.Sprintf("transactions are still open (last read %d, done until %d, updates %d)", last, done, refs), true
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	return "", observed
}

// openFiles counts the open files of this process under a directory.
func openFiles(dir string) (int, string) {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0, ""
	}
	n, which := 0, ""
	for _, d := range ds {
		t, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err == nil && strings.HasPrefix(t, dir+"/") {
			n++
			which += " " + filepath.Base(strings.TrimSuffix(t, " (deleted)"))
		}
	}
	return n, which
}

type s11iter struct {
	it store.KVIterator
	rd int
}

// s11world is a store with what is open on it.
type s11world struct {
	s   store.KVStore
	eng string
	w   store.KVWriter
	rds []store.KVReader // nil: closed
	its []s11iter        // it nil: closed
	log []string
}

var s11acts = []string{"open reader", "prefix iterator", "range iterator", "walk to the end", "seek", "close newest iterator", "close oldest iterator", "close oldest reader", "close newest reader", "batch", "refused batch", "foreign batch", "unused batch", "compact", "get", "empty batch", "panicking batch"}

func (x *s11world) lastReader() int {
	for i := len(x.rds) - 1; i >= 0; i-- {
		if x.rds[i] != nil {
			return i
		}
	}
	return -1
}

func (x *s11world) openIters() []int {
	var o []int
	for i := range x.its {
		if x.its[i].it != nil {
			o = append(o, i)
		}
	}
	return o
}

func (x *s11world) free(rd int) bool {
	for _, i := range x.openIters() {
		if x.its[i].rd == rd {
			return false
		}
	}
	return true
}

func (x *s11world) openReaders() []int {
	var o []int
	for i := range x.rds {
		if x.rds[i] != nil {
			o = append(o, i)
		}
	}
	return o
}

// feasible tells whether the action makes sense in the abstract state (readers with numbers of iterators).
type s11abs struct {
	rds []int // open iterators of each open reader
	its []int // reader (position in rds) of each open iterator, oldest first
}

func (a s11abs) next(act int) (s11abs, bool) {
	b := s11abs{append([]int{}, a.rds...), append([]int{}, a.its...)}
	drop := func(i int) {
		b.rds = append(b.rds[:i], b.rds[i+1:]...)
		for k := range b.its {
			if b.its[k] > i {
				b.its[k]--
			}
		}
	}
	switch act {
	case 0:
		if len(b.rds) == 2 {
			return b, false
		}
		b.rds = append(b.rds, 0)
	case 1, 2:
		if len(b.rds) == 0 || len(b.its) == 2 {
			return b, false
		}
		n := len(b.rds) - 1
		b.rds[n]++
		b.its = append(b.its, n)
	case 3, 4:
		return b, len(b.its) > 0
	case 5, 6:
		if len(b.its) == 0 || act == 6 && len(b.its) == 1 {
			return b, false
		}
		i := len(b.its) - 1
		if act == 6 {
			i = 0
		}
		b.rds[b.its[i]]--
		b.its = append(b.its[:i], b.its[i+1:]...)
	case 7, 8:
		if len(b.rds) == 0 || act == 8 && len(b.rds) == 1 {
			return b, false
		}
		i := 0
		if act == 8 {
			i = len(b.rds) - 1
		}
		if b.rds[i] > 0 {
			return b, false
		}
		drop(i)
	case 14:
		return b, len(b.rds) > 0
	}
	return b, true
}

func (x *s11world) do(act int) string {
	x.log = append(x.log, s11acts[act])
	switch act {
	case 0:
		r, err := x.s.Reader()
		if err != nil {
			return "Reader: " + err.Error()
		}
		x.rds = append(x.rds, r)
	case 1, 2:
		rd := x.lastReader()
		var it store.KVIterator
		if act == 1 {
			it = x.rds[rd].PrefixIterator([]byte("a"))
		} else {
			it = x.rds[rd].RangeIterator([]byte("a"), []byte("c"))
		}
		x.its = append(x.its, s11iter{it, rd})
	case 3:
		o := x.openIters()
		it := x.its[o[len(o)-1]].it
		for n := 0; it.Valid(); n++ {
			if n > 100 {
				return "an iterator does not end"
			}
			it.Next()
		}
	case 4:
		o := x.openIters()
		x.its[o[len(o)-1]].it.Seek([]byte("ab"))
	case 5, 6:
		o := x.openIters()
		i := o[len(o)-1]
		if act == 6 {
			i = o[0]
		}
		it := x.its[i].it
		x.its[i].it = nil
		if err := it.Close(); err != nil {
			return "closing an iterator: " + err.Error()
		}
	case 7, 8:
		o := x.openReaders()
		i := o[0]
		if act == 8 {
			i = o[len(o)-1]
		}
		r := x.rds[i]
		x.rds[i] = nil
		if err := r.Close(); err != nil {
			return "closing a reader: " + err.Error()
		}
		// what is closed is gone even if other readers are open
		if n, ok := openTx(x.s); ok && n > len(x.openReaders()) {
			return fmt.Sprintf("%d readers are open, but %d read transactions", len(x.openReaders()), n)
		}
	case 9, 10, 11, 16:
		b := x.w.NewBatch()
		switch act {
		case 9:
			b.Set([]byte("aa"), []byte("1"))
			b.Delete([]byte("b"))
			b.Merge([]byte("m"), []byte("2"))
		case 10:
			b.Set([]byte("aa"), []byte("bad"))
			b.Merge([]byte("m"), []byte("2"))
			b.Merge([]byte("refuse"), []byte("2"))
		case 11:
			b.Close()
			b = foreignBatch{}
		case 16:
			b.Set([]byte("aa"), []byte("bad"))
			b.Merge([]byte("explode"), []byte("2"))
		}
		err := execBatch(x.w, b)
		if (err != nil) != (act != 9) {
			return fmt.Sprintf("ExecuteBatch: error %v", err)
		}
		if err := b.Close(); err != nil {
			return "closing a batch: " + err.Error()
		}
	case 15:
		b := x.w.NewBatch()
		if err := x.w.ExecuteBatch(b); err != nil {
			return "executing an empty batch: " + err.Error()
		}
		if err := b.Close(); err != nil {
			return "closing a batch: " + err.Error()
		}
	case 12:
		_, b, err := x.w.NewBatchEx(store.KVBatchOptions{TotalBytes: 10, NumSets: 1})
		if err != nil {
			return "NewBatchEx: " + err.Error()
		}
		b.Set([]byte("aa"), []byte("not executed"))
		if err := b.Close(); err != nil {
			return "closing a batch: " + err.Error()
		}
	case 13:
		if c, ok := x.s.(interface{ Compact() error }); ok {
			if err := c.Compact(); err != nil {
				return "Compact: " + err.Error()
			}
		}
	case 14:
		rd := x.rds[x.lastReader()]
		if _, err := rd.Get([]byte("a")); err != nil {
			return "Get: " + err.Error()
		}
		if _, err := rd.MultiGet([][]byte{[]byte("a"), []byte("zz")}); err != nil {
			return "MultiGet: " + err.Error()
		}
	}
	return ""
}

// finish closes everything, oldest or newest first.
func (x *s11world) finish(newest bool) string {
	turn := func(o []int) []int {
		if newest {
			for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
		}
		return o
	}
	for _, i := range turn(x.openIters()) {
		it := x.its[i].it
		x.its[i].it = nil
		if err := it.Close(); err != nil {
			return "closing an iterator: " + err.Error()
		}
	}
	for _, i := range turn(x.openReaders()) {
		r := x.rds[i]
		x.rds[i] = nil
		if err := r.Close(); err != nil {
			return "closing a reader: " + err.Error()
		}
	}
	return ""
}

var s11init = eng.Model{"a": "1", "ab": "2", "b": "3", "c": "4", "d\x00": "\x00", "m": "5"}

func s11mo() store.MergeOperator {
	return &eng.AppendMO{Fail: func(k []byte) bool {
		if string(k) == "explode" {
			panic(opPanic)
		}
		return string(k) == "refuse"
	}}
}

// s11run runs a program on the store and reports what is wrong afterwards.
func s11run(name string, s store.KVStore, prog []int, newest bool) (msg string) {
	x := &s11world{s: s, eng: name}
	defer func() {
		if msg != "" {
			msg = fmt.Sprintf("actions: %s\n%s", strings.Join(x.log, ", "), msg)
		}
	}()
	if err := eng.Put(s, s11init); err != nil {
		return err.Error()
	}
	w, err := s.Writer()
	if err != nil {
		return "Writer: " + err.Error()
	}
	x.w = w
	for _, a := range prog {
		if m := x.do(a); m != "" {
			return m
		}
	}
	if m := x.finish(newest); m != "" {
		return m
	}
	x.log = append(x.log, "close everything")
	if err := w.Close(); err != nil {
		return "closing a writer: " + err.Error()
	}
	m, _ := held(s)
	return m
}

// settle waits until no more than base goroutines are left and returns how many are.
func settle(base int) int {
	n := 0
	for try := 0; try < 400; try++ {
		if n = runtime.NumGoroutine(); n <= base {
			return n
		}
		if try > 20 {
			time.Sleep(5 * time.Millisecond)
		} else {
			runtime.Gosched()
		}
	}
	return n
}

// s11progs are all feasible programs of a length.
func s11progs(n int) [][]int {
	var out [][]int
	var rec func(a s11abs, p []int)
	rec = func(a s11abs, p []int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for act := range s11acts {
			if b, ok := a.next(act); ok {
				rec(b, append(p, act))
			}
		}
	}
	rec(s11abs{}, nil)
	return out
}

func s11() {
	r := rep.New("S11", "model_checking", "every feasible sequence, up to the stated length, of opening and closing readers and iterators (two of each at most), walking, seeking, reading, batches (good, refused, foreign, never executed, or whose merge operator panics, which the caller catches) and compactions; then everything left is closed, oldest or newest first; after each the engine's own accounts (open transactions, iterators, snapshots) must be empty and no goroutine may be left; shorter ones with the store closed and opened again at the end, when no goroutine, open file or lock may be left; also many handles opened and closed in every order of a set")
	progs := func(n int) [][]int {
		var all [][]int
		for k := 0; k <= n; k++ {
			all = append(all, s11progs(k)...)
		}
		return all
	}
	observed := map[string]bool{}
	for _, name := range eng.Names {
		all := progs(r.Pick(4, 5))
		if name == "goleveldb" && !r.Thorough() {
			// compaction is slow here: once in a program
			var few [][]int
			for _, p := range all {
				c := 0
				for _, a := range p {
					if a == 13 {
						c++
					}
				}
				if c == 0 || c == 1 && len(p) <= 3 {
					few = append(few, p)
				}
			}
			all = few
		}
		r.Extra["programs "+name] = len(all)
		// stores for the workers
		const workers = 8
		stores := make([]store.KVStore, workers)
		dirs := make([]string, workers)
		fresh := func(i int) bool {
			if stores[i] != nil {
				s := stores[i]
				rep.Guard(hang, func() string { s.Close(); return "" })
				os.RemoveAll(dirs[i])
			}
			dirs[i] = eng.Scratch()
			s, err := eng.Open(name, dirs[i], s11mo(), map[string]interface{}{"nosync": true})
			if err != nil {
				r.Violate(name+"/open", "%s: %v", name, err)
				return false
			}
			stores[i] = s
			if name == "boltdb" {
				eng.Put(s, eng.Model{"grow": strings.Repeat("g", 1<<20)})
				eng.Clear(s)
			}
			_, o := held(s)
			if o {
				observed[name] = true
			}
			return true
		}
		one := func(i int, key string, p []int, newest bool) bool {
			msg := rep.Guard(hang, func() string { return s11run(name, stores[i], p, newest) })
			r.Trans(len(p) + 1)
			r.Trace(1)
			if msg != "" {
				r.Violate(key, "engine %s, %s", name, msg)
				if msg == rep.Blocked {
					stores[i] = nil
				}
				fresh(i)
				return false
			}
			return true
		}
		key := func(k int, newest bool) string { return fmt.Sprintf("%s/%v/newest=%v", name, all[k], newest) }
		const chunk = 4000
		for lo := 0; lo < len(all) && !r.Stop(); lo += chunk {
			hi := lo + chunk
			if hi > len(all) {
				hi = len(all)
			}
			for i := range stores {
				if !fresh(i) {
					r.Finish()
				}
			}
			time.Sleep(20 * time.Millisecond)
			base := runtime.NumGoroutine()
			var bad int32
			rep.Par(workers, func(i int) {
				local := map[uint64]struct{}{}
				for k := lo + i; k < hi && !r.Stop(); k += workers {
					newest := k%2 == 1
					if !r.Case(key(k, newest)) {
						continue
					}
					if !one(i, key(k, newest), all[k], newest) {
						atomic.StoreInt32(&bad, 1)
					}
					if len(all[k]) <= 3 {
						one(i, key(k, !newest), all[k], !newest)
					}
					local[rep.Hash(fmt.Sprint(name, all[k]))] = struct{}{}
					r.Sample(func() interface{} {
						var acts []string
						for _, a := range all[k] {
							acts = append(acts, s11acts[a])
						}
						return map[string]interface{}{"engine": name, "actions": acts}
					})
				}
				r.States(local)
			})
			if bad != 0 {
				continue
			}
			// goroutines are counted for the whole chunk; the store itself may have a few that come and go
			slack := 4 * workers
			if n := settle(base + slack); n > base+slack {
				// which program leaves them behind?
				found := false
				for k := lo; k < hi && !found && !r.Stop(); k++ {
					if !fresh(0) {
						break
					}
					time.Sleep(10 * time.Millisecond)
					b0 := runtime.NumGoroutine()
					for rp := 0; rp < 40; rp++ {
						if !one(0, key(k, false), all[k], false) {
							break
						}
					}
					if n := settle(b0 + 20); n > b0+20 {
						found = true
						var acts []string
						for _, a := range all[k] {
							acts = append(acts, s11acts[a])
						}
						r.Violate(key(k, false), "engine %s, actions: %s, close everything\n40 repetitions of this leave %d goroutines behind", name, strings.Join(acts, ", "), n-b0)
					}
				}
				if !found {
					r.Violate(fmt.Sprintf("%s/chunk%d", name, lo), "engine %s: %d programs left %d goroutines behind", name, hi-lo, n-base)
				}
			}
		}
		for i := range stores {
			if stores[i] != nil {
				s := stores[i]
				if m := rep.Guard(hang, func() string {
					if err := s.Close(); err != nil {
						return "closing the store: " + err.Error()
					}
					return ""
				}); m != "" {
					r.Violate(fmt.Sprintf("%s/close%d", name, i), "engine %s: %s", name, m)
				}
				os.RemoveAll(dirs[i])
			}
		}
		if r.Stop() {
			break
		}
		// with the store closed and opened again
		short := progs(r.Pick(2, 3))
		base := runtime.NumGoroutine()
		rep.Par(len(short), func(k int) {
			key := fmt.Sprintf("%s/reopen/%v", name, short[k])
			if !r.Case(key) || r.Stop() {
				return
			}
			d := eng.Scratch()
			defer os.RemoveAll(d)
			msg := rep.Guard(hang, func() string {
				for round := 0; round < 2; round++ {
					s, err := eng.Open(name, d, s11mo(), nil)
					if err != nil {
						return fmt.Sprintf("opening, round %d: %v", round, err)
					}
					if name == "boltdb" {
						// its file must not have to grow while a reader is open
						if err := eng.Put(s, eng.Model{"grow": strings.Repeat("g", 1<<20)}); err != nil {
							return err.Error()
						}
						if err := eng.Clear(s); err != nil {
							return err.Error()
						}
					}
					if m := s11run(name, s, short[k], k%2 == 0); m != "" {
						return m
					}
					if err := s.Close(); err != nil {
						return "closing the store: " + err.Error()
					}
					if n, which := openFiles(d); n > 0 {
						return fmt.Sprintf("%d files are still open after Close:%s", n, which)
					}
				}
				return ""
			})
			r.Trans(2 * (len(short[k]) + 1))
			r.Trace(1)
			if msg != "" {
				r.Violate(key, "engine %s, with the store closed and opened again: %s", name, msg)
			}
		})
		slack := 8
		if n := settle(base + slack); n > base+slack && !r.Stop() {
			r.Violate(name+"/reopen/goroutines", "engine %s: %d goroutines are left after all stores were closed (%d stores)", name, n-base, 2*len(short))
		}
		// openings that fail leave nothing either
		if name != "gtreap" {
			k := name + "/refused opening"
			if r.Case(k) {
				base := runtime.NumGoroutine()
				msg := rep.Guard(hang, func() string {
					for i := 0; i < 20; i++ {
						d := eng.Scratch()
						s, err := eng.Open(name, d, s11mo(), nil)
						if err != nil {
							return err.Error()
						}
						conf := map[string]interface{}{}
						switch name {
						case "boltdb":
							conf["bucket"] = ""
						case "goleveldb":
							conf["error_if_exists"] = true
						case "badger":
							// the directory is locked by the open store
							if s2, err := eng.Open(name, d, s11mo(), nil); err == nil {
								s2.Close()
								s.Close()
								return "a database that is open was opened again"
							}
						}
						if err := s.Close(); err != nil {
							return err.Error()
						}
						if len(conf) > 0 {
							if s2, err := eng.Open(name, d, s11mo(), conf); err == nil {
								s2.Close()
								return "a refused configuration was accepted"
							}
						}
						if n, which := openFiles(d); n > 0 {
							return fmt.Sprintf("%d files are still open after a refused opening:%s", n, which)
						}
						s, err = eng.Open(name, d, s11mo(), nil)
						if err != nil {
							return "opening after a refused opening: " + err.Error()
						}
						s.Close()
						os.RemoveAll(d)
					}
					return ""
				})
				if msg == "" {
					if n := settle(base + 8); n > base+8 {
						msg = fmt.Sprintf("%d goroutines are left after refused openings", n-base)
					}
				}
				r.Trace(1)
				if msg != "" {
					r.Violate(k, "engine %s: %s", name, msg)
				}
			}
		}
		// many handles
		s11many(r, name)
	}
	r.Extra["engines whose own accounts are read"] = fmt.Sprint(observed)
	r.Finish()
}

// s11many opens many readers with iterators and closes them in three orders.
func s11many(r *rep.R, name string) {
	for _, n := range []int{10, 100, r.Pick(400, 2000)} {
		for order := 0; order < 3; order++ {
			key := fmt.Sprintf("%s/many/%d/%d", name, n, order)
			if !r.Case(key) || r.Stop() {
				continue
			}
			d := eng.Scratch()
			base := runtime.NumGoroutine()
			msg := rep.Guard(hang, func() string {
				s, err := eng.Open(name, d, s11mo(), map[string]interface{}{"nosync": true})
				if err != nil {
					return err.Error()
				}
				if err := eng.Put(s, s11init); err != nil {
					return err.Error()
				}
				var rds []store.KVReader
				var its [][]store.KVIterator
				for i := 0; i < n; i++ {
					rd, err := s.Reader()
					if err != nil {
						return err.Error()
					}
					rds = append(rds, rd)
					its = append(its, []store.KVIterator{rd.PrefixIterator([]byte("a")), rd.RangeIterator(nil, nil)})
					its[i][0].Seek([]byte("ab"))
					its[i][1].Next()
				}
				for i := 0; i < n; i++ {
					j := i
					if order == 1 {
						j = n - 1 - i
					} else if order == 2 {
						j = i * 7 % n // 7 does not divide the sizes
					}
					for _, it := range its[j] {
						if err := it.Close(); err != nil {
							return err.Error()
						}
					}
					if err := rds[j].Close(); err != nil {
						return err.Error()
					}
				}
				if m, _ := held(s); m != "" {
					return m
				}
				if err := eng.Put(s, eng.Model{"after": "1"}); err != nil {
					return err.Error()
				}
				if err := s.Close(); err != nil {
					return err.Error()
				}
				if f, which := openFiles(d); f > 0 {
					return fmt.Sprintf("%d files are still open after Close:%s", f, which)
				}
				return ""
			})
			os.RemoveAll(d)
			r.Trans(4 * n)
			r.Trace(1)
			if msg == "" {
				if g := settle(base + 4); g > base+4 {
					msg = fmt.Sprintf("%d goroutines are left", g-base)
				}
			}
			if msg != "" {
				r.Violate(key, "engine %s, %d readers with two iterators each, closing order %d: %s", name, n, order, msg)
			}
		}
	}
}
