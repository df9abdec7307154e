package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/eng"
	"verif/mc/rep"
)

type conf = map[string]interface{}

// opening is one configuration with what the model says about it.
type opening struct {
	c      conf
	bucket string // bolt: which contents it sees
	ro     bool
	refuse func(exists bool) bool // the open must fail
	nogo   func(exists bool) bool // not explored: outside the property (or would block in the library)
}

func openings(name string) []opening {
	never := func(bool) bool { return false }
	switch name {
	case "boltdb":
		// a missing file cannot be opened read-only; the library keeps it locked then, so this is not explored
		missing := func(exists bool) bool { return !exists }
		return []opening{
			{c: conf{}, bucket: "bleve", refuse: never, nogo: never},
			{c: conf{"bucket": "b1"}, bucket: "b1", refuse: never, nogo: never},
			{c: conf{"bucket": "b1", "nosync": true, "fillPercent": 0.9}, bucket: "b1", refuse: never, nogo: never},
			{c: conf{"bucket": "bleve", "nosync": true}, bucket: "bleve", refuse: never, nogo: never},
			{c: conf{"bucket": "b2", "fillPercent": 0.1}, bucket: "b2", refuse: never, nogo: never},
			{c: conf{"bucket": ""}, bucket: "", refuse: func(bool) bool { return true }, nogo: never},
			{c: conf{"read_only": false, "nosync": false}, bucket: "bleve", refuse: never, nogo: never},
			{c: conf{"read_only": true}, bucket: "bleve", ro: true, refuse: never, nogo: missing},
			{c: conf{"read_only": true, "bucket": "b1"}, bucket: "b1", ro: true, refuse: never, nogo: missing},
		}
	case "goleveldb":
		missing := func(exists bool) bool { return !exists }
		exists := func(e bool) bool { return e }
		return []opening{
			{c: conf{}, refuse: never, nogo: never},
			{c: conf{"create_if_missing": true, "error_if_exists": false}, refuse: never, nogo: never},
			{c: conf{"create_if_missing": false}, refuse: missing, nogo: never},
			{c: conf{"error_if_exists": true}, refuse: exists, nogo: never},
			{c: conf{"write_buffer_size": 1.0, "block_size": 1.0, "block_restart_interval": 1.0}, refuse: never, nogo: never},
			{c: conf{"lru_cache_capacity": 1.0, "bloom_filter_bits_per_key": 10.0, "write_buffer_size": 4096.0}, refuse: never, nogo: never},
			{c: conf{"read_only": true}, ro: true, refuse: missing, nogo: never},
			{c: conf{"read_only": true, "bloom_filter_bits_per_key": 5.0, "create_if_missing": true}, ro: true, refuse: missing, nogo: never},
			{c: conf{"read_only": false, "create_if_missing": true}, refuse: never, nogo: never},
		}
	}
	return []opening{{c: conf{}, refuse: never, nogo: never}}
}

func fileBytes(dir string) string {
	var b strings.Builder
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && !strings.HasSuffix(p, "LOCK") {
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&b, "%s:%d:%x ", filepath.Base(p), len(c), rep.Hash(string(c)))
		}
		return nil
	})
	return b.String()
}

// roundBatches are what one open period does; nil does nothing.
var roundBatches = [][]step{
	nil,
	{{k: kSet, key: "a", val: "1"}, {k: kSet, key: "b", val: ""}, {k: kDel, key: "c"}, {k: kMerge, key: "m", val: "x"}},
	{{k: kDel, key: "a"}, {k: kSet, key: "c", val: "3"}, {k: kMerge, key: "m", val: "y"}, {k: kSet, key: "\x00\xff", val: "\x00"}},
	{{k: kSet, key: "big", val: "*"}}, // replaced by many larger entries
}

func s09() {
	r := rep.New("S09", "model_checking", "every sequence of open periods up to the stated length over all accepted (and refused) configurations of each persistent engine x what is written in each period (nothing, small batches, enough to spill), all contents compared with a per-bucket model after every open and at the end; read-only periods must refuse every change and leave the contents alone; refused configurations must leave the path usable; bad paths for every engine")
	keys := []string{"a", "b", "c", "m", "zz", "big000"}
	engines(eng.Persistent, func(name string) {
		ops := openings(name)
		rounds := r.Pick(3, 4)
		if name == "badger" {
			rounds = r.Pick(4, 5)
		}
		nb := len(roundBatches)
		var seqs [][]int
		for n := 1; n <= rounds; n++ {
			product(len(ops)*nb, n, func(ix []int) bool {
				if n == rounds && n > r.Pick(3, 1) || name == "badger" && n == rounds {
					// the longest histories only with a fixed choice of batches per position, to stay affordable
					for i, x := range ix {
						w := x % nb
						o := x / nb
						if name == "badger" {
							if r.Thorough() || n < 5 && (i%2 == 0 || w == 1) {
								continue
							}
						}
						if w != (o+i)%nb {
							return true
						}
					}
				}
				seqs = append(seqs, append([]int{}, ix...))
				return true
			})
		}
		shard(r, len(seqs), func(i int, local map[uint64]struct{}) {
			seq := seqs[i]
			key := fmt.Sprintf("%s/%v", name, seq)
			if !r.Case(key) {
				return
			}
			var rounds []round
			for _, x := range seq {
				rounds = append(rounds, round{ops[x/nb], x % nb})
			}
			runRounds(r, name, key, rounds, keys, local)
		})
		// every combination of the options, on a new path and on one that was written before
		combos := combinations(name)
		plain := openings(name)[0]
		shard(r, len(combos)*2, func(i int, local map[uint64]struct{}) {
			x := combos[i/2]
			key := fmt.Sprintf("%s/combination%d/%d", name, i/2, i%2)
			if !r.Case(key) {
				return
			}
			rounds := []round{{x, 1}, {x, 2}, {x, 0}, {plain, 3}, {x, 1}}
			if i%2 == 1 {
				rounds = []round{{plain, 1}, {x, 2}, {x, 3}, {plain, 0}, {x, 0}, {plain, 1}}
			}
			runRounds(r, name, key, rounds, keys, local)
		})
	})
	bucketNames(r, keys)
	badPaths(r)
	r.Finish()
}

// bucketNames: every ordered pair (thorough: triple) of bucket names that look alike in one file, opened in turn, for writing and
// read-only.
func bucketNames(r *rep.R, keys []string) {
	names := []string{"bleve", "x", "a/x", "b/x", "/x", "x/", "./x", "a/../x", "X", " x", "x ", "x\x00", "\x00x", "xx", "x.db", "a\\x", "x\xff", "\xc3\xa9", "e\xcc\x81", "x\n", strings.Repeat("x", 255) + "1", strings.Repeat("x", 255) + "2", "%78", "bleve/x"}
	open := func(n string, ro bool) opening {
		c := conf{"bucket": n}
		if n == "bleve" && ro {
			c = conf{}
		}
		if ro {
			c["read_only"] = true
		}
		return opening{c: c, bucket: n, ro: ro, refuse: func(bool) bool { return false }, nogo: func(e bool) bool { return ro && !e }}
	}
	n := len(names)
	shard(r, n*n*n, func(i int, local map[uint64]struct{}) {
		a, b, c := names[i%n], names[i/n%n], names[i/n/n]
		if a == b || (c != a && c != b && !r.Thorough()) {
			return
		}
		key := fmt.Sprintf("names/%q/%q/%q", a, b, c)
		if !r.Case(key) {
			return
		}
		runRounds(r, "boltdb", key, []round{{open(a, false), 1}, {open(b, true), 0}, {open(b, false), 2}, {open(c, true), 0}, {open(a, true), 0}, {open(c, false), 2}, {open(b, false), 3}, {open(a, false), 0}, {open(b, true), 0}}, keys, local)
	})
}

// round is one open period.
type round struct {
	o  opening
	wb int
}

func runRounds(r *rep.R, name, key string, rounds []round, keys []string, local map[uint64]struct{}) {
	var hist []string
	msg := rep.Guard(hang, func() string {
		dir := eng.Scratch()
		defer os.RemoveAll(dir)
		models := map[string]eng.Model{}
		exists := false
		seen := map[string]bool{} // bolt buckets created
		for ri, x := range rounds {
			o, wb := x.o, x.wb
			hist = append(hist, fmt.Sprintf("open %v then batch %d", o.c, wb))
			if o.nogo(exists) {
				return ""
			}
			s, err := eng.Open(name, dir, &eng.AppendMO{}, o.c)
			if o.refuse(exists) {
				if err == nil {
					s.Close()
					return fmt.Sprintf("round %d: open succeeded, it had to be refused", ri)
				}
				if name == "boltdb" {
					exists = true
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("round %d: open: %v", ri, err)
			}
			exists = true
			r.Trans(1)
			st := models[o.bucket]
			if st == nil {
				st = eng.Model{}
			}
			if !o.ro {
				seen[o.bucket] = true
				models[o.bucket] = st
			}
			msg := period(s, o, st, seen[o.bucket] || name != "boltdb", wb, ri, keys)
			if err := s.Close(); err != nil && msg == "" {
				msg = "Close: " + err.Error()
			}
			if msg != "" {
				return fmt.Sprintf("round %d: %s", ri, msg)
			}
			local[rep.Hash(fmt.Sprint(name, o.c, models))] = struct{}{}
		}
		return ""
	})
	r.Trace(1)
	if msg != "" {
		r.Violate(key, "engine %s, history:\n  %s\n%s", name, strings.Join(hist, "\n  "), cut(msg))
	}
	r.Sample(func() interface{} { return map[string]interface{}{"engine": name, "history": hist} })
}

// combinations are all combinations of the options of an engine, nil meaning not given.
func combinations(name string) []opening {
	type option struct {
		key    string
		values []interface{}
	}
	var options []option
	switch name {
	case "boltdb":
		options = []option{
			{"bucket", []interface{}{nil, "b1", "\x00", strings.Repeat("long", 60)}},
			{"nosync", []interface{}{nil, true, false}},
			{"fillPercent", []interface{}{nil, 0.01, 0.5, 1.0, 0.0, -1.0, 7.5}},
			{"read_only", []interface{}{nil, true, false}},
		}
	case "goleveldb":
		options = []option{
			{"create_if_missing", []interface{}{nil, true, false}},
			{"error_if_exists", []interface{}{nil, true, false}},
			{"read_only", []interface{}{nil, true, false}},
			{"write_buffer_size", []interface{}{nil, 1.0, 4096.0}},
			{"block_size", []interface{}{nil, 1.0, 65536.0}},
			{"block_restart_interval", []interface{}{nil, 1.0}},
			{"lru_cache_capacity", []interface{}{nil, 1.0}},
			{"bloom_filter_bits_per_key", []interface{}{nil, 1.0, 10.0}},
		}
	}
	out := []conf{{}}
	for _, o := range options {
		var next []conf
		for _, c := range out {
			for _, v := range o.values {
				d := conf{}
				for k, x := range c {
					d[k] = x
				}
				if v != nil {
					d[o.key] = v
				}
				next = append(next, d)
			}
		}
		out = next
	}
	var res []opening
	for _, c := range out {
		ro, _ := c["read_only"].(bool)
		o := opening{c: c, ro: ro}
		switch name {
		case "boltdb":
			o.bucket = "bleve"
			if b, ok := c["bucket"].(string); ok {
				o.bucket = b
			}
			o.refuse = func(bool) bool { return false }
			o.nogo = func(exists bool) bool { return ro && !exists }
		default:
			cim, given := c["create_if_missing"].(bool)
			eie, _ := c["error_if_exists"].(bool)
			o.refuse = func(exists bool) bool { return exists && eie || !exists && (ro || given && !cim) }
			o.nogo = func(bool) bool { return false }
		}
		res = append(res, o)
	}
	return res
}

// period checks what a freshly opened store shows, changes it, and checks again.
func period(s store.KVStore, o opening, st eng.Model, bucketExists bool, wb, ri int, keys []string) string {
	if o.ro && !bucketExists {
		// a bucket that was never created: an error or an empty store, nothing else
		rd, err := s.Reader()
		if err != nil {
			return ""
		}
		defer rd.Close()
		return eng.CheckReader(rd, eng.Model{}, keys)
	}
	if msg := eng.Check(s, st, keys); msg != "" {
		return "after opening: " + msg
	}
	w, err := s.Writer()
	if err != nil {
		if o.ro {
			return ""
		}
		return "Writer: " + err.Error()
	}
	defer w.Close()
	prog := roundBatches[wb]
	if wb == 3 {
		prog = nil
		for i := 0; i < 60; i++ {
			prog = append(prog, step{k: kSet, key: fmt.Sprintf("big%03d", i), val: strings.Repeat(string(rune('a'+(ri+i)%26)), 300)})
		}
		for i := 40; i < 50; i++ {
			prog = append(prog, step{k: kDel, key: fmt.Sprintf("big%03d", i)})
		}
	}
	if prog == nil && !o.ro {
		return ""
	}
	if prog == nil {
		prog = roundBatches[1]
	}
	b := w.NewBatch()
	mb := fill(b, prog)
	err = w.ExecuteBatch(b)
	b.Close()
	if o.ro {
		if err == nil {
			return "a read-only store accepted a batch"
		}
	} else if err != nil {
		return "batch: " + err.Error()
	} else {
		mb.apply(st)
	}
	if c, ok := s.(compactor); ok {
		if o.ro {
			if msg := eng.Check(s, st, keys); msg != "" {
				return "after the refused batch: " + msg
			}
		} else if wb == 2 {
			if err := c.Compact(); err != nil {
				return "Compact: " + err.Error()
			}
			for k, v := range compacted(st) {
				st[k] = v
			}
		}
	}
	if msg := eng.Check(s, st, keys); msg != "" {
		return "after the batch: " + msg
	}
	return ""
}

// badPaths: configurations without a usable path are refused, and nothing is created in the working directory.
func badPaths(r *rep.R) {
	dir := eng.Scratch()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "file")
	os.WriteFile(file, []byte("not a database"), 0644)
	type tc struct {
		eng  string
		path interface{}
		ok   bool
	}
	var cases []tc
	for _, n := range eng.Persistent {
		for _, p := range []interface{}{nil, "", 5, []byte("x"), filepath.Join(file, "below")} {
			cases = append(cases, tc{n, p, false})
		}
	}
	cases = append(cases, tc{"boltdb", dir, false}, tc{"goleveldb", file, false}, tc{"badger", file, false}, tc{"boltdb", filepath.Join(dir, "no", "such", "dir"), false})
	cases = append(cases, tc{"gtreap", nil, false}, tc{"gtreap", 5, false}, tc{"gtreap", "x", false}, tc{"gtreap", filepath.Join(dir, "x"), false}, tc{"gtreap", "", true})
	cwd, _ := os.Getwd()
	os.Chdir(dir)
	defer os.Chdir(cwd)
	for _, c := range cases {
		key := fmt.Sprintf("path/%s/%v", c.eng, c.path)
		if !r.Case(key) {
			continue
		}
		before := fileBytes(dir)
		cfg := conf{"path": c.path}
		for _, absent := range []bool{false, true} {
			if absent {
				if c.path != nil {
					continue
				}
				cfg = nil
			}
			msg := rep.Guard(hang, func() string {
				s, err := openRaw(c.eng, cfg)
				r.Trans(1)
				r.State(key)
				if c.ok != (err == nil) {
					return fmt.Sprintf("error %v, expected success: %v", err, c.ok)
				}
				if err == nil {
					return fmt.Sprint(errString(s.Close()))
				}
				if s != nil && !isNil(s) {
					return "a store came with the error"
				}
				return ""
			})
			if after := fileBytes(dir); msg == "" && after != before {
				msg = fmt.Sprintf("files changed from %s to %s", before, after)
			}
			if msg != "" {
				r.Violate(key, "engine %s, configuration %v: %s", c.eng, cfg, msg)
			}
		}
	}
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
