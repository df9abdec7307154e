// Command crash checks S08 on the real engines: the engines' file operations are recorded during short histories, and for
// every point of every record every disk a crash at that point may leave is rebuilt, recovered and read back.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/akhenakh/oureadb/store"

	"verif/mc/crash/osx"
	"verif/mc/eng"
	"verif/mc/rep"
)

type config struct {
	name, eng string
	conf      map[string]interface{}
	depth     int
	subsets   int // how many unsynced operations are combined in all ways
	cont      bool
	nested    bool // also crash the recovery
	ordered   func(path string) bool
	start     byte // crashes are taken from: 0 the beginning, s the first sync, o when the first opening has returned
}

// step is one action of a history.
type step struct {
	act byte
	seq int
}

// batches of special shapes, at most one of which is in a history
const singles = "0123EK"

var mo = &eng.AppendMO{}

// mopt is a set of contents allowed after recovery: m with any subset of the keys in opt left out.
type mopt struct {
	m   eng.Model
	opt map[string]bool
}

func (a mopt) allows(got eng.Model) bool {
	for k, v := range got {
		if w, ok := a.m[k]; !ok || w != v {
			return false
		}
	}
	for k := range a.m {
		if _, ok := got[k]; !ok && !a.opt[k] {
			return false
		}
	}
	return true
}

func (a mopt) String() string {
	s := a.m.String()
	if len(a.opt) > 0 {
		s += fmt.Sprintf(" (optional: %v)", a.opt)
	}
	return s
}

func big(seq, i int) string {
	b := make([]byte, 3000+i*700)
	for j := range b {
		b[j] = byte('A' + (j*7+seq*13+i)%26)
	}
	return string(b)
}

// ops of a batch action, in the order they are given.
type op struct {
	kind byte
	k, v string
}

func batchOps(a byte, seq int) []op {
	n := fmt.Sprint(seq)
	if indexing(a) {
		return entries(a, seq)
	}
	switch a {
	case 'W':
		return []op{{'s', "a", "A" + n}, {'s', "b", "B" + n}, {'s', "dz", "\x00"}}
	case 'D':
		return []op{{'d', "a", ""}, {'s', "c", "C" + n}, {'s', "dy", "\x00"}, {'s', "dx", "1"}}
	case 'M':
		return []op{{'m', "a", n}, {'m', "b", n}, {'m', "a", "x"}}
	case '1': // batches of a single operation
		return []op{{'s', "a", "only" + n}}
	case '2':
		return []op{{'d', "a", ""}}
	case '3':
		return []op{{'m', "a", n}}
	case 'E': // nothing but empty values
		return []op{{'s', "a", ""}, {'s', "c", ""}}
	case 'K': // nothing but deletions
		return []op{{'d', "a", ""}, {'d', "b", ""}}
	case '0': // a merge and a set of different keys
		return []op{{'m', "c", n}, {'s', "a", "with merge" + n}}
	case 'L':
		var o []op
		for i := 0; i < 8; i++ {
			o = append(o, op{'s', fmt.Sprintf("l%d", i), big(seq, i)})
		}
		return append(o, op{'d', "b", ""})
	}
	panic(string(a))
}

func apply(m eng.Model, ops []op) eng.Model {
	m = m.Clone()
	merges := map[string][][]byte{}
	for _, o := range ops {
		switch o.kind {
		case 's':
			m[o.k] = o.v
		case 'd':
			delete(m, o.k)
		case 'm':
			merges[o.k] = append(merges[o.k], []byte(o.v))
		}
	}
	for k, vs := range merges {
		v, ok := m[k]
		m[k] = string(eng.MergeResult([]byte(v), ok, vs))
	}
	return m
}

func execute(s store.KVStore, ops []op) error {
	w, err := s.Writer()
	if err != nil {
		return err
	}
	b := w.NewBatch()
	for _, o := range ops {
		switch o.kind {
		case 's':
			b.Set([]byte(o.k), []byte(o.v))
		case 'd':
			b.Delete([]byte(o.k))
		case 'm':
			b.Merge([]byte(o.k), []byte(o.v))
		}
	}
	if err := w.ExecuteBatch(b); err != nil {
		return err
	}
	if err := b.Close(); err != nil {
		return err
	}
	return w.Close()
}

type compacter interface{ Compact() error }

// ---- the disk ----

type inode struct {
	id      int
	durable []byte
	pending []osx.Event // w and t since the last sync
	at      []int       // their positions in the record
	ordered bool
}

type metaOp struct {
	kind     byte // c r d m
	path, to string
	ino      *inode
	at       int
}

// disk replays a record.
type disk struct {
	files  map[string]*inode // current names
	dirs   map[string]bool
	dfiles map[string]*inode // durable names
	ddirs  map[string]bool
	meta   []metaOp // not yet durable
	inos   map[int]*inode
	all    []*inode
	n      int
	// files whose writes reach the disk before anything done later; see goleveldb in main
	ordered func(path string) bool
}

type image struct {
	files map[string][]byte
	dirs  []string
}

func newDisk(base *image, ordered func(string) bool) *disk {
	d := &disk{ordered: ordered, files: map[string]*inode{}, dirs: map[string]bool{}, dfiles: map[string]*inode{}, ddirs: map[string]bool{}, inos: map[int]*inode{}}
	if base != nil {
		for p, b := range base.files {
			n := &inode{durable: b, ordered: ordered != nil && ordered(p)}
			d.files[p], d.dfiles[p] = n, n
			d.all = append(d.all, n)
		}
		for _, p := range base.dirs {
			d.dirs[p], d.ddirs[p] = true, true
		}
	}
	return d
}

func applyMeta(files map[string]*inode, dirs map[string]bool, o metaOp) {
	switch o.kind {
	case 'c':
		files[o.path] = o.ino
	case 'r':
		if n := files[o.path]; n != nil {
			delete(files, o.path)
			files[o.to] = n
		}
	case 'd':
		delete(files, o.path)
		delete(dirs, o.path)
	case 'm':
		dirs[o.path] = true
	}
}

func applyData(b []byte, e osx.Event, cut int) []byte {
	if e.Kind == 't' {
		n := int(e.Off)
		if n <= len(b) {
			return b[:n:n]
		}
		return append(b[:len(b):len(b)], make([]byte, n-len(b))...)
	}
	data := e.Data
	if cut >= 0 && cut < len(data) {
		data = data[:cut]
	}
	end := int(e.Off) + len(data)
	n := len(b)
	if end > n {
		n = end
	}
	c := make([]byte, n)
	copy(c, b)
	copy(c[e.Off:], data)
	return c
}

func (n *inode) flush() {
	for _, p := range n.pending {
		n.durable = applyData(n.durable, p, -1)
	}
	n.pending, n.at = nil, nil
}

func (d *disk) commitMeta() {
	for _, n := range d.all {
		if n.ordered {
			n.flush()
		}
	}
	for _, o := range d.meta {
		applyMeta(d.dfiles, d.ddirs, o)
	}
	d.meta = nil
}

// add replays one event; changed tells whether what a crash may leave differs from before.
func (d *disk) add(e osx.Event) (changed bool) {
	d.n++
	switch e.Kind {
	case 'c':
		if n := d.files[e.Path]; n != nil {
			d.inos[e.Ino] = n
			return false
		}
		n := &inode{id: e.Ino, ordered: d.ordered != nil && d.ordered(e.Path)}
		d.inos[e.Ino] = n
		d.all = append(d.all, n)
		o := metaOp{'c', e.Path, "", n, d.n}
		applyMeta(d.files, d.dirs, o)
		d.meta = append(d.meta, o)
	case 'w', 't':
		n := d.inos[e.Ino]
		n.pending, n.at = append(n.pending, e), append(n.at, d.n)
	case 's':
		d.inos[e.Ino].flush()
		d.commitMeta()
	case 'p':
		d.commitMeta()
	case 'r', 'd', 'm':
		o := metaOp{kind: e.Kind, path: e.Path, to: e.To, at: d.n}
		applyMeta(d.files, d.dirs, o)
		d.meta = append(d.meta, o)
	default:
		return false
	}
	return true
}

// images enumerates what a crash now may leave.
func (d *disk) images(subsets int, thorough bool, f func(img *image, how string)) {
	for m := 0; m <= len(d.meta); m++ {
		if m != 0 && m != len(d.meta) && !thorough && len(d.meta) > 6 {
			continue
		}
		files, dirs := map[string]*inode{}, map[string]bool{}
		for p, n := range d.dfiles {
			files[p] = n
		}
		for p := range d.ddirs {
			dirs[p] = true
		}
		for _, o := range d.meta[:m] {
			applyMeta(files, dirs, o)
		}
		live := map[*inode]bool{}
		for _, n := range files {
			live[n] = true
		}
		type pend struct {
			n *inode
			i int
		}
		var pending []pend
		for _, n := range d.all {
			if live[n] {
				for i := range n.pending {
					pending = append(pending, pend{n, i})
				}
			}
		}
		build := func(keep []bool, torn, cut int, how string) {
			latest := 0
			if m > 0 {
				latest = d.meta[m-1].at
			}
			for i, p := range pending {
				if at := p.n.at[p.i]; keep[i] && at > latest {
					latest = at
				}
			}
			for i, p := range pending {
				if p.n.ordered && (!keep[i] || i == torn) && p.n.at[p.i] < latest {
					return
				}
			}
			content := map[*inode][]byte{}
			for i, p := range pending {
				if !keep[i] {
					continue
				}
				b, ok := content[p.n]
				if !ok {
					b = p.n.durable
				}
				c := -1
				if i == torn {
					c = cut
				}
				content[p.n] = applyData(b, p.n.pending[p.i], c)
			}
			img := &image{files: map[string][]byte{}}
			for p, n := range files {
				b, ok := content[n]
				if !ok {
					b = n.durable
				}
				img.files[p] = b
			}
			for p := range dirs {
				img.dirs = append(img.dirs, p)
			}
			sort.Strings(img.dirs)
			if m < len(d.meta) {
				how += fmt.Sprintf(", only %d of %d changes of names", m, len(d.meta))
			}
			f(img, how)
		}
		k := len(pending)
		keep := make([]bool, k)
		if k <= subsets {
			for x := 0; x < 1<<uint(k); x++ {
				for i := range keep {
					keep[i] = x>>uint(i)&1 == 1
				}
				build(keep, -1, 0, fmt.Sprintf("unsynced operations kept %v", keep))
			}
		} else {
			for i := 0; i <= k; i++ { // prefixes, all but one, only one
				for j := range keep {
					keep[j] = j < i
				}
				build(keep, -1, 0, fmt.Sprintf("the first %d of %d unsynced operations kept", i, k))
				if i == k {
					break
				}
				for j := range keep {
					keep[j] = j != i
				}
				build(keep, -1, 0, fmt.Sprintf("unsynced operation %d of %d lost", i, k))
				for j := range keep {
					keep[j] = j == i
				}
				build(keep, -1, 0, fmt.Sprintf("only unsynced operation %d of %d kept", i, k))
			}
		}
		// torn: operation i cut short, with the others all there or only the earlier ones
		for i, p := range pending {
			e := p.n.pending[p.i]
			if e.Kind != 'w' {
				continue
			}
			for _, c := range cuts(len(e.Data), thorough) {
				for j := range keep {
					keep[j] = j <= i
				}
				build(keep, i, c, fmt.Sprintf("the first %d of %d unsynced operations kept, the next torn after %d of %d bytes", i, k, c, len(e.Data)))
				if i < k-1 {
					for j := range keep {
						keep[j] = true
					}
					build(keep, i, c, fmt.Sprintf("all %d unsynced operations kept, number %d torn after %d of %d bytes", k, i, c, len(e.Data)))
				}
			}
		}
	}
}

func cuts(n int, thorough bool) []int {
	set := map[int]bool{}
	for _, c := range []int{1, 7, n / 2, n - 1} {
		set[c] = true
	}
	most := 3
	if thorough {
		most = 16
		for c := 1; c < n && n <= 300; c++ {
			set[c] = true
		}
	}
	for c, i := 512, 0; c < n && i < most; c, i = c+512, i+1 {
		set[c] = true
	}
	var out []int
	for c := range set {
		if c > 0 && c < n {
			out = append(out, c)
		}
	}
	sort.Ints(out)
	return out
}

func (img *image) hash() [32]byte {
	h := sha256.New()
	var l [8]byte
	put := func(s []byte) {
		binary.LittleEndian.PutUint64(l[:], uint64(len(s)))
		h.Write(l[:])
		h.Write(s)
	}
	names := make([]string, 0, len(img.files))
	for p := range img.files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		put([]byte(p))
		put(img.files[p])
	}
	for _, p := range img.dirs {
		put([]byte("dir " + p))
	}
	var out [32]byte
	h.Sum(out[:0])
	return out
}

func (img *image) write(dir string) error {
	for _, p := range img.dirs {
		if err := os.MkdirAll(filepath.Join(dir, p), 0755); err != nil {
			return err
		}
	}
	for p, b := range img.files {
		f := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(f, b, 0644); err != nil {
			return err
		}
	}
	return nil
}

// ---- the check ----

type checker struct {
	r     *rep.R
	c     config
	mu    sync.Mutex
	seen  map[[32]byte]bool
	gone  int // disks looked at
	diffs int // distinct disks recovered
	mode  string
}

// recover opens what a crash left and compares; it returns a message when something is wrong. When nested, the changes the
// recovery makes are recorded and crashed in turn.
func (k *checker) recover(img *image, allowed []mopt, nested bool) (message, class string) {
	dir := eng.Scratch()
	defer os.RemoveAll(dir)
	if err := img.write(dir); err != nil {
		panic(err)
	}
	var rec *osx.Rec
	if nested {
		rec = osx.Watch(dir)
		defer rec.Stop()
	}
	msg := rep.Guard(60*time.Second, func() string {
		s, err := eng.Open(k.c.eng, dir, mo, k.c.conf)
		if err != nil {
			return "the store does not open any more: " + err.Error()
		}
		if k.c.eng == "badger" && emptiedLog(img, dir) {
			class = "badger:value-log-emptied-by-recovery"
		}
		got, err := eng.Contents(s)
		if err != nil {
			s.Close()
			return "reading: " + err.Error()
		}
		ok := false
		for _, a := range allowed {
			ok = ok || a.allows(got)
		}
		if !ok {
			s.Close()
			w := ""
			for _, a := range allowed {
				w += "\n    " + a.String()
			}
			return fmt.Sprintf("recovered to %v\n  which is none of:%s", got, w)
		}
		if nested {
			rec.Stop()
			s.Close()
			return ""
		}
		if k.c.cont {
			want := apply(got, batchOps('W', 99))
			if err := execute(s, batchOps('W', 99)); err != nil {
				s.Close()
				return "a batch after the recovery: " + err.Error()
			}
			for round := 0; round < 2; round++ {
				now, err := eng.Contents(s)
				if err != nil {
					s.Close()
					return "reading after the recovery and a batch: " + err.Error()
				}
				if d := eng.Diff(want, now); d != "" {
					s.Close()
					return "after the recovery and a batch: " + d
				}
				if err := s.Close(); err != nil {
					return "closing after the recovery: " + err.Error()
				}
				if round == 0 {
					if s, err = eng.Open(k.c.eng, dir, mo, k.c.conf); err != nil {
						return "reopening after the recovery: " + err.Error()
					}
				}
			}
			return ""
		}
		if err := s.Close(); err != nil {
			return "closing after the recovery: " + err.Error()
		}
		return ""
	})
	if msg != "" || !nested {
		return msg, class
	}
	// crash the recovery
	d := newDisk(img, k.c.ordered)
	for i, e := range rec.Events {
		if !d.add(e) && i != 0 {
			continue
		}
		var bad, cl string
		d.images(2, false, func(im *image, how string) {
			if bad != "" || k.r.Stop() {
				return
			}
			if k.dup(im, allowed) {
				return
			}
			if m, c := k.recover(im, allowed, false); m != "" {
				cl = c
				bad = fmt.Sprintf("recovery cut off after %d of its %d file operations, %s: %s", i+1, len(rec.Events), how, m)
			}
			k.r.Trans(1)
		})
		if bad != "" {
			return bad, cl
		}
	}
	return "", ""
}

// emptiedLog recognises a defect of the badger library (v1.6.0): when the first record written to the value log after a
// clean close is torn, recovery cuts the log back to nothing instead of to where that record begins.
func emptiedLog(img *image, dir string) bool {
	for p, b := range img.files {
		if strings.HasSuffix(p, ".vlog") && len(b) > 0 {
			if fi, err := os.Stat(filepath.Join(dir, p)); err == nil && fi.Size() == 0 {
				return true
			}
		}
	}
	return false
}

func (k *checker) dup(img *image, allowed []mopt) bool {
	h := img.hash()
	s := sha256.New()
	s.Write(h[:])
	for _, a := range allowed {
		io.WriteString(s, a.String())
	}
	s.Sum(h[:0])
	k.mu.Lock()
	defer k.mu.Unlock()
	k.gone++
	if k.seen[h] {
		return true
	}
	k.seen[h] = true
	k.diffs++
	return false
}

// history records one history and crashes its last action everywhere.
func (k *checker) history(steps []step) {
	name := k.c.name + ":"
	for _, s := range steps {
		name += string(s.act)
	}
	if !k.r.Case(name) || k.r.Stop() {
		return
	}
	dir := eng.Scratch()
	defer os.RemoveAll(dir)
	rec := osx.Watch(dir)
	defer rec.Stop()
	type span struct {
		from    int // first event
		allowed []mopt
	}
	var spans []span
	lastFrom, opened := 0, 0
	msg := rep.Guard(60*time.Second, func() string {
		// contents allowed from the given moment on
		note := func(ms ...mopt) { spans = append(spans, span{rec.Mark("state"), ms}) }
		cur := mopt{eng.Model{}, map[string]bool{}}
		note(cur)
		s, err := eng.Open(k.c.eng, dir, mo, k.c.conf)
		if err != nil {
			return "open: " + err.Error()
		}
		opened = rec.Mark("opened")
		for i, st := range steps {
			if i == len(steps)-1 {
				lastFrom = rec.Mark("last")
			}
			switch st.act {
			case 'R':
				if err := s.Close(); err != nil {
					return "close: " + err.Error()
				}
				if s, err = eng.Open(k.c.eng, dir, mo, k.c.conf); err != nil {
					return "reopen: " + err.Error()
				}
			case 'Z':
				nx := mopt{cur.m, map[string]bool{}}
				for key, v := range cur.m {
					if cur.opt[key] || key[0] == 'd' && v == "\x00" {
						nx.opt[key] = true
					}
				}
				cur = nx
				note(cur)
				if c, ok := s.(compacter); ok {
					if err := c.Compact(); err != nil {
						return "Compact: " + err.Error()
					}
				}
			default:
				ops := batchOps(st.act, st.seq)
				nx := mopt{apply(cur.m, ops), map[string]bool{}}
				for key := range cur.opt {
					nx.opt[key] = true
				}
				for _, o := range ops {
					delete(nx.opt, o.k)
				}
				note(cur, nx)
				if err := perform(s, st.act, st.seq); err != nil {
					return "a batch failed: " + err.Error()
				}
				cur = nx
				note(cur)
			}
		}
		if len(steps) > 0 && steps[len(steps)-1].act != 'R' {
			// what a running engine does behind the last batch, and its Close, belong to the last action
			if err := s.Close(); err != nil {
				return "close: " + err.Error()
			}
		} else {
			s.Close()
		}
		return ""
	})
	if k.c.start == 's' {
		for i, e := range rec.Events {
			if e.Kind == 's' {
				opened = i + 1
				break
			}
		}
	}
	if k.c.start != 0 && lastFrom < opened {
		lastFrom = opened
	}
	if msg != "" {
		k.r.Violate(name, "%s, history %s: %s", k.c.name, describe(steps), msg)
		return
	}
	rec.Stop()
	d := newDisk(nil, k.c.ordered)
	si := -1
	k.r.Trace(1)
	for i, e := range rec.Events {
		for si+1 < len(spans) && spans[si+1].from <= i+1 {
			si++
		}
		changed := d.add(e)
		if i+1 < lastFrom || (!changed && e.Kind != 'k') || si < 0 {
			continue
		}
		if len(steps) > 0 && steps[len(steps)-1].act == 'j' && i+1 < len(rec.Events) && e.Kind != 's' && e.Kind != 'k' && rec.Events[i+1].Kind != 's' && rec.Events[i+1].Kind != 'k' {
			continue // very many operations: prefixes of them are among the disks at the next sync
		}
		allowed := spans[si].allowed
		stop := false
		d.images(k.c.subsets, k.r.Thorough(), func(img *image, how string) {
			if stop || k.r.Stop() || k.dup(img, allowed) {
				return
			}
			m, class := k.recover(img, allowed, false)
			if m == "" && k.c.nested {
				m, class = k.recover(img, allowed, true)
			}
			k.r.Trans(1)
			k.r.Sample(func() interface{} {
				return fmt.Sprintf("%s, history %s, crash after file operation %d of %d (%s), %s", k.c.name, describe(steps), i+1, len(rec.Events), evs(e), how)
			})
			if m != "" {
				vname := name
				if class != "" {
					vname = class
				} else {
					stop = true
				}
				from := i - 12
				if from < 0 {
					from = 0
				}
				var tail strings.Builder
				for j := from; j <= i; j++ {
					fmt.Fprintf(&tail, "\n    %d %s", j+1, evs(rec.Events[j]))
				}
				k.r.Violate(vname, "%s, history %s, crash after file operation %d of %d, %s:\n  %s\n  the last file operations before the crash:%s",
					k.c.name, describe(steps), i+1, len(rec.Events), how, m, tail.String())
			}
		})
		if stop {
			return
		}
	}
}

// fault runs a history whose last action meets failing file operations, and looks at what it was told and what is left.
func (k *checker) fault(steps []step, first, times int) (more bool) {
	last := steps[len(steps)-1]
	name := fmt.Sprintf("%s:fault:%d:%d:", k.c.name, first, times)
	for _, s := range steps {
		name += string(s.act)
	}
	if !k.r.Case(name) {
		return first < 60
	}
	dir := eng.Scratch()
	defer os.RemoveAll(dir)
	rec := osx.Watch(dir)
	defer rec.Stop()
	m := eng.Model{}
	var before, after eng.Model
	var events int
	told := ""
	msg := rep.Guard(60*time.Second, func() string {
		s, err := eng.Open(k.c.eng, dir, mo, k.c.conf)
		if err != nil {
			return "open: " + err.Error()
		}
		for _, st := range steps[:len(steps)-1] {
			if st.act == 'R' {
				if err := s.Close(); err != nil {
					return "close: " + err.Error()
				}
				if s, err = eng.Open(k.c.eng, dir, mo, k.c.conf); err != nil {
					return "reopen: " + err.Error()
				}
				continue
			}
			if err := perform(s, st.act, st.seq); err != nil {
				return "a batch failed: " + err.Error()
			}
			m = apply(m, batchOps(st.act, st.seq))
		}
		before, after = m, apply(m, batchOps(last.act, last.seq))
		rec.Fail(first, times)
		err = perform(s, last.act, last.seq)
		more = rec.Ops() > first
		events = rec.Mark("told")
		if err == nil {
			told = "acknowledged"
			got, err := eng.Contents(s)
			if err != nil {
				return "the batch was acknowledged, then reading: " + err.Error()
			}
			if d := eng.Diff(after, got); d != "" {
				return "the batch was acknowledged, then " + d
			}
		} else {
			told = "error"
		}
		rec.Fail(0, 0)
		if told == "error" && k.c.eng == "goleveldb" {
			return "" // the library may wait for ever for a transaction it did not get to open
		}
		s.Close()
		return ""
	})
	k.r.Trans(1)
	desc := fmt.Sprintf("%s, history %s, the disk fails operation %d of the last batch (%d times), told: %s", k.c.name, describe(steps), first+1, times, told)
	if msg != "" {
		k.r.Violate(name, "%s: %s", desc, msg)
		return
	}
	rec.Stop()
	allowed := []mopt{{after, nil}}
	if told == "error" {
		allowed = append(allowed, mopt{before, nil})
	}
	// what is there after a crash at this moment
	d := newDisk(nil, k.c.ordered)
	for _, e := range rec.Events[:events] {
		d.add(e)
	}
	bad := false
	d.images(2, false, func(img *image, how string) {
		if bad || k.dup(img, allowed) {
			return
		}
		if m, class := k.recover(img, allowed, false); m != "" {
			v := name
			if class != "" {
				v = class
			} else {
				bad = true
			}
			k.r.Violate(v, "%s, then a crash, %s:\n  %s", desc, how, m)
		}
	})
	return
}

func has(h []step, a byte) bool {
	for _, s := range h {
		if s.act == a {
			return true
		}
	}
	return false
}

func evs(e osx.Event) string {
	switch e.Kind {
	case 'k':
		return "mark " + e.Mark
	case 'w':
		return fmt.Sprintf("write ino=%d off=%d len=%d", e.Ino, e.Off, len(e.Data))
	case 't':
		return fmt.Sprintf("truncate ino=%d to %d", e.Ino, e.Off)
	case 's':
		return fmt.Sprintf("sync ino=%d", e.Ino)
	case 'c':
		return fmt.Sprintf("create/open ino=%d %s", e.Ino, e.Path)
	case 'r':
		return "rename " + e.Path + " " + e.To
	case 'd':
		return "remove " + e.Path
	case 'm':
		return "mkdir " + e.Path
	case 'p':
		return "sync of directory " + e.Path
	}
	return "?"
}

func describe(steps []step) string {
	var b strings.Builder
	b.WriteString("open")
	for _, s := range steps {
		b.WriteByte(' ')
		switch s.act {
		case 'R':
			b.WriteString("close+reopen")
		case 'Z':
			b.WriteString("compact")
		case 'f', 'g', 'h', 'i', 'j':
			fmt.Fprintf(&b, "%s(id %d)", indexNames[s.act], s.seq)
		default:
			b.WriteString("batch(")
			for i, o := range batchOps(s.act, s.seq) {
				if i > 0 {
					b.WriteString(" ")
				}
				fmt.Fprintf(&b, "%c %s", o.kind, o.k)
				if o.kind != 'd' {
					fmt.Fprintf(&b, "=%s", eng.Q(o.v))
				}
			}
			b.WriteByte(')')
		}
	}
	return b.String()
}

func main() {
	log.SetOutput(io.Discard)
	id := os.Args[1]
	rule := "every history of batches, compactions and reopenings up to the bound, on each persistent engine; every point of its recorded file operations in the last action (shorter histories cover the earlier ones); at each, every subset of the unsynced operations up to the cap (beyond it prefixes, all but one, only one), every prefix of the unsynced changes of names, and torn writes; each distinct disk is recovered, compared, written to and reopened"
	if id == "I10" {
		rule = "histories of indexing calls (a polygon of many cells in a cover index, a line in a time index, a point, the same once more under another id), batches and reopenings on each persistent engine: " + rule
	}
	r := rep.New(id, "fault_enumeration", rule)
	defer eng.Cleanup()
	th := r.Thorough()
	// goleveldb does not sync a new MANIFEST before making it current, and bolt writes the first pages of a new file in
	// one write it does not check: weaknesses of the libraries, which the crash model leaves out
	manifest := func(p string) bool { return strings.Contains(p, "MANIFEST-") }
	small := map[string]interface{}{"write_buffer_size": float64(4096)}
	cs := []config{
		{name: "boltdb", eng: "boltdb", depth: r.Pick(4, 5), subsets: r.Pick(6, 10), cont: true, start: 's'},
		{name: "badger", eng: "badger", depth: 3, subsets: r.Pick(4, 8), cont: true, nested: th},
		{name: "goleveldb", eng: "goleveldb", depth: 3, subsets: r.Pick(4, 8), cont: true, nested: th, ordered: manifest, start: 'o'},
		{name: "goleveldb-small", eng: "goleveldb", conf: small, depth: 3, subsets: r.Pick(4, 8), cont: true, nested: th, ordered: manifest, start: 'o'},
	}
	if th {
		cs = append(cs, config{name: "goleveldb-4", eng: "goleveldb", depth: 4, subsets: 5, cont: true, ordered: manifest, start: 'o'},
			config{name: "goleveldb-small-4", eng: "goleveldb", conf: small, depth: 4, subsets: 5, cont: true, ordered: manifest, start: 'o'})
	}
	if id == "I10" {
		for i := range cs {
			cs[i].depth = r.Pick(2, 3)
			cs[i].cont = cs[i].name == "boltdb"
		}
	}
	info := map[string]interface{}{}
	for _, c := range cs {
		if v := os.Getenv("VERIF_ENGINE"); v != "" && v != c.name {
			continue
		}
		t0 := time.Now()
		k := &checker{r: r, c: c, seen: map[[32]byte]bool{}}
		acts := "WDMLZR"
		if c.eng == "badger" {
			acts = "WDMLR"
		}
		if id == "I10" {
			acts = "fghiWR"
		}
		var hs [][]step
		var gen func(p []step)
		gen = func(p []step) {
			hs = append(hs, append([]step{}, p...))
			if len(p) == c.depth {
				return
			}
			for _, a := range acts {
				if !th && len(p) >= 2 {
					single := false
					for _, s := range p {
						single = single || strings.IndexByte(singles, s.act) >= 0
					}
					if single {
						continue
					}
				}
				gen(append(p, step{byte(a), len(p) + 1}))
			}
			if id == "I10" {
				if len(p) < r.Pick(1, 2) {
					hs = append(hs, append(append([]step{}, p...), step{'j', len(p) + 1}))
				}
				return
			}
			if len(p) >= r.Pick(3, 4) {
				return
			}
			for _, s := range p {
				if strings.IndexByte(singles, s.act) >= 0 {
					return
				}
			}
			for _, a := range singles { // at most one of these in a history
				gen(append(p, step{byte(a), len(p) + 1}))
			}
		}
		gen(nil)
		rep.Par(len(hs), func(i int) { k.history(hs[i]) })
		if c.conf == nil && (c.depth <= 3 || c.eng == "boltdb") { // goleveldb retries a failing flush for as long as it fails, and the caller waits
			rep.Par(len(hs), func(i int) {
				h := hs[i]
				if len(h) == 0 || len(h) > r.Pick(2, 3) || h[len(h)-1].act == 'R' || has(h, 'Z') {
					return
				}
				for _, times := range []int{1, 1000} {
					for first := 0; !r.Stop() && k.fault(h, first, times); first++ {
					}
				}
			})
		}
		r.Trans(0)
		r.AddStates(k.diffs)
		info[c.name] = map[string]interface{}{"histories": len(hs), "depth": c.depth, "disks_enumerated": k.gone, "distinct_disks_recovered": k.diffs, "wall_s": time.Since(t0).Seconds()}
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Fprintln(os.Stderr, c.name, info[c.name])
		}
		r.Eval(k.gone)
	}
	r.Extra["engines"] = info
	r.Extra["model"] = "crash model: data reaches the disk at the latest when the file is synced, in any subset before; names change in order and are on the disk after any later sync (journalled metadata)"
	eng.Cleanup()
	r.Finish()
}
