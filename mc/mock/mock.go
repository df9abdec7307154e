// Package mock is the least cooperative key-value store the store interfaces allow: it fails on demand, invalidates
// every slice it handed out as soon as the contract lets it, and records how it is used.
package mock

import (
	"errors"
	"fmt"
	"sort"
	"sync"

	"github.com/akhenakh/oureadb/store"
)

// ErrInjected is what a failing call returns.
var ErrInjected = errors.New("injected failure")

// Store is the mock.
type Store struct {
	mu   sync.Mutex
	data map[string]string
	keys []string // sorted, nil when stale

	// Fail says which fallible call (1-based: Reader, Writer, NewBatchEx, ExecuteBatch) fails; 0: none.
	Fail    map[int]bool
	Calls   int
	CallLog []string

	Misuse []string
	open   int  // readers and iterators not closed
	shared bool // a reader has the map
}

// New returns an empty store.
func New() *Store { return &Store{data: map[string]string{}, Fail: map[int]bool{}} }

// Arm resets the call counter and sets the failing calls.
func (s *Store) Arm(fail ...int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls, s.CallLog, s.Fail = 0, nil, map[int]bool{}
	for _, f := range fail {
		s.Fail[f] = true
	}
}

func (s *Store) misuse(f string, a ...interface{}) {
	s.Misuse = append(s.Misuse, fmt.Sprintf(f, a...))
}

// Trouble reports misuse and leaks so far and forgets them.
func (s *Store) Trouble() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	msg := ""
	if len(s.Misuse) > 0 {
		msg = fmt.Sprint(s.Misuse)
	}
	if s.open != 0 {
		msg += fmt.Sprintf(" %d readers or iterators were not closed", s.open)
	}
	s.Misuse, s.open = nil, 0
	return msg
}

// Dump copies the contents.
func (s *Store) Dump() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := make(map[string]string, len(s.data))
	for k, v := range s.data {
		m[k] = v
	}
	return m
}

// Put stores an entry directly.
func (s *Store) Put(k, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cow()
	s.data[k] = v
	s.keys = nil
}

// Restore replaces the contents.
func (s *Store) Restore(m map[string]string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.data = make(map[string]string, len(m))
	for k, v := range m {
		s.data[k] = v
	}
	s.keys, s.shared = nil, false
}

// cow gives the store its own map; readers keep the old one.
func (s *Store) cow() {
	if !s.shared {
		return
	}
	s.shared = false
	n := make(map[string]string, len(s.data)+1)
	for k, v := range s.data {
		n[k] = v
	}
	s.data = n
}

func (s *Store) sorted() []string {
	if s.keys == nil {
		s.keys = make([]string, 0, len(s.data))
		for k := range s.data {
			s.keys = append(s.keys, k)
		}
		sort.Strings(s.keys)
	}
	return s.keys
}

func (s *Store) call(name string) error {
	s.Calls++
	s.CallLog = append(s.CallLog, name)
	if s.Fail[s.Calls] {
		return ErrInjected
	}
	return nil
}

// Close is never the business of an index.
func (s *Store) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.misuse("the store was closed")
	return nil
}

// Reader opens a snapshot.
func (s *Store) Reader() (store.KVReader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.call("Reader"); err != nil {
		return nil, err
	}
	s.open++
	s.shared = true
	return &reader{s: s, data: s.data, keys: s.sorted()}, nil
}

// Writer opens a writer.
func (s *Store) Writer() (store.KVWriter, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.call("Writer"); err != nil {
		return nil, err
	}
	return &writer{s: s}, nil
}

type reader struct {
	s      *Store
	data   map[string]string
	keys   []string
	closed bool
	iters  int
}

func (r *reader) use(what string) {
	if r.closed {
		r.s.misuse("%s on a closed reader", what)
	}
}

func (r *reader) Get(k []byte) ([]byte, error) {
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	r.use("Get")
	if v, ok := r.data[string(k)]; ok {
		return append(make([]byte, 0, len(v)), v...), nil
	}
	return nil, nil
}

func (r *reader) MultiGet(keys [][]byte) ([][]byte, error) {
	res := make([][]byte, len(keys))
	for i, k := range keys {
		res[i], _ = r.Get(k)
	}
	return res, nil
}

func (r *reader) PrefixIterator(p []byte) store.KVIterator {
	ps := string(p)
	return r.iter("PrefixIterator", ps, func(k string) bool { return len(k) >= len(ps) && k[:len(ps)] == ps })
}

func (r *reader) RangeIterator(start, end []byte) store.KVIterator {
	es, bounded := string(end), end != nil
	return r.iter("RangeIterator", string(start), func(k string) bool { return !bounded || k < es })
}

func (r *reader) iter(what, start string, in func(string) bool) store.KVIterator {
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	r.use(what)
	r.s.open++
	r.iters++
	it := &iterator{r: r, start: start, in: in}
	it.pos = sort.SearchStrings(r.keys, start)
	it.load()
	return it
}

func (r *reader) Close() error {
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	if r.closed {
		return nil
	}
	r.closed = true
	if r.iters != 0 {
		r.s.misuse("a reader was closed before %d of its iterators", r.iters)
	}
	r.s.open--
	return nil
}

type iterator struct {
	r        *reader
	start    string
	in       func(string) bool
	pos      int
	kbuf     []byte
	vbuf     []byte
	valid    bool
	closed   bool
	finished bool
}

// load fills the only buffers the iterator ever hands out.
func (it *iterator) load() {
	for i := range it.kbuf {
		it.kbuf[i] = 0xee
	}
	for i := range it.vbuf {
		it.vbuf[i] = 0xee
	}
	it.valid = !it.closed && it.pos < len(it.r.keys) && it.in(it.r.keys[it.pos])
	if it.valid {
		k := it.r.keys[it.pos]
		it.kbuf = append(it.kbuf[:0], k...)
		it.vbuf = append(it.vbuf[:0], it.r.data[k]...)
	}
}

func (it *iterator) use(what string) {
	if it.closed {
		it.r.s.misuse("%s on a closed iterator", what)
	} else if it.r.closed {
		it.r.s.misuse("%s on an iterator of a closed reader", what)
	}
}

func (it *iterator) Seek(k []byte) {
	it.r.s.mu.Lock()
	defer it.r.s.mu.Unlock()
	it.use("Seek")
	ks := string(k)
	if ks < it.start {
		ks = it.start
	}
	it.pos = sort.SearchStrings(it.r.keys, ks)
	it.load()
}

func (it *iterator) Next() {
	it.r.s.mu.Lock()
	defer it.r.s.mu.Unlock()
	it.use("Next")
	if it.valid {
		it.pos++
		it.load()
	}
}

func (it *iterator) Key() []byte {
	k, _, _ := it.Current()
	return k
}

func (it *iterator) Value() []byte {
	_, v, _ := it.Current()
	return v
}

func (it *iterator) Valid() bool {
	_, _, ok := it.Current()
	return ok
}

func (it *iterator) Current() ([]byte, []byte, bool) {
	it.r.s.mu.Lock()
	defer it.r.s.mu.Unlock()
	it.use("Current")
	if !it.valid || it.closed {
		return nil, nil, false
	}
	return it.kbuf, it.vbuf, true
}

func (it *iterator) Close() error {
	it.r.s.mu.Lock()
	defer it.r.s.mu.Unlock()
	if it.closed {
		return nil
	}
	if it.r.closed {
		it.r.s.misuse("an iterator was closed after its reader")
	} else {
		it.r.iters--
	}
	it.closed = true
	it.load()
	it.r.s.open--
	return nil
}

type writer struct {
	s      *Store
	closed bool
}

func (w *writer) NewBatch() store.KVBatch {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.closed {
		w.s.misuse("NewBatch on a closed writer")
	}
	return &batch{s: w.s}
}

func (w *writer) NewBatchEx(o store.KVBatchOptions) ([]byte, store.KVBatch, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.closed {
		w.s.misuse("NewBatchEx on a closed writer")
	}
	if err := w.s.call("NewBatchEx"); err != nil {
		return nil, nil, err
	}
	return make([]byte, o.TotalBytes), &batch{s: w.s}, nil
}

func (w *writer) ExecuteBatch(b store.KVBatch) error {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.closed {
		w.s.misuse("ExecuteBatch on a closed writer")
	}
	mb, ok := b.(*batch)
	if !ok {
		return errors.New("wrong type of batch")
	}
	if mb.closed {
		w.s.misuse("ExecuteBatch of a closed batch")
	}
	if err := w.s.call("ExecuteBatch"); err != nil {
		return err
	}
	w.s.cow()
	for _, o := range mb.ops {
		if o.del {
			delete(w.s.data, o.k)
		} else {
			w.s.data[o.k] = o.v
		}
	}
	w.s.keys = nil
	return nil
}

func (w *writer) Close() error { w.closed = true; return nil }

type op struct {
	k, v string
	del  bool
}

type batch struct {
	s      *Store
	ops    []op
	closed bool
}

func (b *batch) use(what string) {
	if b.closed {
		b.s.misuse("%s on a closed batch", what)
	}
}
func (b *batch) Set(k, v []byte) {
	b.use("Set")
	b.ops = append(b.ops, op{string(k), string(v), false})
}
func (b *batch) Delete(k []byte)   { b.use("Delete"); b.ops = append(b.ops, op{string(k), "", true}) }
func (b *batch) Merge(k, v []byte) { b.s.misuse("Merge on a store without a merge operator") }
func (b *batch) Reset()            { b.ops = nil }
func (b *batch) Close() error      { b.closed = true; return nil }
