// Package eng opens the storage engines and provides the reference model.
package eng

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
)

func init() { log.SetOutput(io.Discard) }

// Names of the real engines.
var Names = []string{"gtreap", "boltdb", "goleveldb", "badger"}

// Persistent engines.
var Persistent = []string{"boltdb", "goleveldb", "badger"}

type cfg = map[string]interface{}

var (
	baseOnce sync.Once
	base     string
	seq      int64
)

// Scratch returns a fresh directory in memory-backed storage.
func Scratch() string {
	baseOnce.Do(func() {
		for _, d := range []string{os.Getenv("VERIF_SCRATCH"), "/dev/shm", os.TempDir()} {
			if d == "" {
				continue
			}
			b, err := os.MkdirTemp(d, "verif-mc-")
			if err == nil {
				base = b
				return
			}
		}
		panic("no scratch directory")
	})
	d := filepath.Join(base, fmt.Sprint(atomic.AddInt64(&seq, 1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Cleanup removes every scratch directory of this process.
func Cleanup() {
	if base != "" {
		os.RemoveAll(base)
	}
}

// quiet: badger logs to stderr through its own logger; main redirects stderr of the process when wanted.

// Open opens engine name at dir (dir/db) with extra configuration.
func Open(name, dir string, mo store.MergeOperator, extra cfg) (store.KVStore, error) {
	c := cfg{}
	for k, v := range extra {
		c[k] = v
	}
	if _, ok := c["path"]; !ok {
		if name == "gtreap" {
			c["path"] = ""
		} else {
			c["path"] = filepath.Join(dir, "db")
		}
	}
	switch name {
	case "gtreap":
		return gtreap.New(mo, c)
	case "boltdb":
		return boltdb.New(mo, c)
	case "goleveldb":
		return goleveldb.New(mo, c)
	case "badger":
		return badger.New(mo, c)
	}
	panic(name)
}

// Model is the reference: a map from key to value.
type Model map[string]string

// Clone copies m.
func (m Model) Clone() Model {
	n := make(Model, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Keys in order.
func (m Model) Keys() []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m Model) String() string {
	var b strings.Builder
	b.WriteByte('{')
	for i, k := range m.Keys() {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s=%s", Q(k), Q(m[k]))
	}
	b.WriteByte('}')
	return b.String()
}

// Q abbreviates a byte string.
func Q(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes, hash %x)", s[:16], len(s), hash(s))
	}
	return fmt.Sprintf("%q", s)
}

func hash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// ScanAll reads everything visible to a reader through a full range iterator.
func ScanAll(r store.KVReader) ([][2]string, error) {
	it := r.RangeIterator(nil, nil)
	var out [][2]string
	for {
		k, v, ok := it.Current()
		if !ok {
			break
		}
		out = append(out, [2]string{string(k), string(v)})
		if len(out) > 1000000 {
			it.Close()
			return nil, fmt.Errorf("iterator does not end")
		}
		it.Next()
	}
	return out, it.Close()
}

// Contents is the full scan as a map, with an error when the scan is not strictly ascending.
func Contents(s store.KVStore) (Model, error) {
	r, err := s.Reader()
	if err != nil {
		return nil, err
	}
	kvs, err := ScanAll(r)
	if err != nil {
		r.Close()
		return nil, err
	}
	m := Model{}
	for i, kv := range kvs {
		if i > 0 && kvs[i-1][0] >= kv[0] {
			r.Close()
			return nil, fmt.Errorf("scan not strictly ascending: %s then %s", Q(kvs[i-1][0]), Q(kv[0]))
		}
		m[kv[0]] = kv[1]
	}
	return m, r.Close()
}

// Diff compares two models.
func Diff(want, got Model) string {
	if len(want) == len(got) {
		same := true
		for k, v := range want {
			if g, ok := got[k]; !ok || g != v {
				same = false
				break
			}
		}
		if same {
			return ""
		}
	}
	return fmt.Sprintf("expected %v\n  observed %v", want, got)
}

// CheckReader compares everything r shows (Get, MultiGet, scan) with m; keys are also probed when absent.
func CheckReader(r store.KVReader, m Model, keys []string) string {
	kvs, err := ScanAll(r)
	if err != nil {
		return "scan: " + err.Error()
	}
	ks := m.Keys()
	bad := len(kvs) != len(ks)
	for i := 0; !bad && i < len(ks); i++ {
		bad = kvs[i][0] != ks[i] || kvs[i][1] != m[ks[i]]
	}
	if bad {
		var b strings.Builder
		for _, kv := range kvs {
			fmt.Fprintf(&b, " %s=%s", Q(kv[0]), Q(kv[1]))
		}
		return fmt.Sprintf("full scan: expected %v, observed%s", m, b.String())
	}
	bk := make([][]byte, len(keys))
	for i, k := range keys {
		bk[i] = []byte(k)
		v, err := r.Get([]byte(k))
		if err != nil {
			return fmt.Sprintf("Get(%q): %v", k, err)
		}
		if s := cmpVal(m, k, v); s != "" {
			return "Get" + s
		}
	}
	vs, err := r.MultiGet(bk)
	if err != nil {
		return fmt.Sprintf("MultiGet: %v", err)
	}
	if len(vs) != len(bk) {
		return fmt.Sprintf("MultiGet of %d keys returned %d values", len(bk), len(vs))
	}
	for i, k := range keys {
		if s := cmpVal(m, k, vs[i]); s != "" {
			return "MultiGet" + s
		}
	}
	return ""
}

func cmpVal(m Model, k string, v []byte) string {
	w, ok := m[k]
	switch {
	case !ok && v != nil:
		return fmt.Sprintf("(%s) expected nil (absent), observed %s", Q(k), Q(string(v)))
	case ok && v == nil:
		return fmt.Sprintf("(%s) expected %s, observed nil (absent)", Q(k), Q(w))
	case ok && w != string(v):
		return fmt.Sprintf("(%s) expected %s, observed %s", Q(k), Q(w), Q(string(v)))
	}
	return ""
}

// Check opens a reader and compares everything with m.
func Check(s store.KVStore, m Model, keys []string) string {
	r, err := s.Reader()
	if err != nil {
		return "Reader: " + err.Error()
	}
	msg := CheckReader(r, m, keys)
	if err := r.Close(); err != nil && msg == "" {
		msg = "Reader.Close: " + err.Error()
	}
	return msg
}

// Clear deletes everything through the store's own interface and verifies that it is empty.
func Clear(s store.KVStore) error {
	m, err := Contents(s)
	if err != nil {
		return err
	}
	if len(m) == 0 {
		return nil
	}
	w, err := s.Writer()
	if err != nil {
		return err
	}
	defer w.Close()
	b := w.NewBatch()
	for k := range m {
		b.Delete([]byte(k))
	}
	if err := w.ExecuteBatch(b); err != nil {
		return err
	}
	b.Close()
	m, err = Contents(s)
	if err != nil {
		return err
	}
	if len(m) != 0 {
		return fmt.Errorf("still %v after deleting everything", m)
	}
	return nil
}

// Put writes m in one batch.
func Put(s store.KVStore, m Model) error {
	w, err := s.Writer()
	if err != nil {
		return err
	}
	defer w.Close()
	b := w.NewBatch()
	for _, k := range m.Keys() {
		b.Set([]byte(k), []byte(m[k]))
	}
	err = w.ExecuteBatch(b)
	b.Close()
	return err
}

// AppendMO is a non-commutative merge operator: the result is existing + operands in order.
type AppendMO struct {
	Partial func(key, l, r []byte) bool // nil: always partial
	Fail    func(key []byte) bool
}

func (a *AppendMO) Name() string { return "append" }

func (a *AppendMO) PartialMerge(key, l, r []byte) ([]byte, bool) {
	if a.Partial != nil && !a.Partial(key, l, r) {
		return nil, false
	}
	return bytes.Join([][]byte{l, r}, nil), true
}

func (a *AppendMO) FullMerge(key, existing []byte, ops [][]byte) ([]byte, bool) {
	if a.Fail != nil && a.Fail(key) {
		return nil, false
	}
	return MergeResult(existing, existing != nil, ops), true
}

// MergeResult is what AppendMO computes: "~" marks an absent key, then every operand is concatenated.
func MergeResult(existing []byte, present bool, ops [][]byte) []byte {
	var b []byte
	if present {
		b = append(b, existing...)
	} else {
		b = append(b, '~')
	}
	for _, o := range ops {
		b = append(b, o...)
	}
	return b
}
