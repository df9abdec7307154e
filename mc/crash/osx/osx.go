// Package osx has the parts of package os the storage engines use, and records the changes made under a directory being
// watched so that package crash can rebuild what a crash may leave.
package osx

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

// Event is one recorded change.
type Event struct {
	Kind     byte // c create, w write, t truncate, s sync, r rename, d remove, m mkdir, p sync of everything, k mark
	Ino      int
	Path, To string
	Off      int64
	Data     []byte
	Mark     string
}

// Rec records the changes under Dir.
type Rec struct {
	Dir    string
	mu     sync.Mutex
	Events []Event
	inos   map[string]int
	next   int
	off    bool

	fail, fails, ops int
}

// Fail makes writes, truncations, renames and syncs fail: number first, counting from now on, and times-1 ones after it.
func (r *Rec) Fail(first, times int) {
	r.mu.Lock()
	r.fail, r.fails, r.ops = first, times, 0
	r.mu.Unlock()
}

// Ops is the number of operations counted since Fail.
func (r *Rec) Ops() int { r.mu.Lock(); defer r.mu.Unlock(); return r.ops }

var errIO = &os.PathError{Op: "injected", Path: "disk", Err: errors.New("input/output error")}

// broken counts an operation and tells whether it has to fail; with r.mu held.
func (r *Rec) broken() bool {
	if r.off {
		return false
	}
	r.ops++
	return r.fails > 0 && r.ops > r.fail && r.ops <= r.fail+r.fails
}

var (
	mu   sync.Mutex
	recs = map[string]*Rec{}
)

// Watch starts recording under dir, which must exist and be empty.
func Watch(dir string) *Rec {
	r := &Rec{Dir: filepath.Clean(dir), inos: map[string]int{}}
	mu.Lock()
	recs[r.Dir] = r
	mu.Unlock()
	return r
}

// Stop ends the recording.
func (r *Rec) Stop() {
	mu.Lock()
	delete(recs, r.Dir)
	mu.Unlock()
	r.mu.Lock()
	r.off = true
	r.mu.Unlock()
}

// Mark adds a marker and returns the number of events so far.
func (r *Rec) Mark(s string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Events = append(r.Events, Event{Kind: 'k', Mark: s})
	return len(r.Events)
}

func find(path string) (*Rec, string) {
	p, err := filepath.Abs(path)
	if err != nil {
		return nil, ""
	}
	mu.Lock()
	defer mu.Unlock()
	for d := p; ; d = filepath.Dir(d) {
		if r := recs[d]; r != nil {
			rel := strings.TrimPrefix(strings.TrimPrefix(p, d), "/")
			if ignored(rel) {
				return nil, ""
			}
			return r, rel
		}
		if d == "/" || d == "." {
			return nil, ""
		}
	}
}

// Lock files and logs for humans carry no data.
func ignored(rel string) bool {
	b := filepath.Base(rel)
	return b == "LOCK" || b == "LOG" || b == "LOG.old"
}

func (r *Rec) add(e Event) { r.Events = append(r.Events, e) }

// ino of an existing or new file; with r.mu held.
func (r *Rec) ino(rel string, created bool) int {
	n, ok := r.inos[rel]
	if !ok || created {
		r.next++
		n = r.next
		r.inos[rel] = n
		r.add(Event{Kind: 'c', Ino: n, Path: rel})
	}
	return n
}

// File is an open file.
type File struct {
	*os.File
	rec   *Rec
	n     int
	rel   string
	dir   bool
	dsync bool
	app   bool
}

// O_DSYNC and O_SYNC, on every architecture we run on.
const dsyncFlag = 0x1000

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	r, rel := find(name)
	if r == nil {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{File: f}, nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	_, statErr := os.Stat(name)
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	x := &File{File: f, rec: r, rel: rel, dsync: flag&dsyncFlag != 0, app: flag&os.O_APPEND != 0}
	if fi.IsDir() {
		x.dir = true
		return x, nil
	}
	x.n = r.ino(rel, os.IsNotExist(statErr))
	if flag&os.O_TRUNC != 0 && statErr == nil {
		r.add(Event{Kind: 't', Ino: x.n})
	}
	return x, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) lock() bool {
	if f.rec == nil || f.dir {
		return false
	}
	f.rec.mu.Lock()
	if f.rec.off {
		f.rec.mu.Unlock()
		return false
	}
	return true
}

func (f *File) wrote(off int64, b []byte) {
	if len(b) == 0 {
		return
	}
	f.rec.add(Event{Kind: 'w', Ino: f.n, Off: off, Data: append([]byte{}, b...)})
	if f.dsync {
		f.rec.add(Event{Kind: 's', Ino: f.n})
	}
}

func (f *File) Write(b []byte) (int, error) {
	if !f.lock() {
		return f.File.Write(b)
	}
	defer f.rec.mu.Unlock()
	whence := io.SeekCurrent
	if f.app {
		whence = io.SeekEnd
	}
	if f.rec.broken() {
		return 0, errIO
	}
	off, err := f.File.Seek(0, whence)
	if err != nil {
		return 0, err
	}
	n, err := f.File.Write(b)
	f.wrote(off, b[:n])
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if !f.lock() {
		return f.File.WriteAt(b, off)
	}
	defer f.rec.mu.Unlock()
	if f.rec.broken() {
		return 0, errIO
	}
	n, err := f.File.WriteAt(b, off)
	f.wrote(off, b[:n])
	return n, err
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Truncate(size int64) error {
	if !f.lock() {
		return f.File.Truncate(size)
	}
	defer f.rec.mu.Unlock()
	if f.rec.broken() {
		return errIO
	}
	err := f.File.Truncate(size)
	if err == nil {
		f.rec.add(Event{Kind: 't', Ino: f.n, Off: size})
	}
	return err
}

func (f *File) Sync() error {
	if f.rec == nil {
		return f.File.Sync()
	}
	f.rec.mu.Lock()
	defer f.rec.mu.Unlock()
	if f.rec.broken() {
		return errIO
	}
	if !f.rec.off {
		if f.dir {
			f.rec.add(Event{Kind: 'p', Path: f.rel})
		} else {
			f.rec.add(Event{Kind: 's', Ino: f.n})
		}
	}
	return nil // nothing survives a real crash of the scratch directory anyway
}

// Fdatasync stands in for syscall.Fdatasync.
func Fdatasync(f *File) error { return f.Sync() }

func Rename(a, b string) error {
	r, ra := find(a)
	if r == nil {
		return os.Rename(a, b)
	}
	_, rb := find(b)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.broken() {
		return errIO
	}
	err := os.Rename(a, b)
	if err == nil {
		if n, ok := r.inos[ra]; ok {
			delete(r.inos, ra)
			r.inos[rb] = n
		}
		r.add(Event{Kind: 'r', Path: ra, To: rb})
	}
	return err
}

func Remove(name string) error {
	r, rel := find(name)
	if r == nil {
		return os.Remove(name)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	err := os.Remove(name)
	if err == nil {
		delete(r.inos, rel)
		r.add(Event{Kind: 'd', Path: rel})
	}
	return err
}

func RemoveAll(name string) error {
	r, rel := find(name)
	if r == nil {
		return os.RemoveAll(name)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	err := os.RemoveAll(name)
	for p := range r.inos {
		if p == rel || strings.HasPrefix(p, rel+"/") || rel == "" {
			delete(r.inos, p)
			r.add(Event{Kind: 'd', Path: p})
		}
	}
	return err
}

func Mkdir(name string, perm os.FileMode) error {
	err := os.Mkdir(name, perm)
	if err == nil {
		made(name)
	}
	return err
}

func MkdirAll(name string, perm os.FileMode) error {
	_, serr := os.Stat(name)
	err := os.MkdirAll(name, perm)
	if err == nil && serr != nil {
		made(name)
	}
	return err
}

func made(name string) {
	if r, rel := find(name); r != nil {
		r.mu.Lock()
		r.add(Event{Kind: 'm', Path: rel})
		r.mu.Unlock()
	}
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err == nil {
		err = err1
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	name := f.Name()
	f.Close()
	os.Remove(name)
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// What needs no recording.
type (
	FileMode     = os.FileMode
	FileInfo     = os.FileInfo
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY      = os.O_RDONLY
	O_WRONLY      = os.O_WRONLY
	O_RDWR        = os.O_RDWR
	O_APPEND      = os.O_APPEND
	O_CREATE      = os.O_CREATE
	O_EXCL        = os.O_EXCL
	O_SYNC        = os.O_SYNC
	O_TRUNC       = os.O_TRUNC
	SEEK_SET      = 0
	SEEK_CUR      = 1
	SEEK_END      = 2
	PathSeparator = os.PathSeparator
	ModePerm      = os.ModePerm
	ModeDir       = os.ModeDir
	DevNull       = os.DevNull
)

var (
	ErrInvalid    = os.ErrInvalid
	ErrExist      = os.ErrExist
	ErrNotExist   = os.ErrNotExist
	ErrPermission = os.ErrPermission
	ErrClosed     = os.ErrClosed
	Stdin         = os.Stdin
	Stdout        = os.Stdout
	Stderr        = os.Stderr
	Args          = os.Args

	Stat         = os.Stat
	Lstat        = os.Lstat
	ReadFile     = os.ReadFile
	ReadDir      = os.ReadDir
	IsNotExist   = os.IsNotExist
	IsExist      = os.IsExist
	IsPermission = os.IsPermission
	Getpid       = os.Getpid
	Getuid       = os.Getuid
	Getpagesize  = os.Getpagesize
	TempDir      = os.TempDir
	MkdirTemp    = os.MkdirTemp
	Getenv       = os.Getenv
	LookupEnv    = os.LookupEnv
	Hostname     = os.Hostname
	Chmod        = os.Chmod
	Exit         = os.Exit
	SameFile     = os.SameFile
	Getwd        = os.Getwd
)
