// Package vfs stands in for the file operations of the storage engines: it
// performs them and keeps track of what a crash at any moment would leave on
// the disk. Files outside a tracked directory are left to the os package.
//
// The model of the disk: creating, removing, renaming and shrinking files is
// durable at once and in order. Written data is durable once the file was
// synced (or if it was opened for synchronous writes); until then a crash may
// lose any of the pages written, except that a file grows in order, and that
// the contents of a file that was never synced are either all there or all
// missing.
package vfs

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
)

// PageSize is the unit in which written data is lost.
const PageSize = 4096

type page struct {
	b []byte
	h uint64
}

var zeroPage = newPage(make([]byte, PageSize))

func newPage(b []byte) *page {
	h := fnv.New64a()
	h.Write(b)
	return &page{b, h.Sum64()}
}

func pageOf(m map[int64]*page, i int64) *page {
	if p := m[i]; p != nil {
		return p
	}
	return zeroPage
}

type node struct {
	size, durSize int64
	cur, dur      map[int64]*page
	dirty         []int64 // in the order of the first write since the last sync
	synced        bool    // at least once
}

// Disk is a tracked directory.
type Disk struct {
	root string
	mu   sync.Mutex
	// Mark is copied into the images.
	Mark int
	// OnEvent is told about every operation, before it happens and for
	// synchronous writes between the write and the sync. An error is what the
	// operation returns.
	OnEvent func(kind, path string) error
	// OnOpen is told about every opening of a file or directory that exists
	// and every creation of one. An error is what the operation returns.
	OnOpen func(path string) error
	names  map[string]*node
	files  map[*os.File]*node
	gone   bool
}

var (
	disksMu sync.RWMutex
	disks   = map[string]*Disk{}
	open    sync.Map // *os.File -> *handle
	byFd    sync.Map // int -> *os.File
)

type handle struct {
	d     *Disk
	n     *node
	path  string
	synch bool
	app   bool
}

// Track tracks a directory, whose files must be those of im (which may be nil).
func Track(root string, im *Image) *Disk {
	d := &Disk{root: root, names: map[string]*node{}}
	if im != nil {
		for p, f := range im.Files {
			n := &node{size: f.Size, durSize: f.Size, cur: map[int64]*page{}, dur: map[int64]*page{}, synced: f.Size > 0}
			for i, pg := range f.pages {
				n.cur[i], n.dur[i] = pg, pg
			}
			d.names[p] = n
		}
	}
	disksMu.Lock()
	disks[root] = d
	disksMu.Unlock()
	return d
}

// Untrack forgets about it.
func (d *Disk) Untrack() {
	disksMu.Lock()
	delete(disks, d.root)
	disksMu.Unlock()
	d.mu.Lock()
	d.gone = true
	d.mu.Unlock()
	open.Range(func(k, v interface{}) bool {
		if v.(*handle).d == d {
			open.Delete(k)
		}
		return true
	})
}

func find(path string) (*Disk, string) {
	p, err := filepath.Abs(path)
	if err != nil {
		return nil, ""
	}
	disksMu.RLock()
	defer disksMu.RUnlock()
	for r, d := range disks {
		if p == r {
			return d, "."
		}
		if strings.HasPrefix(p, r+"/") {
			return d, p[len(r)+1:]
		}
	}
	return nil, ""
}

func (d *Disk) event(kind, path string) error {
	if d.OnEvent == nil || d.gone {
		return nil
	}
	return d.OnEvent(kind, path)
}

// OpenFile replaces os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	d, p := find(name)
	if d == nil {
		return os.OpenFile(name, flag, perm)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	n := d.names[p]
	if d.OnOpen != nil {
		if err := d.OnOpen(p); err != nil {
			return nil, &os.PathError{Op: "open", Path: name, Err: err}
		}
	}
	if n == nil && flag&os.O_CREATE != 0 {
		if err := d.event("create", p); err != nil {
			return nil, &os.PathError{Op: "open", Path: name, Err: err}
		}
	}
	if n != nil && flag&os.O_TRUNC != 0 && n.size > 0 {
		if err := d.event("truncate", p); err != nil {
			return nil, &os.PathError{Op: "open", Path: name, Err: err}
		}
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if st, err := f.Stat(); err == nil && st.IsDir() {
		return f, nil
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			panic("mck: vfs: unknown file " + name)
		}
		n = &node{cur: map[int64]*page{}, dur: map[int64]*page{}}
		d.names[p] = n
	} else if flag&os.O_TRUNC != 0 {
		n.resize(0)
	}
	open.Store(f, &handle{d: d, n: n, path: p, synch: flag&(syscall.O_DSYNC|syscall.O_SYNC) != 0, app: flag&os.O_APPEND != 0})
	byFd.Store(int(f.Fd()), f)
	return f, nil
}

// Create replaces os.Create.
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// Open replaces os.Open.
func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Remove replaces os.Remove.
func Remove(name string) error {
	d, p := find(name)
	if d == nil {
		return os.Remove(name)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.event("remove", p); err != nil {
		return &os.PathError{Op: "remove", Path: name, Err: err}
	}
	err := os.Remove(name)
	if err == nil {
		delete(d.names, p)
	}
	return err
}

// RemoveAll replaces os.RemoveAll.
func RemoveAll(name string) error {
	d, p := find(name)
	if d == nil {
		return os.RemoveAll(name)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.event("remove", p); err != nil {
		return err
	}
	err := os.RemoveAll(name)
	for k := range d.names {
		if p == "." || k == p || strings.HasPrefix(k, p+"/") {
			delete(d.names, k)
		}
	}
	return err
}

// Rename replaces os.Rename.
func Rename(from, to string) error {
	d, p := find(from)
	d2, q := find(to)
	if d == nil || d2 != d {
		return os.Rename(from, to)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.event("rename", p); err != nil {
		return err
	}
	err := os.Rename(from, to)
	if err == nil {
		d.names[q] = d.names[p]
		delete(d.names, p)
	}
	return err
}

// Truncate replaces os.Truncate.
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer Wrap(f).Close()
	return Wrap(f).Truncate(size)
}

// WriteFile replaces os.WriteFile.
func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = Wrap(f).Write(b)
	if err2 := Wrap(f).Close(); err == nil {
		err = err2
	}
	return err
}

// Mkdir replaces os.Mkdir.
func Mkdir(name string, perm os.FileMode) error {
	if d, p := find(name); d != nil {
		d.mu.Lock()
		defer d.mu.Unlock()
		if err := d.event("mkdir", p); err != nil {
			return err
		}
	}
	return os.Mkdir(name, perm)
}

// MkdirAll replaces os.MkdirAll.
func MkdirAll(name string, perm os.FileMode) error { return os.MkdirAll(name, perm) }

// Fdatasync replaces syscall.Fdatasync.
func Fdatasync(fd int) error {
	if f, ok := byFd.Load(fd); ok {
		if _, ok := open.Load(f); ok {
			return Wrap(f.(*os.File)).Sync()
		}
	}
	return syscall.Fdatasync(fd)
}

// F is a wrapped file.
type F struct {
	f *os.File
	h *handle
}

// Wrap wraps a file.
func Wrap(f *os.File) F {
	if f != nil {
		if h, ok := open.Load(f); ok {
			return F{f, h.(*handle)}
		}
	}
	return F{f: f}
}

func (f F) untracked() bool { return f.h == nil }

// WriteAt replaces (*os.File).WriteAt.
func (f F) WriteAt(b []byte, off int64) (int, error) {
	if f.untracked() {
		return f.f.WriteAt(b, off)
	}
	d := f.h.d
	d.mu.Lock()
	defer d.mu.Unlock()
	return f.write(b, off, func() (int, error) { return f.f.WriteAt(b, off) })
}

func (f F) write(b []byte, off int64, do func() (int, error)) (int, error) {
	d := f.h.d
	if err := d.event("write", f.h.path); err != nil {
		return 0, err
	}
	n, err := do()
	f.h.n.put(b[:n], off)
	if f.h.synch && err == nil {
		if err := d.event("sync", f.h.path); err != nil {
			return 0, err
		}
		f.h.n.sync()
	}
	return n, err
}

// Write replaces (*os.File).Write.
func (f F) Write(b []byte) (int, error) {
	if f.untracked() {
		return f.f.Write(b)
	}
	d := f.h.d
	d.mu.Lock()
	defer d.mu.Unlock()
	var off int64
	if f.h.app {
		off = f.h.n.size
	} else {
		off, _ = f.f.Seek(0, io.SeekCurrent)
	}
	return f.write(b, off, func() (int, error) { return f.f.Write(b) })
}

// WriteString replaces (*os.File).WriteString.
func (f F) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom replaces (*os.File).ReadFrom.
func (f F) ReadFrom(r io.Reader) (int64, error) {
	if f.untracked() {
		return f.f.ReadFrom(r)
	}
	return io.Copy(struct{ io.Writer }{f}, r)
}

// Truncate replaces (*os.File).Truncate.
func (f F) Truncate(size int64) error {
	if f.untracked() {
		return f.f.Truncate(size)
	}
	d := f.h.d
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.event("truncate", f.h.path); err != nil {
		return err
	}
	err := f.f.Truncate(size)
	if err == nil {
		f.h.n.resize(size)
	}
	return err
}

// Sync replaces (*os.File).Sync.
func (f F) Sync() error {
	if f.untracked() {
		return f.f.Sync()
	}
	d := f.h.d
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.event("sync", f.h.path); err != nil {
		return err
	}
	f.h.n.sync() // and no need to wait for the real disk
	return nil
}

// Close replaces (*os.File).Close.
func (f F) Close() error {
	if f.f != nil {
		open.Delete(f.f)
	}
	return f.f.Close()
}

func (n *node) put(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	end := off + int64(len(b))
	for i := off / PageSize; i*PageSize < end; i++ {
		nb := append([]byte{}, pageOf(n.cur, i).b...)
		from, to := i*PageSize, (i+1)*PageSize
		if from < off {
			from = off
		}
		if to > end {
			to = end
		}
		copy(nb[from-i*PageSize:], b[from-off:to-off])
		n.cur[i] = newPage(nb)
		known := false
		for _, d := range n.dirty {
			known = known || d == i
		}
		if !known {
			n.dirty = append(n.dirty, i)
		}
	}
	if end > n.size {
		n.size = end
	}
}

func (n *node) resize(size int64) {
	if size < n.size {
		for _, m := range []map[int64]*page{n.cur, n.dur} {
			for i, p := range m {
				if i*PageSize >= size {
					delete(m, i)
				} else if (i+1)*PageSize > size {
					nb := append([]byte{}, p.b...)
					for k := size - i*PageSize; k < PageSize; k++ {
						nb[k] = 0
					}
					m[i] = newPage(nb)
				}
			}
		}
		var dirty []int64
		for _, i := range n.dirty {
			if i*PageSize < size {
				dirty = append(dirty, i)
			}
		}
		n.dirty = dirty
		if n.durSize > size {
			n.durSize = size
		}
	}
	if size > n.size {
		n.durSize = size // of metadata only: zeros
	}
	n.size = size
}

func (n *node) sync() {
	for _, i := range n.dirty {
		n.dur[i] = n.cur[i]
	}
	n.dirty = nil
	n.durSize = n.size
	n.synced = true
}

// ImageFile is a file on the disk after a crash.
type ImageFile struct {
	Size  int64
	pages map[int64]*page
}

// Image is what a crash leaves.
type Image struct {
	Name  string
	Mark  int
	Files map[string]*ImageFile
}

// Hash identifies the contents.
func (im *Image) Hash() uint64 {
	h := fnv.New64a()
	var names []string
	for k := range im.Files {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		f := im.Files[k]
		fmt.Fprintf(h, "%s %d ", k, f.Size)
		var is []int64
		for i, p := range f.pages {
			if p.h != zeroPage.h {
				is = append(is, i)
			}
		}
		sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
		for _, i := range is {
			fmt.Fprintf(h, "%d:%x ", i, f.pages[i].h)
		}
	}
	return h.Sum64()
}

// Write writes the files into a directory.
func (im *Image) Write(dir string) error {
	for name, f := range im.Files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		w, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o666)
		if err != nil {
			return err
		}
		for i, pg := range f.pages {
			if pg.h == zeroPage.h {
				continue
			}
			b := pg.b
			if (i+1)*PageSize > f.Size {
				if i*PageSize >= f.Size {
					continue
				}
				b = b[:f.Size-i*PageSize]
			}
			if _, err := w.WriteAt(b, i*PageSize); err != nil {
				return err
			}
		}
		if err := w.Truncate(f.Size); err != nil {
			return err
		}
		if err := w.Close(); err != nil {
			return err
		}
	}
	return nil
}

type unit struct {
	n    *node
	path string
	i    int64 // the page, or -1 for a file that was never synced
}

// Dirty is the number of unsynced units. Must be called from OnEvent.
func (d *Disk) units() []unit {
	var us []unit
	var names []string
	for k := range d.names {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		n := d.names[k]
		if !n.synced {
			if n.size > 0 {
				us = append(us, unit{n, k, -1})
			}
			continue
		}
		for _, i := range n.dirty {
			us = append(us, unit{n, k, i})
		}
	}
	return us
}

// Images calls f for what a crash now may leave: all that was written, only
// what was synced, and the patterns in between: all subsets of the unsynced
// pages if they are at most all, and otherwise all prefixes, single losses and
// single survivors; and each page torn in the middle. Must be called from
// OnEvent.
func (d *Disk) Images(all int, torn bool, f func(im *Image)) {
	us := d.units()
	give := func(name string, keep func(j int) bool, tear int) {
		im := &Image{Name: name, Mark: d.Mark, Files: map[string]*ImageFile{}}
		for k, n := range d.names {
			if !n.synced {
				im.Files[k] = &ImageFile{}
				continue
			}
			pf := &ImageFile{Size: n.durSize, pages: make(map[int64]*page, len(n.dur)+2)}
			for i, p := range n.dur {
				pf.pages[i] = p
			}
			im.Files[k] = pf
		}
		for j, u := range us {
			pf := im.Files[u.path]
			if u.i < 0 {
				if keep(j) {
					pf.Size, pf.pages = u.n.size, map[int64]*page{}
					for i, p := range u.n.cur {
						pf.pages[i] = p
					}
				}
				continue
			}
			if !keep(j) {
				continue
			}
			p := u.n.cur[u.i]
			end := (u.i + 1) * PageSize
			if end > u.n.size {
				end = u.n.size
			}
			if u.i*PageSize > pf.Size {
				continue // a file grows in order
			}
			if j == tear {
				nb := append([]byte{}, pageOf(u.n.dur, u.i).b...)
				copy(nb[:PageSize/2], p.b)
				p = newPage(nb)
				if h := u.i*PageSize + PageSize/2; end > pf.Size && end > h {
					end = h
					if pf.Size > end {
						end = pf.Size
					}
				}
			}
			pf.pages[u.i] = p
			if end > pf.Size {
				pf.Size = end
			}
		}
		f(im)
	}
	n := len(us)
	give("all written", func(int) bool { return true }, -1)
	if n == 0 {
		return
	}
	if n <= all {
		for m := 0; m < 1<<n-1; m++ {
			give(fmt.Sprintf("unsynced pages %b of %d", m, n), func(j int) bool { return m>>j&1 == 1 }, -1)
		}
	} else {
		for k := 0; k < n; k++ {
			give(fmt.Sprintf("the first %d of %d unsynced pages", k, n), func(j int) bool { return j < k }, -1)
			if k > 0 {
				give(fmt.Sprintf("only unsynced page %d of %d", k, n), func(j int) bool { return j == k }, -1)
			}
			if k < n-1 {
				give(fmt.Sprintf("without unsynced page %d of %d", k, n), func(j int) bool { return j != k }, -1)
			}
		}
	}
	if torn {
		for k := 0; k < n; k++ {
			give(fmt.Sprintf("unsynced page %d of %d torn", k, n), func(j int) bool { return true }, k)
			if n > 1 {
				give(fmt.Sprintf("only half of unsynced page %d of %d", k, n), func(j int) bool { return j == k }, k)
			}
		}
	}
}

// Now is what is written now.
func (d *Disk) Now() *Image {
	var rv *Image
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Images(0, false, func(im *Image) {
		if rv == nil {
			rv = im
		}
	})
	return rv
}

// Check compares what is tracked with the real files.
func (d *Disk) Check() {
	d.mu.Lock()
	defer d.mu.Unlock()
	for k, n := range d.names {
		f, err := os.Open(filepath.Join(d.root, k))
		if err != nil {
			panic("mck: vfs: " + err.Error())
		}
		st, _ := f.Stat()
		if st.Size() != n.size {
			panic(fmt.Sprintf("mck: vfs: %s has %d bytes instead of %d", k, st.Size(), n.size))
		}
		for i := int64(0); i*PageSize < n.size && i < 1<<10; i++ {
			b := make([]byte, PageSize)
			m, _ := f.ReadAt(b, i*PageSize)
			if string(b[:m]) != string(pageOf(n.cur, i).b[:m]) {
				panic(fmt.Sprintf("mck: vfs: %s differs in page %d", k, i))
			}
		}
		f.Close()
	}
}

// Event lets OnEvent be called for a moment without an operation.
func (d *Disk) Event(kind string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.event(kind, "")
}

// Locked runs f while nothing happens to the disk.
func (d *Disk) Locked(f func()) {
	d.mu.Lock()
	defer d.mu.Unlock()
	f()
}
