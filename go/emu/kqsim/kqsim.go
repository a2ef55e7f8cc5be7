// Package kqsim stands in for the kqueue(2) system calls of the BSDs: vnode
// filters with EV_CLEAR, read filters on pipes, and descriptors. What happens
// in the file system is told to it with Post.
package kqsim

import (
	"fmt"
	"runtime"
	"sync"
	"syscall"
	"time"
)

const (
	EVFILT_READ  = -1
	EVFILT_WRITE = -2
	EVFILT_VNODE = -4

	EV_ADD     = 0x1
	EV_DELETE  = 0x2
	EV_ENABLE  = 0x4
	EV_DISABLE = 0x8
	EV_ONESHOT = 0x10
	EV_CLEAR   = 0x20
	EV_EOF     = 0x8000
	EV_ERROR   = 0x4000

	NOTE_DELETE = 0x1
	NOTE_WRITE  = 0x2
	NOTE_EXTEND = 0x4
	NOTE_ATTRIB = 0x8
	NOTE_LINK   = 0x10
	NOTE_RENAME = 0x20
	NOTE_REVOKE = 0x40

	O_NONBLOCK = syscall.O_NONBLOCK
	O_RDONLY   = syscall.O_RDONLY
	O_CLOEXEC  = syscall.O_CLOEXEC
)

// Kevent_t is struct kevent of the 64 bit BSDs.
type Kevent_t struct {
	Ident  uint64
	Filter int16
	Flags  uint16
	Fflags uint32
	Data   int64
	Udata  *byte
}

// Timespec is struct timespec.
type Timespec = syscall.Timespec

type key struct {
	id     uint64
	filter int16
}

type knote struct {
	kq      *queue
	k       key
	mask    uint32
	fflags  uint32
	clear   bool
	oneshot bool
	active  bool
}

type queue struct {
	fd     int
	notes  map[key]*knote
	active []*knote
	wait   int // number of callers waiting for events
	closed bool
	dead   bool // the case is over
}

// File is a descriptor the library holds.
type File struct {
	FD   int
	Path string // as opened
	Ino  uint64
	Kind string
}

var (
	mu     sync.Mutex
	cond   = sync.NewCond(&mu)
	queues = map[int]*queue{}
	files  = map[int]*File{}
	bad    []string
	gate   bool
	fail   func(call string) error

	// Counters of what happened.
	Registered, Posted, Delivered, Coalesced int64
)

func badf(f string, a ...interface{}) {
	if len(bad) < 20 {
		bad = append(bad, fmt.Sprintf(f, a...))
	}
}

// Inject makes every call for which f returns an error fail with it.
func Inject(f func(call string) error) {
	mu.Lock()
	fail = f
	mu.Unlock()
}

func injected(call string) error {
	if fail != nil {
		return fail(call)
	}
	return nil
}

// Kqueue is kqueue(2).
func Kqueue() (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if err := injected("kqueue"); err != nil {
		return -1, err
	}
	fd, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		return -1, err
	}
	files[fd] = &File{FD: fd, Kind: "kqueue"}
	queues[fd] = &queue{fd: fd, notes: map[key]*knote{}}
	return fd, nil
}

// Pipe is pipe(2).
func Pipe(p []int) error {
	mu.Lock()
	defer mu.Unlock()
	if err := injected("pipe"); err != nil {
		return err
	}
	if err := syscall.Pipe2(p, syscall.O_CLOEXEC); err != nil {
		return err
	}
	files[p[0]] = &File{FD: p[0], Kind: "pipe"}
	files[p[1]] = &File{FD: p[1], Kind: "pipe"}
	return nil
}

// Pipe2 is pipe2(2).
func Pipe2(p []int, flags int) error { return Pipe(p) }

// Open is open(2).
func Open(path string, mode int, perm uint32) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if err := injected("open"); err != nil {
		return -1, err
	}
	var st0 syscall.Stat_t
	if syscall.Stat(path, &st0) == nil {
		switch {
		case st0.Mode&syscall.S_IFMT == syscall.S_IFIFO && mode&syscall.O_NONBLOCK == 0:
			badf("open of %q waits for a writer", path)
			return -1, syscall.EINTR
		case st0.Mode&syscall.S_IFMT == syscall.S_IFSOCK:
			return -1, syscall.EOPNOTSUPP
		}
	}
	fd, err := syscall.Open(path, mode|syscall.O_CLOEXEC, perm)
	if err != nil {
		return -1, err
	}
	var st syscall.Stat_t
	if err := syscall.Fstat(fd, &st); err != nil {
		syscall.Close(fd)
		return -1, err
	}
	files[fd] = &File{FD: fd, Path: path, Ino: st.Ino, Kind: "vnode"}
	return fd, nil
}

// Close is close(2).
func Close(fd int) error {
	mu.Lock()
	defer mu.Unlock()
	f := files[fd]
	if f == nil {
		if fd >= 0 {
			badf("close of descriptor %d, which the library does not hold", fd)
		}
		return syscall.EBADF
	}
	delete(files, fd)
	if q := queues[fd]; q != nil {
		q.closed = true
		delete(queues, fd)
	}
	for _, q := range queues {
		for k, n := range q.notes {
			if k.id == uint64(fd) {
				q.drop(n)
			}
		}
	}
	cond.Broadcast()
	return syscall.Close(fd)
}

// Write is write(2).
func Write(fd int, p []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if files[fd] == nil {
		badf("write to descriptor %d, which the library does not hold", fd)
		return -1, syscall.EBADF
	}
	n, err := syscall.Write(fd, p)
	cond.Broadcast()
	return n, err
}

// Read is read(2).
func Read(fd int, p []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if files[fd] == nil {
		badf("read from descriptor %d, which the library does not hold", fd)
		return -1, syscall.EBADF
	}
	return syscall.Read(fd, p)
}

// CloseOnExec sets FD_CLOEXEC.
func CloseOnExec(fd int) {}

// SetNonblock sets O_NONBLOCK.
func SetNonblock(fd int, nb bool) error { return syscall.SetNonblock(fd, nb) }

// SetKevent is EV_SET.
func SetKevent(k *Kevent_t, fd, mode, flags int) {
	k.Ident = uint64(fd)
	k.Filter = int16(mode)
	k.Flags = uint16(flags)
}

func (q *queue) drop(n *knote) {
	delete(q.notes, n.k)
	for i, x := range q.active {
		if x == n {
			q.active = append(q.active[:i:i], q.active[i+1:]...)
			break
		}
	}
}

func (q *queue) activate(n *knote) {
	if !n.active {
		n.active = true
		q.active = append(q.active, n)
	}
}

// Kevent is kevent(2).
func Kevent(kq int, changes, events []Kevent_t, timeout *Timespec) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	q := queues[kq]
	if q == nil {
		badf("kevent on %d, which is not a kqueue", kq)
		return -1, syscall.EBADF
	}
	for _, c := range changes {
		if err := injected("kevent"); err != nil {
			return -1, err
		}
		k := key{c.Ident, c.Filter}
		n := q.notes[k]
		switch {
		case c.Flags&EV_DELETE != 0:
			if n == nil {
				return -1, syscall.ENOENT
			}
			q.drop(n)
		case c.Flags&EV_ADD != 0:
			f := files[int(c.Ident)]
			if f == nil {
				badf("kevent registers descriptor %d, which the library does not hold", c.Ident)
				return -1, syscall.EBADF
			}
			if c.Filter == EVFILT_VNODE && f.Kind != "vnode" {
				return -1, syscall.EINVAL
			}
			if n == nil {
				n = &knote{kq: q, k: k}
				q.notes[k] = n
				Registered++
			}
			n.mask = c.Fflags
			n.clear, n.oneshot = c.Flags&EV_CLEAR != 0, c.Flags&EV_ONESHOT != 0
			if n.fflags != 0 {
				q.activate(n)
			}
			if c.Filter == EVFILT_VNODE && !n.clear {
				badf("vnode filter without EV_CLEAR on %q", f.Path)
			}
		}
	}
	if len(events) == 0 {
		return 0, nil
	}
	q.wait++
	cond.Broadcast()
	defer func() { q.wait-- }()
	for {
		if q.dead {
			runtime.Goexit()
		}
		if q.closed {
			return -1, syscall.EBADF
		}
		if !gate && len(q.active) > 0 {
			n := q.active[0]
			q.active = q.active[1:]
			n.active = false
			events[0] = Kevent_t{Ident: n.k.id, Filter: n.k.filter, Flags: EV_ADD | EV_CLEAR, Fflags: n.fflags}
			n.fflags = 0
			if n.oneshot {
				delete(q.notes, n.k)
			}
			Delivered++
			return 1, nil
		}
		for k := range q.notes {
			if k.filter == EVFILT_READ && readable(int(k.id)) {
				events[0] = Kevent_t{Ident: k.id, Filter: k.filter, Flags: EV_ADD, Data: 1}
				return 1, nil
			}
		}
		cond.Wait()
	}
}

func readable(fd int) bool {
	f := files[fd]
	if f == nil {
		return false
	}
	var set syscall.FdSet
	set.Bits[fd/64] |= 1 << (uint(fd) % 64)
	tv := syscall.Timeval{}
	n, err := syscall.Select(fd+1, &set, nil, nil, &tv)
	return err == nil && n > 0
}

// Post tells that notes happened to the object with inode number ino.
func Post(ino uint64, notes uint32) {
	mu.Lock()
	defer mu.Unlock()
	Posted++
	// In the order of descriptors: any order may be seen.
	for fd := 0; fd < 4096; fd++ {
		f := files[fd]
		if f == nil || f.Kind != "vnode" || f.Ino != ino {
			continue
		}
		for _, q := range queues {
			n := q.notes[key{uint64(fd), EVFILT_VNODE}]
			if n == nil || n.mask&notes == 0 {
				continue
			}
			if n.active {
				Coalesced++
			}
			n.fflags |= n.mask & notes
			q.activate(n)
		}
	}
	cond.Broadcast()
}

// Gate holds events back, or lets them through again.
func Gate(closed bool) {
	mu.Lock()
	gate = closed
	mu.Unlock()
	cond.Broadcast()
}

// Idle waits until each queue has a caller waiting and no event it could get.
func Idle(timeout time.Duration) bool {
	t := time.AfterFunc(timeout, cond.Broadcast)
	defer t.Stop()
	end := time.Now().Add(timeout)
	mu.Lock()
	defer mu.Unlock()
	for {
		idle := true
		for _, q := range queues {
			if q.wait == 0 || len(q.active) > 0 && !gate {
				idle = false
			}
		}
		if idle {
			return true
		}
		if !time.Now().Before(end) {
			return false
		}
		cond.Wait()
	}
}

// Note is an armed vnode filter.
type Note struct {
	Path string
	Ino  uint64
	Mask uint32
}

// State returns the open descriptors and the armed vnode filters.
func State() (fs []File, ns []Note) {
	mu.Lock()
	defer mu.Unlock()
	for _, f := range files {
		fs = append(fs, *f)
	}
	for _, q := range queues {
		for k, n := range q.notes {
			if k.filter == EVFILT_VNODE {
				f := files[int(k.id)]
				ns = append(ns, Note{f.Path, f.Ino, n.mask})
			}
		}
	}
	return
}

// Bad returns, and forgets, what the library did wrong.
func Bad() []string {
	mu.Lock()
	defer mu.Unlock()
	b := bad
	bad = nil
	return b
}

// Reset closes everything, between cases.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	for fd := range files {
		syscall.Close(fd)
	}
	for _, q := range queues {
		q.dead = true
	}
	files, queues, bad, gate, fail = map[int]*File{}, map[int]*queue{}, nil, false, nil
	cond.Broadcast()
}
