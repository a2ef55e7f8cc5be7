//go:build go1.22

// Package rdsim stands in for the part of the Windows API the library uses:
// directory handles with the changes collected for them, overlapped requests
// and completion ports.
package rdsim

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf16"
	"unsafe"
)

type Handle uintptr

const InvalidHandle = ^Handle(0)

type Overlapped struct {
	Internal, InternalHigh uintptr
	Offset, OffsetHigh     uint32
	HEvent                 Handle
}

type FileNotifyInformation struct {
	NextEntryOffset uint32
	Action          uint32
	FileNameLength  uint32
	FileName        uint16
}

const (
	FILE_LIST_DIRECTORY        = 1
	FILE_SHARE_READ            = 1
	FILE_SHARE_WRITE           = 2
	FILE_SHARE_DELETE          = 4
	OPEN_EXISTING              = 3
	FILE_FLAG_BACKUP_SEMANTICS = 0x02000000
	FILE_FLAG_OVERLAPPED       = 0x40000000
	INFINITE                   = 0xffffffff
	MAX_LONG_PATH              = 0x7fff

	FILE_NOTIFY_CHANGE_FILE_NAME   = 1
	FILE_NOTIFY_CHANGE_DIR_NAME    = 2
	FILE_NOTIFY_CHANGE_ATTRIBUTES  = 4
	FILE_NOTIFY_CHANGE_SIZE        = 8
	FILE_NOTIFY_CHANGE_LAST_WRITE  = 0x10
	FILE_NOTIFY_CHANGE_LAST_ACCESS = 0x20
	FILE_NOTIFY_CHANGE_CREATION    = 0x40

	FILE_ACTION_ADDED            = 1
	FILE_ACTION_REMOVED          = 2
	FILE_ACTION_MODIFIED         = 3
	FILE_ACTION_RENAMED_OLD_NAME = 4
	FILE_ACTION_RENAMED_NEW_NAME = 5
)

var (
	errHandle  = errors.New("invalid handle")
	errGone    = errors.New("path not found")
	errDenied  = errors.New("access denied")
	errAborted = errors.New("operation aborted")
	errParam   = errors.New("invalid parameter")
)

func UTF16FromString(s string) ([]uint16, error) {
	if strings.IndexByte(s, 0) != -1 {
		return nil, errParam
	}
	return append(utf16.Encode([]rune(s)), 0), nil
}

func UTF16ToString(s []uint16) string {
	for i, v := range s {
		if v == 0 {
			s = s[:i]
			break
		}
	}
	return string(utf16.Decode(s))
}

func str(p *uint16) string {
	var s []uint16
	for i := 0; ; i++ {
		v := *(*uint16)(unsafe.Add(unsafe.Pointer(p), 2*i))
		if v == 0 {
			return UTF16ToString(s)
		}
		s = append(s, v)
	}
}

type record struct {
	action uint32
	name   string
}

type dir struct {
	path    string
	port    Handle
	used    bool // what it collects is settled by the first request
	mask    uint32
	sub     bool
	recs    []record
	size    int
	over    bool
	gone    bool
	pending bool
	buf     *byte
	n       uint32
	ov      *Overlapped
}

type packet struct {
	n, key uint32
	ov     *Overlapped
	err    error
}

type port struct {
	queue   []packet
	waiting int
}

var (
	mu     sync.Mutex
	cond   = sync.NewCond(&mu)
	next   Handle
	first  Handle // handles up to it are of a system that is no more
	dirs   map[Handle]*dir
	ports  map[Handle]*port
	paths  map[string]bool
	bad    []string
	gate   bool
	inject func(string) error

	// What has been seen.
	Requests, Records, Packets, Overflows int64
)

func init() { Reset() }

// Reset forgets everything.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	dirs, ports, paths = map[Handle]*dir{}, map[Handle]*port{}, map[string]bool{}
	bad, gate, inject = nil, false, nil
	next += 0x100
	first = next
	cond.Broadcast()
}

func misuse(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }

// Bad returns calls that break the rules of the system.
func Bad() []string {
	mu.Lock()
	defer mu.Unlock()
	return append([]string(nil), bad...)
}

// Inject makes calls fail for which f returns an error.
func Inject(f func(string) error) {
	mu.Lock()
	inject = f
	mu.Unlock()
}

func injected(call string) error {
	if inject == nil {
		return nil
	}
	return inject(call)
}

// Gate holds completions back.
func Gate(closed bool) {
	mu.Lock()
	gate = closed
	cond.Broadcast()
	mu.Unlock()
}

// Dir makes a directory, or removes it.
func Dir(p string, on bool) {
	mu.Lock()
	defer mu.Unlock()
	if on {
		paths[p] = true
		return
	}
	delete(paths, p)
	for _, d := range order() {
		if d.path == p && !d.gone {
			d.gone = true
			if d.pending {
				finish(d, 0, errDenied)
			}
		}
	}
}

func order() (ds []*dir) {
	var hs []Handle
	for h := range dirs {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	for _, h := range hs {
		ds = append(ds, dirs[h])
	}
	return ds
}

// Change is reported for what is in the directory of p: an action, which the
// filters with one of the given bits see.
func Change(p string, action, bits uint32) {
	mu.Lock()
	defer mu.Unlock()
	for _, d := range order() {
		if !d.used || d.gone || d.mask&bits == 0 || !strings.HasPrefix(p, d.path+"/") {
			continue
		}
		name := p[len(d.path)+1:]
		if !d.sub && strings.Contains(name, "/") {
			continue
		}
		Records++
		size := 12 + 2*len(utf16.Encode([]rune(name)))
		size = (size + 3) &^ 3
		if d.over || d.size+size > int(d.n) {
			d.recs, d.size, d.over = nil, 0, true
			Overflows++
		} else {
			d.recs, d.size = append(d.recs, record{action, name}), d.size+size
		}
		deliver(d)
	}
}

// deliver completes a pending request with what has been collected.
func deliver(d *dir) {
	if !d.pending || len(d.recs) == 0 && !d.over {
		return
	}
	if d.over {
		d.over = false
		finish(d, 0, nil)
		return
	}
	b := unsafe.Slice(d.buf, d.n)
	for i := range b {
		b[i] = 0xa5
	}
	off := 0
	for i, r := range d.recs {
		name := utf16.Encode([]rune(r.name))
		fi := (*FileNotifyInformation)(unsafe.Pointer(&b[off]))
		fi.Action, fi.FileNameLength = r.action, uint32(2*len(name))
		fi.NextEntryOffset = 0
		copy(unsafe.Slice(&fi.FileName, len(name)), name)
		size := (12 + 2*len(name) + 3) &^ 3
		if i < len(d.recs)-1 {
			fi.NextEntryOffset = uint32(size)
		}
		off += size
	}
	d.recs, d.size = nil, 0
	finish(d, uint32(off), nil)
}

func finish(d *dir, n uint32, err error) {
	d.pending = false
	if p := ports[d.port]; p != nil {
		p.queue = append(p.queue, packet{n, 0, d.ov, err})
		cond.Broadcast()
	}
}

func CreateFile(name *uint16, access, share uint32, sa *byte, disp, flags uint32, tmpl int32) (Handle, error) {
	mu.Lock()
	defer mu.Unlock()
	if err := injected("CreateFile"); err != nil {
		return InvalidHandle, err
	}
	p := str(name)
	if !paths[p] {
		return InvalidHandle, errGone
	}
	if flags&(FILE_FLAG_BACKUP_SEMANTICS|FILE_FLAG_OVERLAPPED) != FILE_FLAG_BACKUP_SEMANTICS|FILE_FLAG_OVERLAPPED ||
		access&FILE_LIST_DIRECTORY == 0 || disp != OPEN_EXISTING || share&7 != 7 {
		misuse("CreateFile(%q): access %x, share %x, flags %x", p, access, share, flags)
	}
	next++
	dirs[next] = &dir{path: p}
	return next, nil
}

func CreateIoCompletionPort(h, cph Handle, key uint32, threads uint32) (Handle, error) {
	mu.Lock()
	defer mu.Unlock()
	if err := injected("CreateIoCompletionPort"); err != nil {
		return InvalidHandle, err
	}
	if cph == 0 {
		next++
		ports[next] = &port{}
		cph = next
	}
	if ports[cph] == nil {
		misuse("CreateIoCompletionPort: no port %x", cph)
		return 0, errHandle
	}
	if h != InvalidHandle {
		d := dirs[h]
		if d == nil || d.port != 0 {
			misuse("CreateIoCompletionPort: handle %x", h)
			return 0, errHandle
		}
		d.port = cph
	}
	return cph, nil
}

func CloseHandle(h Handle) error {
	mu.Lock()
	defer mu.Unlock()
	if d := dirs[h]; d != nil {
		delete(dirs, h)
		if d.pending {
			finish(d, 0, errAborted)
		}
		return nil
	}
	if p := ports[h]; p != nil {
		delete(ports, h)
		cond.Broadcast()
		return nil
	}
	if h <= first {
		return nil
	}
	misuse("CloseHandle(%x): not open", h)
	return errHandle
}

func ReadDirectoryChanges(h Handle, buf *byte, n uint32, sub bool, mask uint32, ret *uint32, ov *Overlapped, cr uintptr) error {
	mu.Lock()
	defer mu.Unlock()
	if err := injected("ReadDirectoryChanges"); err != nil {
		return err
	}
	d := dirs[h]
	if d == nil {
		misuse("ReadDirectoryChanges(%x): not open", h)
		return errHandle
	}
	if d.gone {
		return errDenied
	}
	if mask == 0 || mask&^0x17f != 0 {
		return errParam
	}
	if d.pending || uintptr(unsafe.Pointer(buf))&3 != 0 || d.port == 0 || n > 65536 {
		misuse("ReadDirectoryChanges(%q): pending %v, buffer %p, port %x", d.path, d.pending, buf, d.port)
	}
	Requests++
	if !d.used {
		d.used, d.mask, d.sub, d.n = true, mask, sub, n
	}
	d.pending, d.buf, d.ov = true, buf, ov
	deliver(d)
	return nil
}

func GetQueuedCompletionStatus(cph Handle, n, key *uint32, ov **Overlapped, timeout uint32) error {
	mu.Lock()
	defer mu.Unlock()
	p := ports[cph]
	if cph <= first {
		runtime.Goexit()
	}
	if p == nil {
		misuse("GetQueuedCompletionStatus(%x): not open", cph)
		*ov = nil
		return errHandle
	}
	p.waiting++
	cond.Broadcast()
	for ports[cph] == p && (gate || len(p.queue) == 0) {
		cond.Wait()
	}
	p.waiting--
	if ports[cph] != p {
		*ov = nil
		return errAborted
	}
	k := p.queue[0]
	p.queue = p.queue[1:]
	Packets++
	*n, *key, *ov = k.n, k.key, k.ov
	return k.err
}

func PostQueuedCompletionStatus(cph Handle, n, key uint32, ov *Overlapped) error {
	mu.Lock()
	defer mu.Unlock()
	p := ports[cph]
	if p == nil {
		misuse("PostQueuedCompletionStatus(%x): not open", cph)
		return errHandle
	}
	p.queue = append(p.queue, packet{n, key, ov, nil})
	cond.Broadcast()
	return nil
}

func GetFileAttributes(name *uint16) (uint32, error) {
	mu.Lock()
	defer mu.Unlock()
	if !paths[str(name)] {
		return 0, errGone
	}
	return 0x10, nil
}

// Idle waits until everything completed has been taken and the ports are
// waited for again.
func Idle(d time.Duration) bool {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { mu.Lock(); cond.Broadcast(); mu.Unlock() })
	defer t.Stop()
	mu.Lock()
	defer mu.Unlock()
	for {
		ok := true
		for _, p := range ports {
			if len(p.queue) > 0 || p.waiting == 0 {
				ok = false
			}
		}
		if ok || time.Now().After(end) {
			return ok
		}
		cond.Wait()
	}
}

// Held is an open directory handle.
type Held struct {
	Path    string
	Mask    uint32
	Sub     bool
	Pending bool
	Gone    bool
}

// State returns open handles, and how many ports there are.
func State() (hs []Held, n int) {
	mu.Lock()
	defer mu.Unlock()
	for _, d := range order() {
		hs = append(hs, Held{d.path, d.mask, d.sub, d.pending, d.gone})
	}
	return hs, len(ports)
}
