//go:build go1.22

package obs

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"unsafe"

	"golang.org/x/sys/unix"
)

// KEvent is one event of the witness: what the kernel said happened.
type KEvent struct {
	Watch  string // path of the watched inode
	Name   string
	Mask   uint32 // exactly one of IN_ALL_EVENTS
	Dir    bool
	Cookie uint32
	SelfD  bool // the watched inode is a directory
}

// Path of the object the event is about.
func (e KEvent) Path() string {
	if e.Name == "" {
		return e.Watch
	}
	return e.Watch + "/" + e.Name
}

func (e KEvent) Self() bool { return e.Name == "" }

type wobj struct {
	path string
	dir  bool
}

// Witness is an inotify instance of the harness's own which watches every
// inode of a tree for everything.
type Witness struct {
	FD       int
	m        map[int32]*wobj
	p        map[string]int32
	buf      []byte
	Overflow bool
	Seen     int64
}

func NewWitness() (*Witness, error) {
	fd, err := unix.InotifyInit1(unix.IN_CLOEXEC | unix.IN_NONBLOCK)
	if err != nil {
		return nil, err
	}
	return &Witness{FD: fd, m: map[int32]*wobj{}, p: map[string]int32{}, buf: make([]byte, 1<<20)}, nil
}

func (w *Witness) Close() { unix.Close(w.FD) }

// Add watches the single inode at path.
func (w *Witness) Add(path string) error {
	fi, err := os.Lstat(path)
	if err != nil {
		return err
	}
	if fi.Mode()&os.ModeSymlink != 0 {
		return nil
	}
	wd, err := unix.InotifyAddWatch(w.FD, path, unix.IN_ALL_EVENTS|unix.IN_DONT_FOLLOW)
	if err != nil {
		return err
	}
	if o := w.m[int32(wd)]; o != nil {
		delete(w.p, o.path)
	}
	w.m[int32(wd)] = &wobj{path, fi.IsDir()}
	w.p[path] = int32(wd)
	return nil
}

// AddTree watches path and everything below.
func (w *Witness) AddTree(path string) error {
	return filepath.Walk(path, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		return w.Add(p)
	})
}

// Renamed tells the witness a subtree is now found under another name.
func (w *Witness) Renamed(oldp, newp string) {
	for _, o := range w.m {
		if o.path == oldp || len(o.path) > len(oldp) && o.path[:len(oldp)] == oldp && o.path[len(oldp)] == '/' {
			delete(w.p, o.path)
			o.path = newp + o.path[len(oldp):]
		}
	}
	for wd, o := range w.m {
		w.p[o.path] = wd
	}
}

// Reset forgets every watch.
func (w *Witness) Reset() {
	for wd := range w.m {
		unix.InotifyRmWatch(w.FD, uint32(wd))
	}
	w.m = map[int32]*wobj{}
	w.p = map[string]int32{}
	w.Read()
}

// Read returns what happened since the last call.
func (w *Witness) Read() (evs []KEvent) {
	for {
		n, err := unix.Read(w.FD, w.buf)
		if err == unix.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return evs
		}
		for pos := 0; pos+unix.SizeofInotifyEvent <= n; {
			sys := (*unix.InotifyEvent)(unsafe.Pointer(&w.buf[pos]))
			pos += unix.SizeofInotifyEvent
			name := ""
			if sys.Len > 0 {
				name = string(bytes.TrimRight(w.buf[pos:pos+int(sys.Len)], "\x00"))
				pos += int(sys.Len)
			}
			if sys.Mask&unix.IN_Q_OVERFLOW != 0 {
				w.Overflow = true
				continue
			}
			if sys.Mask&unix.IN_IGNORED != 0 {
				if o := w.m[sys.Wd]; o != nil {
					if w.p[o.path] == sys.Wd {
						delete(w.p, o.path)
					}
					delete(w.m, sys.Wd)
				}
				continue
			}
			o := w.m[sys.Wd]
			if o == nil {
				continue
			}
			w.Seen++
			evs = append(evs, KEvent{Watch: o.path, Name: name, Mask: sys.Mask & unix.IN_ALL_EVENTS,
				Dir: sys.Mask&unix.IN_ISDIR != 0, Cookie: sys.Cookie, SelfD: o.dir})
		}
	}
}

var maskNames = []struct {
	m uint32
	s string
}{{unix.IN_ACCESS, "ACCESS"}, {unix.IN_MODIFY, "MODIFY"}, {unix.IN_ATTRIB, "ATTRIB"}, {unix.IN_CLOSE_WRITE, "CLOSE_WRITE"},
	{unix.IN_CLOSE_NOWRITE, "CLOSE_NOWRITE"}, {unix.IN_OPEN, "OPEN"}, {unix.IN_MOVED_FROM, "MOVED_FROM"}, {unix.IN_MOVED_TO, "MOVED_TO"},
	{unix.IN_CREATE, "CREATE"}, {unix.IN_DELETE, "DELETE"}, {unix.IN_DELETE_SELF, "DELETE_SELF"}, {unix.IN_MOVE_SELF, "MOVE_SELF"}}

func MaskString(m uint32) string {
	s := ""
	for _, x := range maskNames {
		if m&x.m != 0 {
			if s != "" {
				s += "|"
			}
			s += x.s
			m &^= x.m
		}
	}
	if m != 0 {
		s += fmt.Sprintf("+%#x", m)
	}
	return s
}

func (e KEvent) String() string {
	d := ""
	if e.Dir {
		d = "|ISDIR"
	}
	return fmt.Sprintf("{%s%s on %s name=%q}", MaskString(e.Mask), d, e.Watch, e.Name)
}
