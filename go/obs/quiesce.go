//go:build go1.22

// Package obs holds the observation machinery shared by every harness: a
// logical quiescence detector, an independent inotify witness, and readers of
// the kernel's own view of the library's watches.
package obs

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/sys/unix"
)

// Repo is the directory the library under test is compiled from.
var Repo = "/repo"

func init() {
	if s := os.Getenv("VERIF_REPO"); s != "" {
		Repo = s
	}
}

// G is one goroutine of a stack snapshot.
type G struct {
	ID    string
	State string
	Lib   bool // runs library (non-test) code, or was started by it
	Idle  bool
	Text  string
}

// InotifyFDs lists this process's inotify descriptors, except the ones given.
func InotifyFDs(except ...int) []int {
	return fdsOf("anon_inode:inotify", except...)
}

func fdsOf(target string, except ...int) (fds []int) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
next:
	for _, e := range ents {
		n, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		for _, x := range except {
			if x == n {
				continue next
			}
		}
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && s == target {
			fds = append(fds, n)
		}
	}
	return fds
}

var stackBuf = make([]byte, 1<<16)
var stackMu sync.Mutex

// Snapshot returns every goroutine but the calling one.
func Snapshot() []G {
	stackMu.Lock()
	defer stackMu.Unlock()
	var n int
	for {
		n = runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	var gs []G
	for i, blk := range bytes.Split(stackBuf[:n], []byte("\n\n")) {
		if i == 0 {
			continue // the caller
		}
		gs = append(gs, parseG(string(blk)))
	}
	return gs
}

// libFile tells whether a stack trace mentions a file of the library.
func libFile(trace string) bool {
	for _, ln := range strings.Split(trace, "\n") {
		if !strings.HasPrefix(ln, "\t") {
			continue
		}
		file := strings.TrimSpace(ln)
		if j := strings.LastIndexByte(file, ':'); j > 0 {
			file = file[:j]
		}
		if strings.HasPrefix(file, Repo+"/") && !strings.HasSuffix(file, "_test.go") && !strings.HasPrefix(file, Repo+"/verifobs/") {
			return true
		}
	}
	return false
}

func parseG(s string) (g G) {
	g.Text = s
	head, body, _ := strings.Cut(s, "\n")
	// goroutine 7 [chan receive, 2 minutes]:
	if i := strings.IndexByte(head, '['); i > 0 {
		if f := strings.Fields(head); len(f) > 1 {
			g.ID = f[1]
		}
		st := head[i+1:]
		if j := strings.IndexByte(st, ']'); j >= 0 {
			st = st[:j]
		}
		if j := strings.IndexByte(st, ','); j >= 0 {
			st = st[:j]
		}
		g.State = strings.TrimSuffix(st, " (scan)")
	}
	g.Lib = libFile(body)
	switch g.State {
	case "chan receive", "chan receive (nil chan)", "select", "select (no cases)", "IO wait", "sync.Cond.Wait", "finalizer wait",
		"GC worker (idle)", "force gc (idle)", "sync.WaitGroup.Wait":
		g.Idle = true
	case "syscall":
		// Parked in a readiness wait (the pending bytes are checked apart).
		first := body
		if k := strings.Index(body, "\ncreated by "); k > 0 {
			first = body[:k]
		}
		for _, w := range []string{".EpollWait(", ".EpollPwait(", ".Poll(", ".Ppoll(", ".Select(", ".Pselect("} {
			if strings.Contains(first, w) {
				g.Idle = true
				break
			}
		}
	}
	return g
}

// Pending returns the number of bytes queued on the library's inotify descriptors.
func Pending(except ...int) int {
	total := 0
	for _, fd := range InotifyFDs(except...) {
		if n, err := unix.IoctlGetInt(fd, unix.TIOCINQ); err == nil {
			total += n
		}
	}
	return total
}

// Stuck is returned by Quiesce when the library never settles.
type Stuck struct {
	Dump     string
	Blocked  bool // every busy library goroutine is parked on a lock or a channel send, none can run
	Deadline time.Duration
	// Spinning: events have been in the kernel queue all the time, not one of
	// them was read, and the library has used up processor time meanwhile.
	Spinning bool
}

// cpuTime is the processor time used by the process.
func cpuTime() time.Duration {
	var ru unix.Rusage
	if unix.Getrusage(unix.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (s *Stuck) Error() string {
	k := "still working"
	if s.Blocked {
		k = "blocked for good"
	}
	return fmt.Sprintf("library %s after %v:\n%s", k, s.Deadline, s.Dump)
}

// Watchdog is how long Quiesce waits for a busy library. It decides nothing by
// itself but whether a set of goroutines parked on locks or sends is a deadlock.
var Watchdog = 10 * time.Second

// QuiesceRounds counts snapshots taken, for the evidence.
var QuiesceRounds int64

// Quiesce returns when the kernel queue of the library is empty and none of its
// goroutines has anything left to do. ignore tells goroutines not to look at
// (such as harness goroutines that are meant to be inside a library call).
func Quiesce(ignore func(G) bool, except ...int) error {
	start, cpu := time.Now(), cpuTime()
	queue, others := -1, false
	var busy []G
	for spin := 0; ; spin++ {
		QuiesceRounds++
		q := Pending(except...)
		if queue < 0 {
			queue = q
		} else if queue != q {
			queue = 0
		}
		if q == 0 {
			busy = busy[:0]
			for _, g := range Snapshot() {
				if g.Lib && !g.Idle && (ignore == nil || !ignore(g)) {
					busy = append(busy, g)
				}
			}
			if len(busy) == 0 {
				if Pending(except...) == 0 {
					return nil
				}
				continue
			}
		}
		switch {
		case spin < 20:
			runtime.Gosched()
		case spin < 200:
			time.Sleep(50 * time.Microsecond)
		default:
			time.Sleep(2 * time.Millisecond)
		}
		if d := time.Since(start); d > Watchdog {
			stuck := &Stuck{Deadline: d}
			var ids string
			for try := 0; try < 2; try++ {
				all := Snapshot()
				lib := 0
				busy = busy[:0]
				for _, g := range all {
					switch {
					case g.Lib:
						lib++
						if !g.Idle && (ignore == nil || !ignore(g)) {
							busy = append(busy, g)
						}
					case g.State == "running" || g.State == "runnable":
						others = true
					}
				}
				now := ""
				for _, g := range busy {
					now += g.ID + g.State + ";"
				}
				stuck.Blocked = allBlocked(busy) && (try == 0 || now == ids)
				ids = now
				stuck.Spinning = queue > 0 && !others && lib < 100 && cpuTime()-cpu > d/2
				if !stuck.Blocked {
					break
				}
				time.Sleep(time.Second)
			}
			for _, g := range busy {
				stuck.Dump += g.Text + "\n\n"
			}
			return stuck
		}
	}
}

func allBlocked(gs []G) bool {
	for _, g := range gs {
		if !blockedState(g.State) {
			return false
		}
	}
	return len(gs) > 0
}

func blockedState(s string) bool {
	switch s {
	case "chan send", "chan send (nil chan)", "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait":
		return true
	}
	return false
}

// KWatch is one watch of an inotify instance as the kernel reports it.
type KWatch struct {
	WD   int
	Ino  uint64
	Mask uint32
}

// KernelWatches reads the watches held by the library's inotify instances.
func KernelWatches(except ...int) (ws []KWatch) {
	for _, fd := range InotifyFDs(except...) {
		b, err := os.ReadFile(fmt.Sprintf("/proc/self/fdinfo/%d", fd))
		if err != nil {
			continue
		}
		for _, ln := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(ln, "inotify wd:") {
				continue
			}
			var w KWatch
			for _, f := range strings.Fields(ln)[1:] {
				k, v, _ := strings.Cut(f, ":")
				switch k {
				case "wd":
					n, _ := strconv.ParseInt(v, 16, 64)
					w.WD = int(n)
				case "ino":
					w.Ino, _ = strconv.ParseUint(v, 16, 64)
				case "mask":
					n, _ := strconv.ParseUint(v, 16, 64)
					w.Mask = uint32(n)
				}
			}
			ws = append(ws, w)
		}
	}
	return ws
}

// Ino returns the inode number of path (not following a final symlink).
func Ino(path string) (uint64, error) {
	var st unix.Stat_t
	if err := unix.Lstat(path, &st); err != nil {
		return 0, err
	}
	return st.Ino, nil
}

// Clean tells whether p is absolute and clean.
func Clean(p string) bool { return filepath.IsAbs(p) && filepath.Clean(p) == p }

// FDs is the number of open descriptors.
func FDs() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(ents) - 1
}
