package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// profile of a random world.
type profile struct {
	Chans, Steps, Init int
	Raw                bool           // inotify event values in event sets
	Names              []string       // base names in use
	W                  map[string]int // weights of operations
	RecPct             int            // share of recursive Watch calls
	FilePct            int            // share of Watch calls on files
	Decorate           bool           // path arguments in other spellings
	Depth              int            // initial directories per tree, 0: Init/2
	CheckKernel        bool
	MoveOut            bool // directories may be moved out of recursive watches
	NoWrite            bool
}

var namesAll = []string{"a", "ab", "b", "a.b", "c d", "é", "x\ny", "..a", "a..b", "a ", " b", ".a", ".b", "\xff", "A", "a\\b", "a*", "a\t", "e\u0301", "a~", ".a.swp", "#a", "a.tmp", ".git"}
var namesFew = []string{"a", "ab", "b"}

type regArg struct {
	arg string
}

// world is a scratch tree, the registrations on it and the oracle.
type world struct {
	c    *obs.Ctx
	cs   int64
	r    *rand.Rand
	p    profile
	root string
	wit  *obs.Witness
	dirs map[string]bool // live directories, root included
	file map[string]bool
	link map[string]bool
	past map[string]bool // paths that used to be directories
	ch   []chan notify.EventInfo
	m    *model
	log  []string
	rels []string // aliases of root

	moved   map[string]string // new name -> old name, this step
	swap    []string          // two names exchanged in this step
	outside int
	bad     []finding
	dead    bool
	musts   int
	shape   map[string]bool
	after   []notify.EventInfo
	cur     int // channel being looked at, or -1
	only    int // make API calls of that channel only, unless -1
	nbad    int
	fails   map[int]bool // calls made by badWatch that failed
	failed  map[int]bool // when replaying: calls to leave out
	onEach  func(w *world, kev []obs.KEvent, got [][]notify.EventInfo)
}

type finding struct {
	Class, What string
	ch          int // channel concerned, or -1
}

func (w *world) logf(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }
func (w *world) badf(class, f string, a ...interface{}) {
	w.bad = append(w.bad, finding{class, fmt.Sprintf(f, a...), w.cur})
}

func (w *world) rel(p string) string {
	if p == w.root {
		return "."
	}
	return strings.TrimPrefix(p, w.root+"/")
}

func sorted(m map[string]bool) []string {
	s := make([]string, 0, len(m))
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func (w *world) pick(m map[string]bool) (string, bool) {
	s := sorted(m)
	if len(s) == 0 {
		return "", false
	}
	return s[w.r.Intn(len(s))], true
}

func (w *world) exists(p string) bool { return w.dirs[p] || w.file[p] || w.link[p] }

// fresh returns an unused path. A path that used to be a directory is not used
// for anything else, see known finding stale-directory-node.
func (w *world) fresh(dir bool) (string, bool) {
	for i := 0; i < 8; i++ {
		d, _ := w.pick(w.dirs)
		p := d + "/" + w.p.Names[w.r.Intn(len(w.p.Names))]
		if !w.exists(p) && (dir || !w.past[p]) {
			return p, true
		}
	}
	return "", false
}

// pinned: some channel has registered p or something below.
func (w *world) pinned(p string) bool {
	for _, c := range w.m.ch {
		for d := range c.regs {
			if d == p || under(d, p) {
				return true
			}
		}
	}
	return false
}

func (w *world) evset() notify.Event {
	var e notify.Event
	g := []notify.Event{notify.Create, notify.Remove, notify.Write, notify.Rename}
	if w.r.Intn(5) == 0 {
		return notify.All
	}
	for e == 0 {
		for _, x := range g {
			if w.r.Intn(3) == 0 {
				e |= x
			}
		}
		if w.p.Raw && w.r.Intn(3) == 0 {
			for i := 0; i < 2; i++ {
				e |= 1 << uint(w.r.Intn(12))
			}
		}
	}
	return e
}

func bits(e notify.Event) (es []notify.Event) {
	for b := notify.Event(1); b != 0; b <<= 1 {
		if e&b != 0 {
			es = append(es, b)
		}
	}
	return es
}

// evargs spreads an event set over Watch arguments in some way.
func (w *world) evargs(e notify.Event) (es []notify.Event) {
	for _, b := range bits(e) {
		if len(es) > 0 && w.r.Intn(2) == 0 {
			es[w.r.Intn(len(es))] |= b
		} else {
			es = append(es, b)
		}
	}
	// The same ones again.
	for w.r.Intn(4) == 0 {
		es = append(es, e&notify.Event(w.r.Uint32())|es[w.r.Intn(len(es))])
	}
	w.r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func writeFile(p string, flag int, data string) {
	fd, err := unix.Open(p, flag|unix.O_CLOEXEC, 0644)
	must(err)
	if data != "" {
		_, err = unix.Write(fd, []byte(data))
		must(err)
	}
	must(unix.Close(fd))
}

// spell returns another spelling of path p.
func (w *world) spell(p string) string {
	if !w.p.Decorate {
		return p
	}
	dir, base := filepath.Split(p)
	switch w.r.Intn(8) {
	case 0:
		return p + "/"
	case 1:
		return dir + "./" + base
	case 2:
		if w.dirs[p] {
			return p + "/../" + base
		}
	case 3:
		return strings.ReplaceAll(p, "/", "//")
	case 4, 5:
		if len(w.rels) > 0 {
			return w.rels[w.r.Intn(len(w.rels))] + p[len(w.root):]
		}
	case 6:
		if cwd, err := os.Getwd(); err == nil {
			if r, err := filepath.Rel(cwd, p); err == nil {
				return r
			}
		}
	}
	return p
}

// covered tells whether a registered recursive watch reaches directory p.
func (w *world) covered(p string) bool { return w.m.recAbove(p) }

func (w *world) doWatch(ci int, p string, isrec bool, e notify.Event) {
	arg := w.spell(p)
	if isrec {
		arg += "/..."
	}
	w.logf("watch c%d %q (as %q) %s", ci, w.rel(p), arg, evString(e))
	var err error
	args := w.evargs(e)
	if w.only < 0 || w.only == ci {
		w.c.API(w.cs, fmt.Sprintf("Watch(%q)", arg), func() { err = notify.Watch(arg, w.ch[ci], args...) })
	}
	if err != nil {
		w.badf("WATCHERR", "Watch(%q, %s)=%v", arg, evString(e), err)
		w.dead = true
		return
	}
	w.m.ch[ci].add(p, isrec, e)
}

func (w *world) doStop(ci int) {
	w.logf("stop c%d", ci)
	if w.only < 0 || w.only == ci {
		w.c.API(w.cs, "Stop", func() { notify.Stop(w.ch[ci]) })
	}
	w.m.ch[ci].regs = map[string]*reg{}
}

func (w *world) op() string {
	tot := 0
	keys := make([]string, 0, len(w.p.W))
	for k, n := range w.p.W {
		tot += n
		keys = append(keys, k)
	}
	sort.Strings(keys)
	x := w.r.Intn(tot)
	for _, k := range keys {
		if x -= w.p.W[k]; x < 0 {
			return k
		}
	}
	panic("unreachable")
}

func (w *world) rmdirs(p string) {
	for _, m := range []map[string]bool{w.dirs, w.file, w.link} {
		for q := range m {
			if q == p || under(q, p) {
				w.past[q] = w.past[q] || w.dirs[q]
				delete(m, q)
			}
		}
	}
}

func (w *world) step() {
	w.moved = map[string]string{}
	op := w.op()
	w.c.Count("op "+op, 1)
	switch op {
	case "watch":
		ci := w.r.Intn(len(w.ch))
		isrec := w.r.Intn(100) < w.p.RecPct
		var p string
		if !isrec && w.r.Intn(100) < w.p.FilePct && len(w.file) > 0 {
			p, _ = w.pick(w.file)
		} else {
			p, _ = w.pick(w.dirs)
		}
		w.doWatch(ci, p, isrec, w.evset())
	case "stop":
		w.doStop(w.r.Intn(len(w.ch)))
	case "badwatch":
		w.badWatch()
	case "create":
		if p, ok := w.fresh(false); ok {
			w.logf("create %q", w.rel(p))
			writeFile(p, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "")
			w.file[p] = true
			must(w.wit.Add(p))
		}
	case "write":
		if p, ok := w.pick(w.file); ok {
			w.logf("write %q", w.rel(p))
			writeFile(p, unix.O_WRONLY|unix.O_APPEND, "x")
		}
	case "trunc":
		if p, ok := w.pick(w.file); ok {
			w.logf("truncate %q", w.rel(p))
			must(unix.Truncate(p, int64(w.r.Intn(100))))
		}
	case "chmod":
		m := w.file
		if w.r.Intn(3) == 0 {
			m = w.dirs
		}
		if p, ok := w.pick(m); ok {
			w.logf("chmod %q", w.rel(p))
			must(os.Chmod(p, 0700|os.FileMode(w.r.Intn(8))))
		}
	case "read":
		if p, ok := w.pick(w.file); ok {
			w.logf("read %q", w.rel(p))
			writeFile(p, unix.O_RDONLY, "")
		}
	case "rm":
		if p, ok := w.pick(w.file); ok && !w.pinned(p) {
			w.logf("rm %q", w.rel(p))
			must(os.Remove(p))
			delete(w.file, p)
		}
	case "symlink":
		if p, ok := w.fresh(false); ok {
			t := "/nonexistent"
			switch w.r.Intn(6) {
			case 0:
				t = "."
			case 4, 5:
				t = w.root + ".out"
			case 1:
				t, _ = w.pick(w.dirs)
			case 2:
				if f, ok := w.pick(w.file); ok {
					t = f
				}
			}
			w.logf("symlink %q -> %q", w.rel(p), t)
			must(os.Symlink(t, p))
			w.link[p] = true
		}
	case "out":
		// Something happens beside the tree, where links may lead.
		p := w.root + ".out/" + w.p.Names[w.r.Intn(len(w.p.Names))]
		w.logf("create and remove %q", p)
		writeFile(p, unix.O_CREAT|unix.O_WRONLY, "x")
		must(os.Remove(p))
	case "rmlink":
		if p, ok := w.pick(w.link); ok {
			w.logf("rm %q (symlink)", w.rel(p))
			must(os.Remove(p))
			delete(w.link, p)
		}
	case "mv":
		if p, ok := w.pick(w.file); ok && !w.pinned(p) {
			if q, ok := w.fresh(false); ok {
				w.logf("mv %q %q", w.rel(p), w.rel(q))
				must(os.Rename(p, q))
				delete(w.file, p)
				w.file[q] = true
				w.moved[q] = p
			}
		}
	case "mvover":
		if p, ok := w.pick(w.file); ok && !w.pinned(p) {
			if q, ok := w.pick(w.file); ok && q != p && !w.pinned(q) {
				w.logf("mv -f %q %q", w.rel(p), w.rel(q))
				must(os.Rename(p, q))
				delete(w.file, p)
				w.moved[q] = p
			}
		}
	case "mkdir":
		if p, ok := w.fresh(true); ok {
			w.logf("mkdir %q", w.rel(p))
			must(os.Mkdir(p, 0755))
			w.dirs[p] = true
			must(w.wit.Add(p))
		}
	case "rmdir":
		if p, ok := w.pick(w.dirs); ok && p != w.root && !w.pinned(p) {
			for _, m := range []map[string]bool{w.dirs, w.file, w.link} {
				for q := range m {
					if under(q, p) {
						return
					}
				}
			}
			w.logf("rmdir %q", w.rel(p))
			must(unix.Rmdir(p))
			w.past[p] = true
			delete(w.dirs, p)
		}
	case "rmtree":
		if p, ok := w.pick(w.dirs); ok && p != w.root && !w.pinned(p) {
			w.logf("rm -r %q", w.rel(p))
			must(os.RemoveAll(p))
			w.rmdirs(p)
		}
	case "mktree":
		// A whole tree shows up, as fast as possible.
		if p, ok := w.fresh(true); ok {
			var made []string
			must(os.Mkdir(p, 0755))
			made = append(made, p)
			for i := w.r.Intn(12); i > 0; i-- {
				q := made[w.r.Intn(len(made))] + "/" + w.p.Names[w.r.Intn(len(w.p.Names))]
				if err := os.Mkdir(q, 0755); err == nil {
					made = append(made, q)
				}
			}
			w.logf("mktree %q (%d dirs)", made, len(made))
			for _, q := range made {
				w.dirs[q] = true
			}
			w.after = nil
			w.moved["mktree"] = "" // events of this step are racy by nature
		}
	case "mvdir":
		if p, ok := w.pick(w.dirs); ok && p != w.root && !w.pinned(p) {
			if q, ok := w.fresh(true); ok && !under(q, p) && (w.p.MoveOut || !w.covered(p) || w.covered(q)) {
				for x := range w.file {
					if under(x, p) && w.past[q+x[len(p):]] {
						return // see fresh
					}
				}
				w.logf("mvdir %q %q", w.rel(p), w.rel(q))
				must(os.Rename(p, q))
				for _, m := range []map[string]bool{w.dirs, w.file, w.link} {
					for _, x := range sorted(m) {
						if x == p || under(x, p) {
							w.past[x] = w.past[x] || w.dirs[x]
							delete(m, x)
							m[q+x[len(p):]] = true
						}
					}
				}
				w.moved[q] = p
			}
		}
	case "odd":
		w.odd()
	default:
		panic("unknown operation " + op)
	}
}

// odd makes changes by the less common calls.
func (w *world) odd() {
	k := w.r.Intn(11)
	w.c.Count(fmt.Sprintf("op odd %d", k), 1)
	switch k {
	case 0:
		// Neither file nor directory.
		if p, ok := w.fresh(false); ok {
			mode := []uint32{unix.S_IFIFO, unix.S_IFSOCK}[w.r.Intn(2)]
			w.logf("mknod %q %o", w.rel(p), mode)
			must(unix.Mknod(p, mode|0644, 0))
			w.link[p] = true
		}
	case 1:
		m := w.file
		if w.r.Intn(3) == 0 {
			m = w.dirs
		}
		if p, ok := w.pick(m); ok {
			w.logf("utimes %q", w.rel(p))
			ts := []unix.Timeval{{Sec: int64(w.r.Intn(1 << 30))}, {Sec: int64(w.r.Intn(1 << 30))}}
			must(unix.Utimes(p, ts))
		}
	case 2:
		if p, ok := w.pick(w.file); ok && !w.pinned(p) {
			w.logf("open %q, remove it, write", w.rel(p))
			fd, err := unix.Open(p, unix.O_RDWR|unix.O_CLOEXEC, 0)
			must(err)
			must(os.Remove(p))
			unix.Write(fd, []byte("x"))
			unix.Fchmod(fd, 0640)
			unix.Close(fd)
			delete(w.file, p)
		}
	case 3:
		if p, ok := w.fresh(false); ok {
			w.logf("link a file from outside to %q", w.rel(p))
			w.outside++
			out := fmt.Sprintf("%s.out/.linked%d", w.root, w.outside)
			writeFile(out, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "")
			must(os.Link(out, p))
			w.file[p] = true
			must(w.wit.Add(p))
		}
	case 4:
		p, ok := w.pick(w.file)
		q, ok2 := w.pick(w.file)
		if ok && ok2 && p != q && !w.pinned(p) && !w.pinned(q) {
			w.logf("exchange %q and %q", w.rel(p), w.rel(q))
			if err := unix.Renameat2(unix.AT_FDCWD, p, unix.AT_FDCWD, q, unix.RENAME_EXCHANGE); err == nil {
				w.swap = []string{p, q}
			}
		}
	case 5:
		if p, ok := w.pick(w.file); ok {
			w.logf("fallocate %q", w.rel(p))
			fd, err := unix.Open(p, unix.O_WRONLY|unix.O_CLOEXEC, 0)
			must(err)
			unix.Fallocate(fd, 0, 0, int64(1+w.r.Intn(1000)))
			unix.Close(fd)
		}
	case 6:
		if p, ok := w.fresh(false); ok {
			fd, err := unix.Open(filepath.Dir(p), unix.O_TMPFILE|unix.O_WRONLY|unix.O_CLOEXEC, 0644)
			if err != nil {
				return
			}
			unix.Write(fd, []byte("x"))
			err = unix.Linkat(unix.AT_FDCWD, fmt.Sprintf("/proc/self/fd/%d", fd), unix.AT_FDCWD, p, unix.AT_SYMLINK_FOLLOW)
			unix.Close(fd)
			if err == nil {
				w.logf("a file without a name becomes %q", w.rel(p))
				w.file[p] = true
				must(w.wit.Add(p))
			}
		}
	case 8:
		if p, ok := w.fresh(false); ok {
			w.logf("create and remove %q", w.rel(p))
			writeFile(p, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "x")
			must(os.Remove(p))
		}
	case 9:
		// As editors save.
		if q, ok := w.pick(w.file); ok && !w.pinned(q) {
			p := q + ".new"
			if len(filepath.Base(p)) > 255 || w.exists(p) || w.past[p] {
				return
			}
			w.logf("create %q, write, rename to %q", w.rel(p), w.rel(q))
			writeFile(p, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "x")
			must(os.Rename(p, q))
			must(w.wit.Add(q))
		}
	case 10:
		// Through three names.
		if p, ok := w.pick(w.file); ok && !w.pinned(p) {
			q, ok := w.fresh(false)
			x, ok2 := w.fresh(false)
			if ok && ok2 && q != x {
				w.logf("mv %q %q, then to %q", w.rel(p), w.rel(q), w.rel(x))
				must(os.Rename(p, q))
				must(os.Rename(q, x))
				delete(w.file, p)
				w.file[x] = true
				w.moved[x] = p
			}
		}
	case 7:
		if p, ok := w.pick(w.file); ok {
			if q, ok := w.pick(w.file); ok && p != q {
				w.logf("write %q and %q, closed the other way round", w.rel(p), w.rel(q))
				a, err := unix.Open(p, unix.O_WRONLY|unix.O_APPEND|unix.O_CLOEXEC, 0)
				must(err)
				b, err := unix.Open(q, unix.O_WRONLY|unix.O_TRUNC|unix.O_CLOEXEC, 0)
				must(err)
				unix.Write(b, []byte("x"))
				unix.Write(a, []byte("x"))
				unix.Close(b)
				unix.Close(a)
			}
		}
	}
}

// bye does away with a registered path, or a directory with registered
// paths. That it goes has to be reported; what becomes of such a registration is not
// defined, so channels which have one are stopped afterwards. The last step of a
// world may also move directories the library finds again, or loses.
func (w *world) bye(final bool) {
	w.moved = map[string]string{}
	pins := map[string]bool{}
	for _, c := range w.m.ch {
		for d := range c.regs {
			pins[d] = true
		}
	}
	p, ok := w.pick(pins)
	if !ok {
		return
	}
	if w.r.Intn(4) == 0 && len(p) > len(w.root) {
		p = filepath.Dir(p)
	}
	if p == w.root && !final {
		return
	}
	dir := w.dirs[p]
	gone := []string{p}
	kind := w.r.Intn(3)
	if kind > 0 && dir && !final {
		// See known finding moved-out-directory.
		for d := range w.dirs {
			if (d == p || under(d, p)) && w.covered(d) {
				kind = 0
			}
		}
	}
	move := func(q string) {
		w.logf("bye: mv %q %q", w.rel(p), w.rel(q))
		must(os.Rename(p, q))
		if dir && w.covered(q) {
			// Found again by a recursive watch, under either name.
			w.moved[q] = p
		}
		in := q != w.root+".out/bye"
		for _, m := range []map[string]bool{w.dirs, w.file, w.link} {
			for _, x := range sorted(m) {
				if x == p || under(x, p) {
					w.past[x] = w.past[x] || w.dirs[x]
					delete(m, x)
					if in {
						m[q+x[len(p):]] = true
					}
				}
			}
		}
	}
	w.c.Count("op bye "+[]string{"rm", "mv", "mv out"}[kind]+map[bool]string{true: " dir"}[dir], 1)
	renamed := ""
	switch {
	case kind == 0 && !dir && w.r.Intn(3) == 0:
		if q, ok := w.pick(w.file); ok && p != q {
			w.logf("bye: mv -f %q %q", w.rel(q), w.rel(p))
			must(os.Rename(q, p))
			gone = append(gone, q)
			delete(w.file, q)
			renamed = q
			break
		}
		fallthrough
	case kind == 0 && !dir && w.r.Intn(2) == 0:
		w.logf("bye: rm %q, which is open, write and close", w.rel(p))
		fd, err := unix.Open(p, unix.O_RDWR|unix.O_CLOEXEC, 0)
		must(err)
		must(os.Remove(p))
		if w.r.Intn(2) == 0 {
			w.c.Settle(w.cs, w.log, nil, w.wit.FD)
		}
		if w.r.Intn(2) == 0 {
			_, err = unix.Write(fd, []byte("x"))
			must(err)
		}
		unix.Close(fd)
		w.rmdirs(p)
	case kind == 0:
		w.logf("bye: rm -r %q", w.rel(p))
		must(os.RemoveAll(p))
		w.rmdirs(p)
	case kind == 1:
		q, ok := w.fresh(true)
		if ok && !under(q, p) && p != w.root && (final || !dir || !w.covered(q)) && (dir || !w.past[q]) {
			move(q)
			renamed = q
			break
		}
		fallthrough
	default:
		os.RemoveAll(w.root + ".out/bye")
		renamed = w.root + ".out/bye"
		move(renamed)
	}
	ck := w.p.CheckKernel
	w.p.CheckKernel = false
	w.settle()
	w.p.CheckKernel = ck
	if final || w.dead || len(w.bad) > 0 {
		return
	}
	w.moved = map[string]string{}
	if len(gone) > 1 {
		w.wit.Renamed(renamed, p)
	} else if renamed != "" {
		w.wit.Renamed(p, renamed)
	}
	for ci, c := range w.m.ch {
		stop := false
		for d := range c.regs {
			for _, g := range gone {
				stop = stop || d == g || under(d, g)
			}
		}
		if stop {
			w.doStop(ci)
		}
	}
	w.settle()
}

func drain(c chan notify.EventInfo) (eis []notify.EventInfo) {
	for {
		select {
		case ei := <-c:
			eis = append(eis, ei)
		default:
			return
		}
	}
}

const dirNoise = unix.IN_OPEN | unix.IN_ACCESS | unix.IN_CLOSE_NOWRITE

// noise: the library lists directories on its own, which is reported by the
// kernel like anybody else's access.
func noise(ei notify.EventInfo) bool {
	sys, ok := ei.Sys().(*unix.InotifyEvent)
	return ok && sys != nil && sys.Mask&unix.IN_ISDIR != 0 && sys.Mask&dirNoise != 0
}

func (w *world) settle() {
	if !w.c.Settle(w.cs, w.log, nil, w.wit.FD) {
		w.dead = true
		return
	}
	kev := w.wit.Read()
	w.m.together = w.only < 0
	_, racy := w.moved["mktree"]
	delete(w.moved, "mktree")
	for n, o := range w.moved {
		w.wit.Renamed(o, n)
	}
	if w.swap != nil {
		w.wit.Renamed(w.swap[0], "/swap")
		w.wit.Renamed(w.swap[1], w.swap[0])
		w.wit.Renamed("/swap", w.swap[1])
		w.swap = nil
	}
	if racy {
		must(w.wit.AddTree(w.root))
		w.wit.Read()
	}
	w.c.Count("kernel events", len(kev))
	watched := func(p string, dir bool) bool {
		_, ok := w.m.need(p, dir)
		return ok
	}
	all := make([][]notify.EventInfo, len(w.ch))
	defer func() { w.cur = -1 }()
	for ci, c := range w.ch {
		if w.only >= 0 && w.only != ci {
			continue
		}
		w.cur = ci
		exp := map[key]*bound{}
		var last obs.KEvent
		gone := map[string]bool{}
		for _, ev := range kev {
			if ev.Dir && ev.Mask&dirNoise != 0 {
				continue
			}
			var alias []string
			if ev.Mask == unix.IN_MOVE_SELF {
				for n, o := range w.moved {
					if ev.Watch == o || under(ev.Watch, o) {
						alias = append(alias, n+ev.Watch[len(o):])
					}
				}
			}
			w.m.expect(ci, ev, watched, exp, &last, alias...)
			if ev.Dir && ev.Mask&unix.IN_DELETE != 0 {
				gone[ev.Path()] = true
			}
			if b := exp[key{notify.InDeleteSelf, ev.Path()}]; b != nil && ev.Mask&unix.IN_DELETE_SELF != 0 && gone[ev.Path()] && w.m.recAbove(ev.Path()) {
				b.min = 0 // known finding late-self-delete
			}
		}
		got := map[key]int{}
		all[ci] = drain(c)
		w.c.Count("events delivered", len(all[ci]))
		for _, ei := range all[ci] {
			e, p := ei.Event(), ei.Path()
			if n := len(bits(e)); n != 1 {
				w.badf("FORMAT", "c%d: event value %#x joins %d events", ci, uint32(e), n)
			}
			if !obs.Clean(p) {
				w.badf("FORMAT", "c%d: path %q is not absolute and clean", ci, p)
			}
			if sys, ok := ei.Sys().(*unix.InotifyEvent); !ok || sys == nil {
				w.badf("FORMAT", "c%d: %v has Sys() %T", ci, ei, ei.Sys())
			}
			if noise(ei) {
				continue
			}
			got[key{e, p}]++
		}
		if racy {
			// Directories get watched while the tree is still being made:
			// nothing is promised but that events are the ones asked for.
			for k := range got {
				if !w.m.wants(ci, k) {
					w.badf("SPURIOUS", "c%d got %s %q, which it has not asked for", ci, evString(k.E), w.rel(k.P))
				}
			}
			continue
		}
		for k, b := range exp {
			if b.min > 0 {
				w.musts++
				w.shape[fmt.Sprintf("%x/%s", uint32(k.E), w.m.sig(ci, k.P))] = true
			}
			if n := got[k]; n < b.min {
				w.badf("LOST", "c%d %s %q: got %d want >=%d", ci, evString(k.E), w.rel(k.P), n, b.min)
			} else if n > b.max {
				w.badf("DUP", "c%d %s %q: got %d want <=%d", ci, evString(k.E), w.rel(k.P), n, b.max)
			}
		}
		for k, n := range got {
			if exp[k] == nil {
				w.badf("SPURIOUS", "c%d %s %q x%d", ci, evString(k.E), w.rel(k.P), n)
			}
		}
	}
	w.cur = -1
	if w.onEach != nil {
		w.onEach(w, kev, all)
	}
	if len(w.bad) > 0 {
		for _, e := range kev {
			w.logf("   kernel %s", e)
		}
		for ci := range all {
			for _, ei := range all[ci] {
				w.logf("   c%d got %s %q", ci, evString(ei.Event()), w.rel(ei.Path()))
			}
		}
	}
	if w.p.CheckKernel {
		w.kernel()
	}
}

// kernel compares the watches the kernel holds with the ones needed.
func (w *world) kernel() {
	have := map[uint64]uint32{}
	for _, k := range obs.KernelWatches(w.wit.FD) {
		have[k.Ino] |= k.Mask
	}
	w.c.Count("kernel watches inspected", len(have))
	for _, set := range []map[string]bool{w.dirs, w.file} {
		for p := range set {
			need, watch := w.m.need(p, w.dirs[p])
			ino, _ := obs.Ino(p)
			h, ok := have[ino]
			delete(have, ino)
			if watch && need&^h != 0 {
				w.badf("KMISS", "%q needs a watch for %s, has %s", w.rel(p), obs.MaskString(need), obs.MaskString(h))
			}
			if !watch && ok {
				w.badf("KEXTRA", "%q needs no watch, has %s", w.rel(p), obs.MaskString(h))
			}
			wide := w.m.needMerged(p, w.dirs[p])
			if w.m.recAbove(p) && w.dirs[p] {
				wide |= unix.IN_CREATE | unix.IN_MOVED_TO
			}
			if watch && h&^wide != 0 {
				w.badf("KWIDE", "%q needs a watch for %s, has %s", w.rel(p), obs.MaskString(wide), obs.MaskString(h))
			}
		}
	}
	if len(have) > 0 {
		w.badf("KGHOST", "watches on objects that are not in the tree: %v", have)
	}
}

func newWorld(c *obs.Ctx, cs int64, p profile, wit *obs.Witness) *world {
	w := &world{cur: -1, only: -1, c: c, cs: cs, r: rand.New(rand.NewSource(cs)), p: p, wit: wit,
		dirs: map[string]bool{}, file: map[string]bool{}, link: map[string]bool{}, past: map[string]bool{}, m: newModel(p.Chans), shape: map[string]bool{}}
	if n := len(p.Names); n > 9 || w.r.Intn(3) == 0 {
		// Few enough to be used again.
		if n > 9 {
			n = 3 + w.r.Intn(6)
		}
		w.p.Names = nil
		for _, i := range w.r.Perm(len(namesAll))[:n] {
			w.p.Names = append(w.p.Names, namesAll[i])
		}
	}
	root, err := os.MkdirTemp(scratch, "c")
	must(err)
	w.root = root
	w.dirs[w.root] = true
	for i := 0; i < p.Init; i++ {
		if q, ok := w.fresh(false); ok {
			if w.r.Intn(2) == 0 {
				must(os.Mkdir(q, 0755))
				w.dirs[q] = true
			} else {
				writeFile(q, unix.O_CREAT|unix.O_WRONLY, "")
				w.file[q] = true
			}
		}
	}
	must(os.Mkdir(w.root+".out", 0755))
	if p.Decorate {
		l := w.root + ".l"
		must(os.Symlink(w.root, l))
		must(os.Symlink(filepath.Base(l), w.root+".m"))
		w.rels = []string{l, w.root + ".m"}
	}
	must(wit.AddTree(w.root))
	wit.Read()
	for i := 0; i < p.Chans; i++ {
		w.ch = append(w.ch, make(chan notify.EventInfo, 8192))
	}
	for _, d := range sorted(w.dirs) {
		w.logf("init dir %q", w.rel(d))
	}
	for _, d := range sorted(w.file) {
		w.logf("init file %q", w.rel(d))
	}
	return w
}

// finish stops every channel and removes the tree.
func (w *world) finish() {
	for i, c := range w.ch {
		w.c.API(w.cs, "Stop", func() { notify.Stop(c) })
		w.m.ch[i].regs = map[string]*reg{}
	}
	if !w.dead && w.c.Settle(w.cs, w.log, nil, w.wit.FD) {
		for _, k := range obs.KernelWatches(w.wit.FD) {
			w.badf("LEAK", "after every channel has been stopped: %+v", k)
		}
	}
	w.wit.Reset()
	for _, l := range w.rels {
		os.Remove(l)
	}
	os.RemoveAll(w.root)
	os.RemoveAll(w.root + ".out")
}

// fuzz runs one random world and reports findings of the given classes.
func fuzz(c *obs.Ctx, cs int64, p profile, wit *obs.Witness, classes string) {
	w := newWorld(c, cs, p, wit)
	for i := 0; i < p.Steps && len(w.bad) == 0 && !w.dead; i++ {
		w.step()
		w.settle()
		if w.r.Intn(12) == 0 && len(w.bad) == 0 && !w.dead {
			w.bye(false)
		}
	}
	if len(w.bad) == 0 && !w.dead {
		w.bye(true)
	}
	w.report(classes)
}

func (w *world) report(classes string) {
	n := len(w.bad)
	w.finish()
	// A leak that follows from an earlier finding is not news.
	if n > 0 {
		w.bad = w.bad[:n]
	}
	w.judge(classes)
}

// judge reports the findings of the given classes.
func (w *world) judge(classes string) {
	key := ""
	for _, s := range sorted(w.shape) {
		key += s + ";"
	}
	if w.musts > 0 && w.c.Nontrivial(key) {
		w.c.Sample(map[string]any{"case": w.cs, "log": w.log, "events that had to be delivered": w.musts})
	}
	w.c.Count("obligations checked", w.musts)
	w.c.Count("registration shapes", len(w.shape))
	for _, b := range w.bad {
		w.c.Count("class "+b.Class, 1)
		if strings.Contains(","+classes+",", ","+b.Class+",") {
			w.c.Violate(b.Class, w.cs, b.What, w.log)
			break
		}
	}
	if w.c.Verbose && len(w.bad) > 0 {
		for _, l := range w.log {
			fmt.Println("  ", l)
		}
		for _, l := range w.bad {
			fmt.Println("  !!", l)
		}
	}
}
