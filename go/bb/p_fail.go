package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// nofiles makes every attempt to open a descriptor fail, but for the first n.
func nofiles(n int, fn func()) {
	var old unix.Rlimit
	must(unix.Getrlimit(unix.RLIMIT_NOFILE, &old))
	low := 0
	for {
		if _, err := unix.FcntlInt(uintptr(low), unix.F_GETFD, 0); err != nil {
			if n--; n < 0 {
				break
			}
		}
		low++
	}
	lim := old
	lim.Cur = uint64(low)
	must(unix.Setrlimit(unix.RLIMIT_NOFILE, &lim))
	fn()
	must(unix.Setrlimit(unix.RLIMIT_NOFILE, &old))
}

// unprivileged runs fn without the privileges of root on files.
func unprivileged(fn func()) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	unix.RawSyscall(unix.SYS_SETFSUID, 65534, 0, 0)
	defer unix.RawSyscall(unix.SYS_SETFSUID, 0, 0, 0)
	fn()
}

// watchNil calls Watch; refusing a nil channel by panicking is an error, too.
func watchNil(arg string, ch chan<- notify.EventInfo, args []notify.Event) (err error) {
	if ch == nil {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
	}
	return notify.Watch(arg, ch, args...)
}

const unknownEvent = notify.Event(1 << 27)

// badWatch makes a call of Watch that has a reason to fail. When replaying, only
// the calls that have not failed the first time are made, in a way that works.
func (w *world) badWatch() {
	ci, isrec, e := w.r.Intn(len(w.ch)), w.r.Intn(2) == 0, w.evset()
	dir, _ := w.pick(w.dirs)
	file, ok := w.pick(w.file)
	p, kind := dir, ""
	want := true // an error is due
	run := func(fn func()) { fn() }
	switch k := w.r.Intn(11); {
	case k == 0:
		p, kind = dir+"/nope", "missing"
	case k == 1 && ok:
		p, kind = file+"/x", "below file"
	case k == 2 && ok:
		p, kind, isrec = file, "recursive file", true
	case k == 3:
		kind, e = "unknown event", e|unknownEvent
	case k == 4:
		kind, run, want, isrec = "no descriptors", func(fn func()) { nofiles(0, fn) }, false, true
	case k == 5:
		p, kind = dir+"/"+strings.Repeat("n", 256), "name too long"
	case k == 6:
		p, kind = dir+"/n\x00", "nul"
	case k == 7:
		kind, want = "no events", false
	case k == 8:
		kind = "nil channel"
	default:
		kind, want = "unprivileged", false
		if w.r.Intn(2) == 0 {
			p, isrec = w.root, true
		} else if w.r.Intn(3) == 0 && ok {
			p, isrec = file, false
		}
		run = unprivileged
	}
	arg := p
	if isrec {
		arg += "/..."
	}
	args, ch := w.evargs(e), chan<- notify.EventInfo(w.ch[ci])
	switch kind {
	case "no events":
		args = nil
	case "nil channel":
		ch = nil
	}
	w.c.Count("op badwatch "+kind, 1)
	n := w.nbad
	w.nbad++
	if w.failed != nil && w.failed[n] {
		return
	}
	if w.failed != nil {
		run = func(fn func()) { fn() }
	}
	var err error
	w.c.API(w.cs, fmt.Sprintf("Watch(%q)", arg), func() { run(func() { err = watchNil(arg, ch, args) }) })
	w.logf("watch c%d %q %s (%s): %v", ci, strings.ReplaceAll(arg, w.root, "~"), evString(e), kind, err)
	if err == nil && kind != "no events" {
		if want {
			w.badf("ACCEPTED", "Watch(%q, %s) returned nil (%s)", arg, evString(e), kind)
			return
		}
		w.m.ch[ci].add(p, isrec, e)
		return
	}
	if err != nil && kind == "no events" {
		w.badf("REFUSED", "Watch(%q) with no events: %v", arg, err)
		return
	}
	w.fails[n] = true
	w.c.Count("failed calls", 1)
	w.c.Count("failed: "+kind, 1)
	w.shape[fmt.Sprintf("%s/%v/%s", kind, isrec, w.m.sig(ci, p))] = true
}

// failWorld is a world in which some calls fail. What goes wrong in it, and not
// when the failed calls are left out, is their doing.
func failWorld(c *obs.Ctx, cs int64, wit *obs.Witness) {
	p := mixed(cs)
	p.CheckKernel = true
	p.Init += 5
	p.Steps = 35
	p.W["chmod"] += 2
	p.W["badwatch"] = 9
	p.Decorate = false
	run := func(failed map[int]bool) *world {
		w := newWorld(c, cs, p, wit)
		w.failed, w.fails = failed, map[int]bool{}
		must(os.Chmod(w.root, 0755))
		for d := range w.dirs {
			must(os.Chmod(d, 0755))
		}
		if !w.c.Settle(w.cs, w.log, nil, w.wit.FD) {
			return w
		}
		wit.Read()
		for i := 0; i < w.p.Steps && len(w.bad) == 0 && !w.dead; i++ {
			w.step()
			w.settle()
		}
		return w
	}
	fds := obs.FDs()
	w := run(nil)
	bad := append([]finding(nil), w.bad...)
	log := append([]string(nil), w.log...)
	w.report("")
	if n := obs.FDs(); n != fds && !w.dead {
		c.Violate("FDLEAK", cs, fmt.Sprintf("the process had %d descriptors, now it has %d", fds, n), log)
	}
	if len(bad) == 0 {
		return
	}
	if bad[0].Class == "ACCEPTED" {
		c.Violate("ACCEPTED", cs, bad[0].What, log)
		return
	}
	s := run(w.fails)
	same, dead := len(s.bad) > 0, s.dead
	s.report("")
	c.Count("reruns without the calls that failed", 1)
	if !same && !dead {
		c.Violate(bad[0].Class, cs, bad[0].What+"; does not happen when the Watch calls that failed are left out", log)
	}
}

// firstCalls: nothing works yet, and the first calls fail.
func firstCalls(c *obs.Ctx) {
	must(os.Chmod(scratch, 0755))
	ch := make(chan notify.EventInfo, 16)
	// The runtime opens descriptors of its own for the first pipe.
	rd, wr, err := os.Pipe()
	must(err)
	rd.Close()
	wr.Close()
	fds := obs.FDs()
	gs := runtime.NumGoroutine()
	r := rand.New(rand.NewSource(c.Seed + int64(c.Shard)))
	for k := 0; k < 4; k++ {
		n := r.Intn(4)
		if k == 3 {
			n = 3 - r.Intn(2)
		}
		var err error
		log := []string{fmt.Sprintf("%d descriptors can be opened", n)}
		nofiles(n, func() { err = notify.Watch(scratch, ch, notify.All) })
		log = append(log, fmt.Sprintf("Watch=%v", err))
		if err == nil {
			c.Violate("ACCEPTED", int64(k), "Watch returned nil, without descriptors to work with", log)
			return
		}
		c.Count("failed first calls", 1)
		if now := obs.FDs(); now != fds {
			c.Violate("FDLEAK", int64(k), fmt.Sprintf("failed initialisation: had %d descriptors, now %d", fds, now), log)
			return
		}
		if !c.Settle(0, log, nil) {
			return
		}
		if now := runtime.NumGoroutine(); now != gs {
			c.Violate("GOLEAK", int64(k), fmt.Sprintf("failed initialisation: had %d goroutines, now %d", gs, now), log)
			return
		}
	}
	must(notify.Watch(scratch, ch, notify.Create))
	must(os.WriteFile(scratch+"/first", nil, 0644))
	if c.Settle(0, nil, nil) && len(ch) != 1 {
		c.Violate("LOST", 0, fmt.Sprintf("after failed calls a good one: %d events instead of 1", len(ch)), nil)
	}
	notify.Stop(ch)
	must(os.Remove(scratch + "/first"))
}

func init() {
	props["failures"] = func(c *obs.Ctx) {
		must(os.Chmod(scratch, 0755))
		firstCalls(c)
		if len(c.Violations) > 0 {
			return
		}
		wit, err := obs.NewWitness()
		must(err)
		defer wit.Close()
		c.Cases(c.N(3000, 40000), func(cs int64) { failWorld(c, cs, wit) })
	}
}
