package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

var rawSome = []notify.Event{notify.InCloseWrite, notify.InMovedFrom, notify.InMovedTo, notify.InAttrib, notify.InModify, notify.InCreate, notify.InDelete}

func randEventsRaw(r *rand.Rand) notify.Event {
	e := randEvents(r)
	if r.Intn(4) == 0 {
		e |= rawSome[r.Intn(len(rawSome))]
	}
	if r.Intn(8) == 0 {
		e = rawSome[r.Intn(len(rawSome))]
	}
	return e
}

// isolationCase: observers keep their registrations, everybody else registers
// and stops as hard as possible on the same paths, while changes go on.
func isolationCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "i")
	must(err)
	defer os.RemoveAll(root)
	dirs, files := layout(root)
	nobs := 2 + r.Intn(3)
	m := newModel(nobs)
	var chans []chan notify.EventInfo
	var log []string
	reg := func(ci int, n int) bool {
		for ; n > 0; n-- {
			p, isrec, e := dirs[r.Intn(len(dirs))], r.Intn(2) == 0, randEventsRaw(r)
			if !isrec && r.Intn(6) == 0 {
				p = files[r.Intn(len(files))]
			}
			arg := p
			if isrec {
				arg += "/..."
			}
			var err error
			c.API(cs, "Watch", func() { err = notify.Watch(arg, chans[ci], e) })
			if err != nil {
				c.Inconclusive = append(c.Inconclusive, fmt.Sprintf("Watch(%q)=%v", arg, err))
				return false
			}
			m.ch[ci].add(p, isrec, e)
			log = append(log, fmt.Sprintf("observer c%d watches %q %s", ci, arg, evString(e)))
		}
		return true
	}
	for ci := 0; ci < nobs; ci++ {
		chans = append(chans, make(chan notify.EventInfo, 1<<15))
		if !reg(ci, 1+r.Intn(3)) {
			return
		}
	}
	if !c.Settle(cs, log, nil) {
		return
	}
	// The kernel itself loses events of an inode while inotify_add_watch(2)
	// changes its mask (the mask is zero for a moment, without a lock the
	// reporting side takes). So either changes and mask changes exclude each
	// other, and nothing may be lost, or they do not, and only losses on a
	// larger scale count.
	excl := r.Intn(4) > 0
	var gate sync.RWMutex
	api := func(fn func()) {
		if excl {
			gate.Lock()
			defer gate.Unlock()
		}
		fn()
	}
	var quit atomic.Bool
	var calls atomic.Int64
	var wg sync.WaitGroup
	ndist := 1 + r.Intn(4)
	withDirs := r.Intn(2) == 0
	for i := 0; i < ndist; i++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for !quit.Load() {
				x := make(chan notify.EventInfo, 1+r.Intn(64))
				for k := 1 + r.Intn(4); k > 0; k-- {
					p := dirs[r.Intn(len(dirs))]
					if r.Intn(4) == 0 {
						p = files[r.Intn(len(files))]
					} else if r.Intn(2) == 0 {
						p += "/..."
					}
					e := randEventsRaw(r)
					api(func() { notify.Watch(p, x, e) })
					calls.Add(1)
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
				} else {
					runtime.Gosched()
				}
				api(func() { notify.Stop(x) })
				calls.Add(1)
			}
		}(rand.New(rand.NewSource(cs ^ int64(i+1)*104729)))
	}
	ns := 1 + r.Intn(2)
	var scribes []*scribe
	var sg sync.WaitGroup
	for i := 0; i < ns; i++ {
		s := newScribe(fmt.Sprintf("s%d", i), cs+int64(i)*7)
		scribes = append(scribes, s)
		sg.Add(1)
		go func() {
			defer sg.Done()
			for k := 0; k < 10; k++ {
				for n := 0; n < 10; n++ {
					if excl {
						gate.RLock()
					}
					s.some(2, dirs, withDirs)
					if excl {
						gate.RUnlock()
					}
				}
				if s.r.Intn(2) == 0 {
					time.Sleep(time.Duration(s.r.Intn(800)) * time.Microsecond)
				}
				for _, f := range files {
					if s.r.Intn(4) == 0 {
						writeFile(f, unix.O_WRONLY|unix.O_APPEND, "x")
					}
				}
			}
		}()
	}
	sg.Wait()
	quit.Store(true)
	c.API(cs, "concurrent Watch and Stop", wg.Wait)
	ok := c.Settle(cs, log, nil)
	musts := 0
	for ci := 0; ok && ci < nobs; ci++ {
		got := drain(chans[ci])
		if len(got) >= cap(chans[ci]) {
			c.Count("observers that overran", 1)
			continue
		}
		bad, n := tally(m, ci, got, scribes...)
		musts += n
		c.Count("events delivered to observers", len(got))
		lost := 0
		for _, b := range bad {
			if b.Class == "LOST" {
				lost++
			}
		}
		if !excl && lost == len(bad) && lost < 10+n/20 {
			c.Count("events lost while the kernel changed masks", lost)
			continue
		}
		if len(bad) > 0 {
			c.Violate(bad[0].Class, cs, fmt.Sprintf("%s (and %d more), while other channels were watching and stopping", bad[0].What, len(bad)-1), append(log, regLog(m.ch[ci])...))
			break
		}
	}
	for _, ch := range chans {
		c.API(cs, "Stop", func() { notify.Stop(ch) })
	}
	if ok && c.Settle(cs, log, nil) {
		c.Count("kernel watches left at rest", len(obs.KernelWatches()))
	}
	c.Count("obligations checked", musts)
	c.Count("API calls of other channels meanwhile", int(calls.Load()))
	if musts > 0 && calls.Load() > 10 && c.Nontrivial(strings.ReplaceAll(strings.Join(log, ";"), root, "")) {
		c.Sample(map[string]any{"case": cs, "observers": log, "calls of others": calls.Load(), "events that had to be delivered": musts})
	}
}

// soloCheck reruns a world in which a channel did not get what it should with
// the calls of all other channels left out: what goes away is their doing.
func soloCheck(c *obs.Ctx, cs int64, p profile, wit *obs.Witness) {
	run := func(only int) *world {
		w := newWorld(c, cs, p, wit)
		w.only = only
		for i := 0; i < p.Steps && len(w.bad) == 0 && !w.dead; i++ {
			w.step()
			w.settle()
		}
		return w
	}
	w := run(-1)
	bad := append([]finding(nil), w.bad...)
	w.report("")
	for _, b := range bad {
		if b.ch < 0 || b.Class != "LOST" && b.Class != "SPURIOUS" && b.Class != "DUP" {
			continue
		}
		s := run(b.ch)
		same := len(s.bad) > 0
		dead := s.dead
		s.report("")
		c.Count("reruns with one channel only", 1)
		if !same && !dead {
			c.Violate(b.Class, cs, b.What+"; does not happen with the calls of the other channels left out", w.log)
		}
		return
	}
}

func init() {
	props["isolation"] = func(c *obs.Ctx) {
		c.Cases(c.N(1000, 20000), func(cs int64) { isolationCase(c, cs) })
	}
	props["solo"] = func(c *obs.Ctx) {
		wit, err := obs.NewWitness()
		must(err)
		defer wit.Close()
		c.Cases(c.N(3000, 40000), func(cs int64) {
			p := mixed(cs)
			p.Chans = 5
			p.W["watch"] += 4
			p.W["stop"] += 3
			soloCheck(c, cs, p, wit)
		})
	}
}
