package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// kept is a delivered value together with what it looked like then.
type kept struct {
	ei   notify.EventInfo
	e    notify.Event
	path string
	sys  unix.InotifyEvent
	str  string
}

func keep(ei notify.EventInfo) kept {
	k := kept{ei: ei, e: ei.Event(), path: ei.Path(), str: fmt.Sprint(ei)}
	if s, ok := ei.Sys().(*unix.InotifyEvent); ok && s != nil {
		k.sys = *s
	}
	return k
}

func (k kept) changed() string {
	n := keep(k.ei)
	if n.e != k.e || n.path != k.path || n.sys != k.sys || n.str != k.str {
		return fmt.Sprintf("%s %+v turned into %s %+v", k.str, k.sys, n.str, n.sys)
	}
	return ""
}

// maskFor is what the kernel's mask has to contain for an event value.
func maskFor(e notify.Event) uint32 {
	return needMask(e)
}

// retained holds values of earlier cases, which must not change either.
var retained []kept

func retain(c *obs.Ctx, cs int64, r *rand.Rand, ks []kept) {
	for _, k := range retained {
		if s := k.changed(); s != "" {
			c.Violate("CHANGED", cs, "a value of an earlier case: "+s, nil)
			retained = nil
			return
		}
	}
	c.Count("values looked at again later", len(retained))
	for _, k := range ks {
		switch {
		case len(retained) < 200:
			retained = append(retained, k)
		case r.Intn(20) == 0:
			retained[r.Intn(len(retained))] = k
		}
	}
}

// sysWorld is a world in which the system data of every value is compared
// with the events the witness has seen.
func sysWorld(c *obs.Ctx, cs int64, wit *obs.Witness) {
	p := baseProfile()
	p.Names = namesFew
	p.RecPct = 50
	p.W["mv"], p.W["mvover"], p.W["mvdir"], p.W["watch"] = 6, 3, 4, 7
	w := newWorld(c, cs, p, wit)
	var old []kept
	w.onEach = func(w *world, kev []obs.KEvent, got [][]notify.EventInfo) {
		type id struct {
			p      string
			mask   uint32
			dir    bool
			cookie uint32
		}
		seen := map[id]int{}
		at := map[string]bool{}
		for _, k := range kev {
			seen[id{k.Path(), k.Mask, k.Dir, k.Cookie}]++
			at[k.Path()] = true
		}
		for ci, eis := range got {
			from := map[uint32]string{}
			to := map[uint32]string{}
			for _, ei := range eis {
				s, ok := ei.Sys().(*unix.InotifyEvent)
				if !ok || s == nil {
					w.badf("SYS", "c%d: %v has no system data", ci, ei)
					continue
				}
				old = append(old, keep(ei))
				bits := s.Mask & unix.IN_ALL_EVENTS
				if bits == 0 || bits&(bits-1) != 0 {
					w.badf("SYS", "c%d: %v has mask %s", ci, ei, obs.MaskString(s.Mask))
					continue
				}
				if maskFor(ei.Event())&bits == 0 {
					w.badf("SYS", "c%d: %s %q stands for kernel event %s", ci, evString(ei.Event()), w.rel(ei.Path()), obs.MaskString(s.Mask))
				}
				if !at[ei.Path()] || noise(ei) {
					continue // tree in the making, or a path under another name
				}
				w.c.Count("system data compared", 1)
				if seen[id{ei.Path(), bits, s.Mask&unix.IN_ISDIR != 0, s.Cookie}] == 0 {
					w.badf("SYS", "c%d: %s %q carries %s cookie %d, which the kernel never reported", ci, evString(ei.Event()), w.rel(ei.Path()), obs.MaskString(s.Mask), s.Cookie)
				}
				switch bits {
				case unix.IN_MOVED_FROM:
					from[s.Cookie] = ei.Path()
				case unix.IN_MOVED_TO:
					to[s.Cookie] = ei.Path()
				default:
					if s.Cookie != 0 {
						w.badf("SYS", "c%d: %v has cookie %d", ci, ei, s.Cookie)
					}
				}
			}
			for k, f := range from {
				if k == 0 {
					w.badf("COOKIE", "c%d: rename of %q has no cookie", ci, f)
				}
				if to[k] != "" {
					w.musts++
					w.shape[fmt.Sprintf("rename %s", w.m.sig(ci, f))] = true
				}
			}
		}
	}
	for i := 0; i < w.p.Steps && len(w.bad) == 0 && !w.dead; i++ {
		w.step()
		w.settle()
	}
	for _, k := range old {
		if s := k.changed(); s != "" {
			w.badf("CHANGED", "%s", s)
		}
	}
	w.c.Count("values looked at again later", len(old))
	retain(c, cs, w.r, old)
	w.report("SYS,COOKIE,CHANGED")
}

// renamesCase: many renames in flight at once.
func renamesCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "n")
	must(err)
	defer os.RemoveAll(root)
	dirs, _ := layout(root)
	ch := make(chan notify.EventInfo, 1<<15)
	raw := r.Intn(2) == 0
	es := []notify.Event{notify.InMovedFrom, notify.InMovedTo}
	if !raw {
		es = []notify.Event{notify.Create, notify.Rename}
	} else if r.Intn(2) == 0 {
		es = append(es, notify.Create, notify.Rename, notify.InCreate)
	}
	c.API(cs, "Watch", func() { must(notify.Watch(root+"/...", ch, es...)) })
	if !c.Settle(cs, nil, nil) {
		return
	}
	n := 2 + r.Intn(4)
	pairs := make([]map[string]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			pairs[i] = map[string]string{}
			p := fmt.Sprintf("%s/r%d-0", dirs[0], i)
			writeFile(p, unix.O_CREAT|unix.O_WRONLY, "")
			for k := 1; k < 80; k++ {
				q := fmt.Sprintf("%s/r%d-%d", dirs[r.Intn(len(dirs))], i, k)
				must(unix.Rename(p, q))
				pairs[i][p] = q
				p = q
			}
		}(rand.New(rand.NewSource(cs + int64(i))))
	}
	wg.Wait()
	if !c.Settle(cs, nil, nil) {
		return
	}
	got := drain(ch)
	var ks []kept
	from, to := map[notify.Event]map[string]uint32{}, map[notify.Event]map[string]uint32{}
	put := func(m map[notify.Event]map[string]uint32, e notify.Event, p string, k uint32) {
		if m[e] == nil {
			m[e] = map[string]uint32{}
		}
		m[e][p] = k
	}
	for _, ei := range got {
		ks = append(ks, keep(ei))
		s := ei.Sys().(*unix.InotifyEvent)
		switch {
		case s.Mask&unix.IN_MOVED_FROM != 0:
			put(from, ei.Event(), ei.Path(), s.Cookie)
		case s.Mask&unix.IN_MOVED_TO != 0:
			put(to, ei.Event(), ei.Path(), s.Cookie)
		}
	}
	froms, tos := []notify.Event{notify.Rename}, []notify.Event{notify.Create}
	if raw {
		froms, tos = []notify.Event{notify.InMovedFrom}, []notify.Event{notify.InMovedTo}
		if len(es) > 2 {
			froms, tos = append(froms, notify.Rename), append(tos, notify.Create)
		}
	}
	seen := map[uint32]string{}
	for _, m := range pairs {
		for p, q := range m {
			for _, f := range froms {
				for _, t := range tos {
					a, b := from[f][p], to[t][q]
					if a == 0 || a != b {
						c.Violate("COOKIE", cs, fmt.Sprintf("rename %q to %q: %s has cookie %d, %s has cookie %d", p, q, evString(f), a, evString(t), b), nil)
						return
					}
					if o, ok := seen[a]; ok && o != p {
						c.Violate("COOKIE", cs, fmt.Sprintf("renames of %q and %q share cookie %d", o, p, a), nil)
						return
					}
					seen[a] = p
					c.Count("rename halves paired", 1)
				}
			}
		}
	}
	// Many more events go through the library's buffers.
	newScribe("x", cs).some(300, dirs, false)
	if !c.Settle(cs, nil, nil) {
		return
	}
	for _, k := range ks {
		if s := k.changed(); s != "" {
			c.Violate("CHANGED", cs, s, nil)
			return
		}
	}
	c.Count("values looked at again later", len(ks))
	retain(c, cs, r, ks)
	c.API(cs, "Stop", func() { notify.Stop(ch) })
	c.Settle(cs, nil, nil)
	if c.Nontrivial(fmt.Sprint("renames", cs)) {
		c.Sample(map[string]any{"case": cs, "mutators": n, "renames": n * 79, "values": len(got), "events": fmt.Sprint(es)})
	}
}

func init() {
	props["sys"] = func(c *obs.Ctx) {
		wit, err := obs.NewWitness()
		must(err)
		defer wit.Close()
		c.Cases(c.N(4000, 60000), func(cs int64) { sysWorld(c, cs, wit) })
	}
	props["renames"] = func(c *obs.Ctx) {
		c.Cases(c.N(400, 8000), func(cs int64) { renamesCase(c, cs) })
	}
}
