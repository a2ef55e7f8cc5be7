package main

import (
	"fmt"
	"os"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// A registered path is replaced, the way editors and tools that rotate logs do.
// What the registrations on it are worth after that is not defined, but a Watch
// call that returns nil after it holds, whoever makes it.
func replaced(c *obs.Ctx, cs int64, wit *obs.Witness) {
	p := baseProfile()
	p.Chans, p.Init, p.Names = 4, 5, namesFew
	w := newWorld(c, cs, p, wit)
	defer w.report("LOST,SPURIOUS,KMISS,WATCHERR,LEAK")
	isdir := w.r.Intn(2) == 0
	path := w.root + "/x"
	put := func() {
		if isdir {
			must(os.Mkdir(path, 0755))
			w.dirs[path] = true
		} else {
			writeFile(path, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "")
			w.file[path] = true
		}
		must(wit.Add(path))
	}
	put()
	wit.Read()
	// Recursive ones are known finding replaced-root.
	const rec = false
	for i := w.r.Intn(4); i > 0; i-- {
		w.doWatch(w.r.Intn(3), path, rec, w.evset())
	}
	if w.r.Intn(3) == 0 {
		w.doWatch(3, w.root, w.r.Intn(2) == 0, w.evset())
	}
	w.moved = map[string]string{}
	w.settle()
	for round := 1 + w.r.Intn(3); round > 0 && len(w.bad) == 0 && !w.dead; round-- {
		away := fmt.Sprintf("%s.out/gone%d", w.root, round)
		if w.r.Intn(2) == 0 {
			w.logf("x is moved away, a new one made")
			must(os.Rename(path, away))
			wit.Renamed(path, away)
		} else {
			w.logf("x is removed, a new one made")
			must(os.RemoveAll(path))
		}
		w.rmdirs(path)
		if w.r.Intn(2) == 0 && !c.Settle(cs, w.log, nil, wit.FD) {
			return
		}
		if !isdir && w.r.Intn(3) == 0 {
			tmp := w.root + ".out/new"
			writeFile(tmp, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "")
			must(os.Rename(tmp, path))
			w.file[path] = true
			must(wit.Add(path))
		} else {
			put()
		}
		if w.r.Intn(3) > 0 && !c.Settle(cs, w.log, nil, wit.FD) {
			return
		}
		ci := w.r.Intn(3)
		e := w.evset()
		if w.r.Intn(2) == 0 {
			// Nothing that is not registered already.
			var tot notify.Event
			for _, cm := range w.m.ch {
				if r := cm.regs[path]; r != nil {
					tot |= r.non | r.rec
				}
			}
			if tot != 0 {
				e = tot
			}
		}
		w.doWatch(ci, path, rec, e)
		if w.dead || !c.Settle(cs, w.log, nil, wit.FD) {
			return
		}
		wit.Read()
		for _, ch := range w.ch {
			drain(ch)
		}
		only := newModel(4)
		only.ch[ci].add(path, rec, e)
		for i := 0; i < 4 && len(w.bad) == 0 && !w.dead; i++ {
			switch k := w.r.Intn(3); {
			case k == 0:
				w.logf("chmod")
				must(os.Chmod(path, 0700|os.FileMode(w.r.Intn(8))))
			case isdir:
				q := path + "/" + w.p.Names[w.r.Intn(len(w.p.Names))]
				if w.file[q] {
					w.logf("rm %q", w.rel(q))
					must(os.Remove(q))
					delete(w.file, q)
				} else {
					w.logf("create %q", w.rel(q))
					writeFile(q, unix.O_CREAT|unix.O_WRONLY, "x")
					w.file[q] = true
					must(wit.Add(q))
				}
			default:
				w.logf("write")
				writeFile(path, unix.O_APPEND|unix.O_WRONLY, "x")
			}
			if !c.Settle(cs, w.log, nil, wit.FD) {
				w.dead = true
				return
			}
			exp := map[key]*bound{}
			kev := wit.Read()
			for _, ev := range kev {
				w.logf("   kernel %s", ev)
				if ev.Dir && ev.Mask&dirNoise != 0 {
					continue
				}
				only.expect(ci, ev, func(p string, _ bool) bool { return p == path }, exp, nil)
			}
			for j, ch := range w.ch {
				n := map[key]int{}
				for _, ei := range drain(ch) {
					k := key{ei.Event(), ei.Path()}
					n[k]++
					w.logf("   c%d got %s %q", j, evString(k.E), w.rel(k.P))
					if !noise(ei) && !w.m.wants(j, k) {
						w.badf("SPURIOUS", "c%d got %s %q, which it has not asked for", j, evString(k.E), w.rel(k.P))
					}
				}
				if j != ci {
					continue
				}
				for k, b := range exp {
					if b.min > 0 {
						w.musts++
						w.shape[fmt.Sprintf("%v/%v/%x/%s", isdir, rec, uint32(k.E), w.m.sig(ci, k.P))] = true
					}
					if n[k] < b.min {
						w.badf("LOST", "c%d watches the path again since it was replaced: %s %q: got %d want >=%d", ci, evString(k.E), w.rel(k.P), n[k], b.min)
					}
				}
			}
		}
		// The watch on the object itself, and nothing wider than what is asked for.
		if ino, err := obs.Ino(path); err == nil && len(w.bad) == 0 {
			have := uint32(0)
			for _, k := range obs.KernelWatches(wit.FD) {
				if k.Ino == ino {
					have |= k.Mask
				}
			}
			if need := needMask(e); need&^have != 0 {
				w.badf("KMISS", "%q needs a watch for %s, has %s", w.rel(path), obs.MaskString(need), obs.MaskString(have))
			}
		}
	}
}

func init() {
	props["replaced"] = func(c *obs.Ctx) {
		wit, err := obs.NewWitness()
		must(err)
		defer wit.Close()
		c.Cases(c.N(6000, 100000), func(cs int64) { replaced(c, cs, wit) })
	}
}
