package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// Trees larger, wider and deeper than those of the worlds.
func bigCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	base, err := os.MkdirTemp(scratch, "g")
	must(err)
	defer os.RemoveAll(base)
	root := base + "/r"
	must(os.Mkdir(root, 0755))
	n := 50 + r.Intn(250)
	if r.Intn(3) == 0 {
		n = 300 + r.Intn(2500)
	}
	shape := []string{"wide", "deep", "bushy", "comb", "broad"}[r.Intn(5)]
	names := namesAll
	dirs := []string{root}
	child := func(d string, i int) string {
		s := names[r.Intn(len(names))]
		if shape == "wide" || shape == "broad" || r.Intn(2) == 0 {
			s = fmt.Sprint(s, i)
		}
		return d + "/" + s
	}
	grow := func(k int) {
		for ; k > 0; k-- {
			d := dirs[r.Intn(len(dirs))]
			switch shape {
			case "wide":
				d = root
			case "broad":
				if r.Intn(2) == 0 {
					d = root
				}
			case "deep":
				d = dirs[len(dirs)-1]
			case "comb":
				d = dirs[len(dirs)-1-r.Intn(min(len(dirs), 3))]
			}
			if len(d) > 3500 {
				d = root
			}
			p := child(d, len(dirs))
			if err := os.Mkdir(p, 0755); err == nil {
				dirs = append(dirs, p)
			} else if !os.IsExist(err) {
				must(err)
			}
			if r.Intn(30) == 0 {
				os.Symlink(dirs[r.Intn(len(dirs))], d+"/link")
			}
		}
	}
	var log []string
	logf := func(f string, a ...any) {
		log = append(log, strings.ReplaceAll(fmt.Sprintf(f, a...), base, ""))
	}
	bad := func(class, f string, a ...any) {
		c.Violate(class, cs, strings.ReplaceAll(fmt.Sprintf(f, a...), base, ""), log)
	}
	first := []int{0, n, n / 2}[r.Intn(3)]
	grow(first)
	logf("a %s tree of %d directories", shape, len(dirs))
	ch := make(chan notify.EventInfo, 1<<15)
	e := notify.Create | notify.Remove
	if r.Intn(2) == 0 {
		e = notify.Create
	}
	c.API(cs, "Watch", func() { err = notify.Watch(root+"/...", ch, e) })
	if err != nil {
		bad("WATCHERR", "%v", err)
		return
	}
	grow(n - first)
	logf("watched recursively for %s, then %d directories more", evString(e), n-first)
	check := func() bool {
		if !c.Settle(cs, log, nil) {
			return false
		}
		have := map[uint64]uint32{}
		for _, k := range obs.KernelWatches() {
			have[k.Ino] = k.Mask
		}
		for _, d := range dirs {
			ino, err := obs.Ino(d)
			must(err)
			if m := have[ino]; needMask(e)&^m != 0 {
				bad("KMISS", "%d levels down, %q needs a watch for %s, has %s", strings.Count(d[len(root):], "/"), d, obs.MaskString(needMask(e)), obs.MaskString(m))
				return false
			}
			delete(have, ino)
		}
		if len(have) > 0 {
			bad("KLEAK", "%d watches too many", len(have))
			return false
		}
		c.Count("kernel watches checked", len(dirs))
		drain(ch)
		want := map[string]bool{}
		for i := 0; i < 60; i++ {
			p := dirs[r.Intn(len(dirs))] + "/f" + fmt.Sprint(i)
			fd, err := unix.Open(p, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY|unix.O_CLOEXEC, 0644)
			if err == nil {
				unix.Close(fd)
				want[p] = true
			}
		}
		c.Count("obligations checked", len(want))
		if !c.Settle(cs, log, nil) {
			return false
		}
		for _, ei := range drain(ch) {
			if ei.Event() != notify.Create || !want[ei.Path()] {
				bad("SPURIOUS", "%s %q, which was not created, or is there a second time", evString(ei.Event()), ei.Path())
				return false
			}
			delete(want, ei.Path())
		}
		for p := range want {
			bad("LOST", "Create %q", p)
			return false
		}
		for i := range dirs {
			for k := 0; k < 60; k++ {
				unix.Unlink(dirs[i] + "/f" + fmt.Sprint(k))
			}
		}
		if !c.Settle(cs, log, nil) {
			return false
		}
		drain(ch)
		return true
	}
	if !check() {
		return
	}
	// A part of it goes, and another one comes in its place.
	if r.Intn(2) == 0 && len(dirs) > 2 {
		gone := dirs[1+r.Intn(len(dirs)-1)]
		must(os.RemoveAll(gone))
		var left []string
		for _, d := range dirs {
			if d != gone && !under(d, gone) {
				left = append(left, d)
			}
		}
		logf("rm -r %q, %d directories", gone, len(dirs)-len(left))
		dirs = left
		if r.Intn(2) == 0 {
			k := len(dirs)
			grow(20 + r.Intn(100))
			logf("%d directories more", len(dirs)-k)
		}
		// Links are in the way of nothing, but may keep a name.
		sort.Strings(dirs)
		if !check() {
			return
		}
	}
	// Moved as a whole, within.
	if r.Intn(3) == 0 {
		old := dirs[r.Intn(len(dirs))]
		for old != root && filepath.Dir(old) != root {
			old = filepath.Dir(old)
		}
		to := root + "/moved"
		if old != root && len(old) > 0 {
			must(os.Rename(old, to))
			for i, d := range dirs {
				if d == old || under(d, old) {
					dirs[i] = to + d[len(old):]
				}
			}
			logf("mv %q %q", old, to)
			if !check() {
				return
			}
		}
	}
	c.API(cs, "Stop", func() { notify.Stop(ch) })
	if !c.Settle(cs, log, nil) {
		return
	}
	if ws := obs.KernelWatches(); len(ws) > 0 {
		bad("KLEAK", "%d watches left after Stop", len(ws))
		return
	}
	c.Count("directories", len(dirs))
	if c.Nontrivial(strings.Join(log, ";")) {
		c.Sample(map[string]any{"case": cs, "log": log})
	}
}

func init() {
	props["big"] = func(c *obs.Ctx) {
		c.Cases(c.N(320, 6000), func(cs int64) { bigCase(c, cs) })
	}
}
