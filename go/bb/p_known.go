package main

import (
	"fmt"
	"os"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// Scripted histories of the listed findings: the observation is reported as the
// finding, anything else that is wrong in them as a violation.

func knownTree(c *obs.Ctx) (root string, settle func() bool) {
	root, err := os.MkdirTemp(scratch, "k")
	must(err)
	c.Begin(0, "")
	return root, func() bool { return c.Settle(0, nil, nil) }
}

func got(ch chan notify.EventInfo) map[key]int {
	m := map[key]int{}
	for _, ei := range drain(ch) {
		m[key{ei.Event(), ei.Path()}]++
	}
	return m
}

// Two names of one file, registered by different channels.
func knownLinks(c *obs.Ctx) {
	root, settle := knownTree(c)
	defer os.RemoveAll(root)
	a, b := root+"/a", root+"/b"
	writeFile(a, unix.O_CREAT|unix.O_WRONLY, "x")
	must(os.Link(a, b))
	c1, c2 := make(chan notify.EventInfo, 10), make(chan notify.EventInfo, 10)
	must(notify.Watch(a, c1, notify.Write))
	must(notify.Watch(b, c2, notify.Remove))
	writeFile(a, unix.O_APPEND|unix.O_WRONLY, "x")
	if !settle() {
		return
	}
	g := got(c1)
	if g[key{notify.Write, a}] == 0 {
		c.KnownFinding("hard-links")
		delete(g, key{notify.Write, a})
	}
	if n := len(got(c2)); n > 0 {
		c.Violate("SPURIOUS", 0, fmt.Sprintf("%d events on a hard link that were not asked for", n), nil)
	}
	notify.Stop(c1)
	notify.Stop(c2)
	if settle() {
		c.Nontrivial("hard links")
		c.Sample(map[string]any{"script": "a and b are one file; c1 watches a for Write, c2 watches b for Remove; a is written to"})
	}
}

// A directory is removed while somebody has it open: its parent tells at once,
// and with a recursive watchpoint above the directory is forgotten by the time
// it goes for good.
func knownLateSelf(c *obs.Ctx) {
	root, settle := knownTree(c)
	defer os.RemoveAll(root)
	d := root + "/t/d"
	must(os.MkdirAll(d, 0755))
	c1, c2 := make(chan notify.EventInfo, 10), make(chan notify.EventInfo, 10)
	must(notify.Watch(d, c1, notify.InDeleteSelf))
	must(notify.Watch(root+"/t/...", c2, notify.Remove))
	fd, err := unix.Open(d, unix.O_RDONLY|unix.O_CLOEXEC, 0)
	must(err)
	must(unix.Rmdir(d))
	if !settle() {
		return
	}
	unix.Close(fd)
	if !settle() {
		return
	}
	if got(c1)[key{notify.InDeleteSelf, d}] == 0 {
		c.KnownFinding("late-self-delete")
	}
	if got(c2)[key{notify.Remove, d}] == 0 {
		c.Violate("LOST", 0, "the removal of a directory that is in use is not reported", nil)
	}
	notify.Stop(c1)
	notify.Stop(c2)
	if settle() {
		c.Nontrivial("late self")
		c.Sample(map[string]any{"script": "c1 watches t/d for InDeleteSelf, c2 watches t/... for Remove; t/d is opened, removed and closed"})
	}
}

// The directory of a recursive watchpoint is replaced, and watched for the same
// events once more.
func knownReplacedRoot(c *obs.Ctx) {
	root, settle := knownTree(c)
	defer os.RemoveAll(root)
	d := root + "/d"
	must(os.Mkdir(d, 0755))
	c1, c2 := make(chan notify.EventInfo, 10), make(chan notify.EventInfo, 10)
	must(notify.Watch(d+"/...", c1, notify.Create))
	must(os.Remove(d))
	must(os.Mkdir(d, 0755))
	if !settle() {
		return
	}
	must(notify.Watch(d+"/...", c2, notify.Create))
	must(os.Mkdir(d+"/x", 0755))
	if !settle() {
		return
	}
	if got(c2)[key{notify.Create, d + "/x"}] == 0 {
		c.KnownFinding("replaced-root")
	}
	notify.Stop(c1)
	notify.Stop(c2)
	must(notify.Watch(d+"/...", c2, notify.Create))
	must(os.Mkdir(d+"/y", 0755))
	if !settle() {
		return
	}
	if got(c2)[key{notify.Create, d + "/y"}] == 0 {
		c.Violate("LOST", 0, "a path that was replaced cannot be watched even when nobody watches it any more", nil)
	}
	notify.Stop(c2)
	if settle() {
		c.Nontrivial("replaced root")
		c.Sample(map[string]any{"script": "c1 watches d/... for Create, d is removed and made again, c2 watches d/... for Create"})
	}
}

// A directory leaves a recursive watchpoint.
func knownMovedOut(c *obs.Ctx) {
	root, settle := knownTree(c)
	defer os.RemoveAll(root)
	must(os.MkdirAll(root+"/t/d", 0755))
	ch := make(chan notify.EventInfo, 100)
	must(notify.Watch(root+"/t/...", ch, notify.All))
	must(os.Rename(root+"/t/d", root+"/out"))
	if !settle() {
		return
	}
	drain(ch)
	ino, err := obs.Ino(root + "/out")
	must(err)
	for _, k := range obs.KernelWatches() {
		if k.Ino == ino && c.Prop == "known-moved-out-watch" {
			c.KnownFinding("moved-out-directory")
		}
	}
	writeFile(root+"/out/f", unix.O_CREAT|unix.O_WRONLY, "")
	if !settle() {
		return
	}
	for k := range got(ch) {
		if k.P != root+"/t/d/f" {
			c.Violate("SPURIOUS", 0, fmt.Sprintf("got %s %q", evString(k.E), k.P), nil)
		} else if c.Prop == "known-moved-out" {
			c.KnownFinding("moved-out-directory")
		}
	}
	notify.Stop(ch)
	settle()
	c.Nontrivial("moved out")
	c.Sample(map[string]any{"script": "t/... is watched for All; mv t/d out; create out/f"})
}

// A file takes the place of a directory whose removal nobody watched for.
func knownStale(c *obs.Ctx) {
	root, settle := knownTree(c)
	defer os.RemoveAll(root)
	d := root + "/d"
	must(os.Mkdir(d, 0755))
	c1, c2 := make(chan notify.EventInfo, 100), make(chan notify.EventInfo, 100)
	must(notify.Watch(root+"/...", c1, notify.Rename|notify.Write))
	must(notify.Watch(root+"/...", c2, notify.Write))
	must(os.Remove(d))
	if !settle() {
		return
	}
	writeFile(d, unix.O_CREAT|unix.O_WRONLY, "")
	if !settle() {
		return
	}
	notify.Stop(c1)
	if !settle() {
		return
	}
	ino, err := obs.Ino(d)
	must(err)
	rootIno, err := obs.Ino(root)
	must(err)
	for _, k := range obs.KernelWatches() {
		switch k.Ino {
		case ino:
			c.KnownFinding("stale-directory-node")
		case rootIno:
		default:
			c.Violate("KGHOST", 0, fmt.Sprintf("watch on an object that is not there: %+v", k), nil)
		}
	}
	notify.Stop(c2)
	settle()
	if ws := obs.KernelWatches(); len(ws) > 0 {
		c.Violate("LEAK", 0, fmt.Sprintf("after Stop: %+v", ws), nil)
	}
	c.Nontrivial("stale")
	c.Sample(map[string]any{"script": "c1 watches ./... for Rename and Write, c2 for Write; rmdir d; create file d; Stop(c1)"})
}

func init() {
	props["known-replaced-root"] = knownReplacedRoot
	props["known-late-self"] = knownLateSelf
	props["known-links"] = knownLinks
	props["known-moved-out"] = knownMovedOut
	props["known-moved-out-watch"] = knownMovedOut
	props["known-stale"] = knownStale
}
