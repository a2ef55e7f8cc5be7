package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// churner changes directories below root as fast as it can; nothing is promised
// about the events meanwhile.
func churner(r *rand.Rand, root string, n int, ops string) (log []string) {
	names := namesFew
	pick := func() string {
		p := root
		for d := 1 + r.Intn(3); d > 0; d-- {
			p += "/" + names[r.Intn(len(names))]
		}
		return p
	}
	for i := 0; i < n; i++ {
		var err error
		var what string
		switch op := ops[r.Intn(len(ops))]; op {
		case 'm':
			p := pick()
			err = unix.Mkdir(p, 0755)
			what = "mkdir " + p
		case 'f':
			// A file, maybe where a directory was a moment ago.
			p := pick()
			if err = unix.Unlink(p); err == nil {
				what = "rm " + p
				break
			}
			if r.Intn(2) == 0 {
				if err = unix.Rmdir(p); err == nil {
					log = append(log, strings.ReplaceAll("rmdir "+p, root, "~"))
				}
			}
			var fd int
			if fd, err = unix.Open(p, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY|unix.O_CLOEXEC, 0644); err == nil {
				unix.Close(fd)
			}
			what = "touch " + p
		case 'r':
			p := pick()
			err = unix.Rmdir(p)
			what = "rmdir " + p
		case 'R':
			p := pick()
			if _, err = os.Lstat(p); err == nil {
				os.RemoveAll(p)
			}
			what = "rm -r " + p
		case 'M':
			p := pick()
			err = os.MkdirAll(p, 0755)
			what = "mkdir -p " + p
		case 'v':
			p, q := pick(), pick()
			if _, e := os.Lstat(q); e == nil {
				continue // not over another one
			}
			err = unix.Rename(p, q)
			what = "mv " + p + " " + q
		case 'o':
			p, q := pick(), pick()
			if p == q {
				continue
			}
			err = unix.Rename(p, q) // over an empty directory
			what = "mv -T " + p + " " + q
		case 'x':
			// Away and back again.
			p := pick()
			if err = unix.Rename(p, p+".tmp"); err == nil {
				err = unix.Rename(p+".tmp", p)
			}
			what = "mv away and back " + p
		}
		if err == nil {
			log = append(log, strings.ReplaceAll(what, root, "~"))
		}
		switch r.Intn(12) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
		}
	}
	return log
}

// churnCase: recursive watchpoints stay put while directories come and go, and
// cover whatever is there when things have calmed down.
func churnCase(c *obs.Ctx, cs int64, kernel bool) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "h")
	must(err)
	defer os.RemoveAll(root)
	ops := []string{"mmr", "mMrR", "mMrRv", "mMrRvo", "mmrx", "mmvx", "mMo", "mMrRvox", "mrf", "mmrrff", "mMrRf", "mMrRvoxff"}[r.Intn(12)]
	steady := kernel && !strings.ContainsAny(ops, "vox")
	n := 1 + r.Intn(3)
	m := newModel(n)
	var chans []chan notify.EventInfo
	var log []string
	for i := 0; i < 6; i++ {
		os.MkdirAll(root+"/"+namesFew[r.Intn(3)]+"/"+namesFew[r.Intn(3)], 0755)
	}
	for i := 0; i < n; i++ {
		ch := make(chan notify.EventInfo, 1<<15)
		chans = append(chans, ch)
		e := randEvents(r)
		if steady {
			e |= notify.Remove
		}
		must(notify.Watch(root+"/...", ch, e))
		m.ch[i].add(root, true, e)
	}
	for i := range chans {
		log = append(log, regLog(m.ch[i])...)
	}
	par := 1
	if r.Intn(4) == 0 {
		par = 2
	}
	shape := map[string]bool{}
	musts := 0
	for round := 0; round < 6; round++ {
		logs := make([][]string, par)
		var wg sync.WaitGroup
		for g := 0; g < par; g++ {
			wg.Add(1)
			go func(r *rand.Rand) {
				defer wg.Done()
				logs[g] = churner(r, root, 2+r.Intn(40), ops)
			}(rand.New(rand.NewSource(cs + int64(round*8+g))))
		}
		wg.Wait()
		for _, l := range logs {
			log = append(log, l...)
			log = append(log, "--")
			c.Count("directory operations", len(l))
		}
		if !c.Settle(cs, log, nil) {
			return
		}
		for _, ch := range chans {
			drain(ch)
		}
		bad := func(class, f string, a ...interface{}) {
			c.Violate(class, cs, strings.ReplaceAll(fmt.Sprintf(f, a...), root, "~"), log)
		}
	look: // at what the kernel watches
		have := map[uint64]uint32{}
		for _, k := range obs.KernelWatches() {
			have[k.Ino] |= k.Mask
		}
		var dirs, files []string
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			must(err)
			if fi.IsDir() {
				dirs = append(dirs, p)
			} else {
				files = append(files, p)
			}
			return nil
		})
		kwatches := len(have)
		for _, d := range dirs {
			need, watch := m.need(d, true)
			ino, err := obs.Ino(d)
			must(err)
			if wide := m.needMerged(d, true) | unix.IN_CREATE | unix.IN_MOVED_TO; kernel && have[ino]&^wide != 0 {
				bad("KWIDE", "%q needs a watch for %s, has %s", d, obs.MaskString(wide), obs.MaskString(have[ino]))
				return
			}
			if kernel && !watch && have[ino] != 0 {
				bad("KEXTRA", "%q needs no watch, has %s", d, obs.MaskString(have[ino]))
				return
			}
			if miss := need &^ have[ino]; miss != 0 {
				bad("KMISS", "%q needs a watch for %s, has %s", d, obs.MaskString(need), obs.MaskString(have[ino]))
				return
			}
			shape[fmt.Sprintf("%s/%d", ops, strings.Count(d[len(root):], "/"))] = true
		}
		c.Count("directories that have to be watched", len(dirs))
		for _, f := range files {
			if !kernel {
				break
			}
			ino, err := obs.Ino(f)
			must(err)
			if k, ok := have[ino]; ok {
				bad("KEXTRA", "%q, a file nobody has asked for, is watched for %s", f, obs.MaskString(k))
				return
			}
		}
		c.Count("files that must not be watched", len(files))
		if kernel {
			c.Count("kernel watches inspected", kwatches)
			musts++
			// Directories do not move in these, and their removal is asked for.
			if i := r.Intn(n); steady && r.Intn(2) == 0 {
				if len(m.ch[i].regs) > 0 && r.Intn(2) == 0 {
					c.API(cs, "Stop", func() { notify.Stop(chans[i]) })
					m.ch[i].regs = map[string]*reg{}
					log = append(log, fmt.Sprintf("c%d Stop", i))
				} else {
					e := randEvents(r) | notify.Remove
					var err error
					c.API(cs, "Watch", func() { err = notify.Watch(root+"/...", chans[i], e) })
					must(err)
					m.ch[i].add(root, true, e)
					log = append(log, fmt.Sprintf("c%d watches ~/... %s", i, evString(e)))
				}
				if r.Intn(2) == 0 {
					goto look
				}
			}
			continue
		}
		// What is delivered.
		var evs []obs.KEvent
		for _, d := range dirs {
			f := fmt.Sprintf("probe%d", round)
			writeFile(d+"/"+f, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "x")
			must(os.Remove(d + "/" + f))
			for _, k := range []uint32{unix.IN_CREATE, unix.IN_MODIFY, unix.IN_DELETE} {
				evs = append(evs, obs.KEvent{Watch: d, Name: f, Mask: k, SelfD: true})
			}
		}
		if !c.Settle(cs, log, nil) {
			return
		}
		for ci, ch := range chans {
			exp := map[key]*bound{}
			var last obs.KEvent
			for _, ev := range evs {
				m.expect(ci, ev, func(string, bool) bool { return true }, exp, &last)
			}
			got := map[key]int{}
			for _, ei := range drain(ch) {
				got[key{ei.Event(), ei.Path()}]++
			}
			for k, b := range exp {
				if b.min > 0 {
					musts++
				}
				if got[k] < b.min || got[k] > b.max {
					bad("LOST", "c%d %s %q: got %d want %d to %d", ci, evString(k.E), k.P, got[k], b.min, b.max)
					return
				}
			}
			for k, n := range got {
				if exp[k] == nil && strings.Contains(k.P, "probe") {
					bad("SPURIOUS", "c%d %s %q x%d", ci, evString(k.E), k.P, n)
					return
				}
			}
		}
	}
	for _, ch := range chans {
		c.API(cs, "Stop", func() { notify.Stop(ch) })
	}
	if c.Settle(cs, log, nil) {
		if ws := obs.KernelWatches(); len(ws) > 0 {
			c.Violate("LEAK", cs, fmt.Sprintf("after Stop: %+v", ws), log)
		}
	}
	c.Count("obligations checked", musts)
	if musts > 0 && c.Nontrivial(strings.Join(sorted(shape), ";")+strings.Join(log, ";")) {
		c.Sample(map[string]any{"case": cs, "log": log})
	}
}

func init() {
	props["churn"] = func(c *obs.Ctx) {
		c.Cases(c.N(3000, 60000), func(cs int64) { churnCase(c, cs, false) })
	}
	// The same, with an eye on the kernel only.
	props["churn-kernel"] = func(c *obs.Ctx) {
		c.Cases(c.N(3000, 60000), func(cs int64) { churnCase(c, cs, true) })
	}
}

func churnOps(r *rand.Rand) int {
	if s := os.Getenv("CHURN"); s != "" {
		return int(s[r.Intn(len(s))] - '0')
	}
	return r.Intn(8)
}
