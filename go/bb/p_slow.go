package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// slowCase: channels nobody reads, of all sizes, next to twins with the same
// registrations and room for everything.
func slowCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "w")
	must(err)
	defer os.RemoveAll(root)
	dirs, _ := layout(root)
	type pair struct {
		tiny, twin chan notify.EventInfo
	}
	npair := 1 + r.Intn(3)
	m := newModel(npair)
	var pairs []pair
	var log []string
	api := func(name string, fn func()) { c.API(cs, name, fn) }
	for i := 0; i < npair; i++ {
		k := []int{0, 0, 1, 2, 5, 64, 127, 128, 129, 500}[r.Intn(10)]
		p := pair{make(chan notify.EventInfo, k), make(chan notify.EventInfo, 1<<15)}
		pairs = append(pairs, p)
		for n := 1 + r.Intn(3); n > 0; n-- {
			d, isrec, e := dirs[r.Intn(len(dirs))], r.Intn(3) > 0, randEventsRaw(r)
			arg := d
			if isrec {
				arg += "/..."
			}
			order := []chan notify.EventInfo{p.tiny, p.twin}
			if r.Intn(2) == 0 {
				order[0], order[1] = order[1], order[0]
			}
			for _, ch := range order {
				var err error
				api("Watch", func() { err = notify.Watch(arg, ch, e) })
				if err != nil {
					c.Inconclusive = append(c.Inconclusive, fmt.Sprintf("Watch(%q)=%v", arg, err))
					return
				}
			}
			m.ch[i].add(d, isrec, e)
			log = append(log, fmt.Sprintf("pair %d (capacity %d) watches %q %s", i, k, arg, evString(e)))
		}
	}
	if !c.Settle(cs, log, nil) {
		return
	}
	// The first event of a burst may be one too many already.
	sizes := []int{0, 1, 3, 20, 130, 300, 600}
	nontriv := 0
	for round := 0; round < 3; round++ {
		var free []int
		for _, p := range pairs {
			// Room is made for some of what follows.
			for n := r.Intn(cap(p.tiny) + 1); n > 0 && len(p.tiny) > 0; n-- {
				<-p.tiny
			}
			free = append(free, cap(p.tiny)-len(p.tiny))
		}
		var scribes []*scribe
		var wg sync.WaitGroup
		n := sizes[r.Intn(len(sizes))]
		withDirs := r.Intn(2) == 0
		for i := 0; i < 1+r.Intn(3); i++ {
			s := newScribe(fmt.Sprintf("s%d.%d", round, i), cs+int64(round*10+i))
			scribes = append(scribes, s)
			wg.Add(1)
			go func() { defer wg.Done(); s.some(n, dirs, withDirs) }()
		}
		wg.Wait()
		log = append(log, fmt.Sprintf("round %d: %d changes by each of %d mutators, free %v", round, n, len(scribes), free))
		if !c.Settle(cs, log, nil) {
			return
		}
		for i, p := range pairs {
			got := drain(p.twin)
			bad, musts := tally(m, i, got, scribes...)
			c.Count("obligations checked", musts)
			if len(bad) > 0 {
				c.Violate(bad[0].Class, cs, fmt.Sprintf("the reader next to channels nobody reads: %s (and %d more)", bad[0].What, len(bad)-1), append(log, regLog(m.ch[i])...))
				return
			}
			want := min(free[i], len(got))
			if have := len(p.tiny) - (cap(p.tiny) - free[i]); have != want {
				c.Violate("DROPPED", cs, fmt.Sprintf("pair %d: channel with room for %d events took %d of %d", i, free[i], have, len(got)), append(log, regLog(m.ch[i])...))
				return
			}
			if len(got) > free[i] {
				c.Count("rounds with a full channel", 1)
				c.Count("values dropped", len(got)-free[i])
				nontriv++
			}
		}
	}
	for _, p := range pairs {
		for _, ch := range []chan notify.EventInfo{p.tiny, p.twin} {
			ch := ch
			api("Stop", func() { notify.Stop(ch) })
		}
	}
	if nontriv > 0 && c.Nontrivial(strings.ReplaceAll(strings.Join(log, ";"), root, "")) {
		c.Sample(map[string]any{"case": cs, "log": log})
	}
}

// jamCase: the only channels are full ones, changes never end, and still API
// calls come back, and once everything is quiet a new channel gets its events.
func jamCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "w")
	must(err)
	defer os.RemoveAll(root)
	dirs, files := layout(root)
	var jam []chan notify.EventInfo
	for i := 0; i < 1+r.Intn(4); i++ {
		ch := make(chan notify.EventInfo, r.Intn(3))
		jam = append(jam, ch)
		c.API(cs, "Watch", func() { must(notify.Watch(root+"/...", ch, notify.All)) })
	}
	ch := &churn{dirs: dirs, files: files}
	ch.start(1+r.Intn(2), cs, 0)
	var quit atomic.Bool
	var wg sync.WaitGroup
	if r.Intn(2) == 0 {
		// Directories, which make the library work for itself.
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; !quit.Load(); i++ {
				p := fmt.Sprintf("%s/jd%d", dirs[i%len(dirs)], i)
				unix.Mkdir(p, 0755)
				if i%3 > 0 {
					unix.Rmdir(p)
				}
			}
		}()
	}
	calls := 12
	for i := 0; i < calls; i++ {
		x := make(chan notify.EventInfo, r.Intn(2))
		d := dirs[r.Intn(len(dirs))]
		c.API(cs, "Watch while channels are jammed", func() { notify.Watch(d, x, randEvents(r)) })
		c.API(cs, "Stop while channels are jammed", func() { notify.Stop(x) })
	}
	quit.Store(true)
	ch.stop()
	wg.Wait()
	if !c.Settle(cs, nil, nil) {
		return
	}
	m := newModel(1)
	fresh := make(chan notify.EventInfo, 4096)
	c.API(cs, "Watch", func() { must(notify.Watch(root+"/...", fresh, notify.All)) })
	m.ch[0].add(root, true, notify.All)
	s := newScribe("late", cs)
	s.some(200, dirs, true)
	ok := c.Settle(cs, nil, nil)
	if ok {
		bad, n := tally(m, 0, drain(fresh), s)
		c.Count("obligations checked", n)
		if len(bad) > 0 {
			c.Violate(bad[0].Class, cs, "after a jam: "+bad[0].What, nil)
		}
	}
	for _, j := range append(jam, fresh) {
		j := j
		c.API(cs, "Stop", func() { notify.Stop(j) })
	}
	c.Count("changes while channels were jammed", int(ch.ops.Load()))
	c.Count("calls while channels were jammed", 2*calls)
	if c.Nontrivial(fmt.Sprint("jam", cs)) {
		c.Sample(map[string]any{"case": cs, "full channels": len(jam), "changes": ch.ops.Load(), "calls": 2 * calls})
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func init() {
	props["slow"] = func(c *obs.Ctx) {
		c.Cases(c.N(1600, 20000), func(cs int64) {
			if cs%10 == 0 {
				jamCase(c, cs)
			} else {
				slowCase(c, cs)
			}
		})
	}
}
