package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// maxQueued is how many events the kernel keeps for one inotify instance.
func maxQueued() int {
	b, err := os.ReadFile("/proc/sys/fs/inotify/max_queued_events")
	if err != nil {
		return 16384
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil || n <= 0 {
		return 16384
	}
	return n
}

// stall keeps the library from running: it holds the processors with busy
// goroutines, or takes its turn on the scheduler away in short intervals.
func stall(r *rand.Rand, quit chan struct{}) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := 0
			for {
				select {
				case <-quit:
					return
				default:
				}
				for k := 0; k < 200000; k++ {
					x += k
				}
			}
		}()
	}
	wg.Wait()
}

func burstCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "u")
	must(err)
	defer os.RemoveAll(root)
	dirs, _ := layout(root)
	nch := 1 + r.Intn(3)
	m := newModel(nch)
	m.together = true
	var chans []chan notify.EventInfo
	var log []string
	for i := 0; i < nch; i++ {
		chans = append(chans, make(chan notify.EventInfo, 1<<16))
		for n := 1 + r.Intn(2); n > 0; n-- {
			d, isrec, e := dirs[r.Intn(len(dirs))], r.Intn(3) > 0, randEventsRaw(r)
			if i == 0 {
				d, isrec = root, true
			}
			arg := d
			if isrec {
				arg += "/..."
			}
			var err error
			c.API(cs, "Watch", func() { err = notify.Watch(arg, chans[i], e) })
			if err != nil {
				c.Inconclusive = append(c.Inconclusive, fmt.Sprintf("Watch(%q)=%v", arg, err))
				return
			}
			m.ch[i].add(d, isrec, e)
			log = append(log, fmt.Sprintf("c%d watches %q %s", i, arg, evString(e)))
		}
	}
	if !c.Settle(cs, log, nil) {
		return
	}
	nm := 1 + r.Intn(4)
	size := []int{200, 700, 2000, 3500}[r.Intn(4)]
	pad := []int{0, 0, 40, 255, 255}[r.Intn(5)]
	busy := r.Intn(2) == 0
	withDirs := r.Intn(3) == 0
	pool := []int{0, 1, 3, 10}[r.Intn(4)]
	var quit = make(chan struct{})
	var bg, wg sync.WaitGroup
	if busy {
		bg.Add(1)
		go func() { defer bg.Done(); stall(r, quit) }()
	}
	var scribes []*scribe
	for i := 0; i < nm; i++ {
		s := newScribe(fmt.Sprintf("b%d", i), cs+int64(i))
		s.pad, s.pool = pad, pool
		scribes = append(scribes, s)
		wg.Add(1)
		go func() { defer wg.Done(); s.some(size/nm, dirs, withDirs) }()
	}
	wg.Wait()
	close(quit)
	bg.Wait()
	log = append(log, fmt.Sprintf("%d changes by %d mutators, names up to %d bytes, %d of them used again, processors busy %v", size, nm, pad, pool, busy))
	if !c.Settle(cs, log, nil) {
		return
	}
	total, musts := 0, 0
	for i := range chans {
		got := drain(chans[i])
		bad, n := tally(m, i, got, scribes...)
		total += len(got)
		musts += n
		if len(bad) > 0 {
			c.Violate(bad[0].Class, cs, fmt.Sprintf("%s (and %d more)", bad[0].What, len(bad)-1), append(log, regLog(m.ch[i])...))
			break
		}
	}
	for _, ch := range chans {
		ch := ch
		c.API(cs, "Stop", func() { notify.Stop(ch) })
	}
	c.Settle(cs, log, nil)
	c.Count("obligations checked", musts)
	c.Count("values delivered", total)
	if musts > 128 && c.Nontrivial(strings.ReplaceAll(strings.Join(log, ";"), root, "")) {
		c.Sample(map[string]any{"case": cs, "log": log, "events that had to be delivered": musts})
	}
}

// frozenCase: the process is stopped as a whole while another one makes
// changes, so that they pile up in the kernel, up to the limit of the queue
// and beyond.
func frozenCase(c *obs.Ctx, cs int64, over bool) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "z")
	must(err)
	defer os.RemoveAll(root)
	max := maxQueued()
	n := max/2 + r.Intn(max/3)
	if over {
		n = max + 1 + r.Intn(max/4)
	}
	if max > 1<<17 {
		n = 1 << 16
		over = false
	}
	ch := make(chan notify.EventInfo, 2*max+1000)
	isrec := r.Intn(2) == 0
	arg := root
	if isrec {
		arg += "/..."
	}
	e := notify.Create
	if !over && r.Intn(2) == 0 {
		e = notify.InCreate
	}
	c.API(cs, "Watch", func() { must(notify.Watch(arg, ch, e)) })
	m := newModel(1)
	m.ch[0].add(root, isrec, e)
	if !c.Settle(cs, nil, nil) {
		return
	}
	long := r.Intn(2) == 0
	log := []string{fmt.Sprintf("watch %q %s", arg, evString(e)), fmt.Sprintf("%d files created while the process is stopped, long names %v", n, long)}
	name := func(i int) string {
		s := fmt.Sprintf("z-%d", i)
		if long {
			s += strings.Repeat("y", 250-len(s)-i%17)
		}
		return s
	}
	ran, err := frozen(root, n, long)
	if err != nil {
		c.Inconclusive = append(c.Inconclusive, "cannot stop the process: "+err.Error())
		notify.Stop(ch)
		return
	}
	// More of them while what has piled up is being read. There is room for them
	// again, and they are in the queue behind the note about those that are lost.
	late := 0
	if over && r.Intn(4) > 0 {
		size, left := 32, 2+r.Intn(6)
		if long {
			size = 256
		}
		for t := time.Now(); time.Since(t) < 10*time.Second; {
			q := obs.Pending() / size
			if q == 0 {
				break
			}
			if q > max*left/8 {
				continue
			}
			for ; late < 100; late++ {
				writeFile(fmt.Sprintf("%s/late-%d", root, late), unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY, "")
			}
			log = append(log, fmt.Sprintf("%d more as soon as the queue is %d/8 full", late, left))
			c.Count("late ones behind an overflow", late)
			break
		}
	}
	if !c.Settle(cs, log, nil) {
		return
	}
	got := drain(ch)
	have := map[string]int{}
	for _, ei := range got {
		have[ei.Path()]++
		if ei.Event() != e {
			c.Violate("SPURIOUS", cs, fmt.Sprintf("%v delivered, %s requested", ei, evString(e)), log)
			return
		}
	}
	lost := 0
	first := -1
	for i := 0; i < n; i++ {
		p := root + "/" + name(i)
		k := have[p]
		delete(have, p)
		if k == 0 {
			lost++
			if first < 0 {
				first = i
			}
		}
		if k > 1 {
			c.Violate("DUP", cs, fmt.Sprintf("%q delivered %d times", p, k), log)
			return
		}
	}
	for i := 0; i < late; i++ {
		p := fmt.Sprintf("%s/late-%d", root, i)
		if have[p] != 1 {
			c.Violate("LOST", cs, fmt.Sprintf("%q delivered %d times, it was created when there was room in the queue", p, have[p]), log)
			return
		}
		delete(have, p)
	}
	for p := range have {
		c.Violate("SPURIOUS", cs, fmt.Sprintf("%q delivered, never created", p), log)
		return
	}
	// The kernel keeps the first max-1 events at the least.
	if first >= 0 && first < max-1 {
		c.Violate("LOST", cs, fmt.Sprintf("file #%d of %d lost (%d in total), the kernel queue holds %d events", first, n, lost, max), log)
		return
	}
	c.Count("values delivered", len(got))
	c.Count("events piled up in the kernel", n)
	c.Count("events lost by the kernel", lost)
	if over && lost > 0 {
		c.Count("queue overflows", 1)
	}
	_ = ran
	// Everything that follows is delivered again.
	s := newScribe("after", cs)
	s.some(300, []string{root}, false)
	if !c.Settle(cs, log, nil) {
		return
	}
	bad, k := tally(m, 0, drain(ch), s)
	if len(bad) > 0 {
		c.Violate(bad[0].Class, cs, "after the queue was full: "+bad[0].What, log)
	}
	c.Count("obligations checked", k+n-lost)
	c.API(cs, "Stop", func() { notify.Stop(ch) })
	c.Settle(cs, log, nil)
	if c.Nontrivial(strings.ReplaceAll(strings.Join(log, ";"), root, "")) {
		c.Sample(map[string]any{"case": cs, "log": log, "lost by the kernel": lost})
	}
}

// frozen has a child stop this process, create the files, and let it go on.
func frozen(dir string, n int, long bool) (time.Duration, error) {
	t := time.Now()
	self, err := os.Executable()
	if err != nil {
		return 0, err
	}
	p, err := os.StartProcess(self, []string{self, "-helper", fmt.Sprintf("%d,%s,%d,%v", os.Getpid(), dir, n, long)},
		&os.ProcAttr{Env: append(os.Environ(), "GODEBUG="), Files: []*os.File{nil, nil, os.Stderr}})
	if err != nil {
		return 0, err
	}
	st, err := p.Wait()
	if err != nil {
		return 0, err
	}
	if !st.Success() {
		return 0, fmt.Errorf("helper: %v", st)
	}
	return time.Since(t), nil
}

// helper is what the child runs.
func helper(arg string) {
	f := strings.Split(arg, ",")
	pid, _ := strconv.Atoi(f[0])
	if pid != os.Getppid() {
		os.Exit(3)
	}
	dir := f[1]
	n, _ := strconv.Atoi(f[2])
	long := f[3] == "true"
	must(unix.Kill(pid, unix.SIGSTOP))
	defer unix.Kill(pid, unix.SIGCONT)
	// Wait until it is.
	for i := 0; i < 2000; i++ {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if s := string(b); strings.Contains(s, ") T ") {
			break
		}
		time.Sleep(time.Millisecond)
	}
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("z-%d", i)
		if long {
			s += strings.Repeat("y", 250-len(s)-i%17)
		}
		fd, err := unix.Open(dir+"/"+s, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY|unix.O_CLOEXEC, 0644)
		if err != nil {
			unix.Kill(pid, unix.SIGCONT)
			os.Exit(4)
		}
		unix.Close(fd)
	}
}

func init() {
	props["burst"] = func(c *obs.Ctx) {
		c.Cases(c.N(560, 8000), func(cs int64) { burstCase(c, cs) })
	}
	props["frozen"] = func(c *obs.Ctx) {
		c.Cases(c.N(24, 400), func(cs int64) { frozenCase(c, cs, cs%2 == 0) })
	}
}
