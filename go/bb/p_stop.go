package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// churn keeps producing events on a fixed set of directories and files until
// it is told to stop; every operation is on the mutator's own files, but the
// common ones, which are only written to.
type churn struct {
	dirs, files []string
	quit        atomic.Bool
	ops         atomic.Int64
	wg          sync.WaitGroup
}

func (ch *churn) start(n int, seed int64, pause time.Duration) {
	for i := 0; i < n; i++ {
		ch.wg.Add(1)
		go func(i int) {
			defer ch.wg.Done()
			r := rand.New(rand.NewSource(seed*31 + int64(i)))
			for n := 0; !ch.quit.Load(); n++ {
				d := ch.dirs[r.Intn(len(ch.dirs))]
				p := fmt.Sprintf("%s/m%d-%d", d, i, n%7)
				switch r.Intn(5) {
				case 0, 1:
					if fd, err := unix.Open(p, unix.O_CREAT|unix.O_WRONLY|unix.O_CLOEXEC, 0644); err == nil {
						unix.Write(fd, []byte("x"))
						unix.Close(fd)
					}
					unix.Unlink(p)
				case 2:
					if fd, err := unix.Open(p, unix.O_CREAT|unix.O_WRONLY|unix.O_CLOEXEC, 0644); err == nil {
						unix.Close(fd)
					}
					q := fmt.Sprintf("%s/r%d-%d", ch.dirs[r.Intn(len(ch.dirs))], i, n%7)
					unix.Rename(p, q)
					unix.Unlink(q)
				default:
					f := ch.files[r.Intn(len(ch.files))]
					if fd, err := unix.Open(f, unix.O_WRONLY|unix.O_APPEND|unix.O_CLOEXEC, 0); err == nil {
						unix.Write(fd, []byte("x"))
						unix.Close(fd)
					}
				}
				ch.ops.Add(1)
				if pause > 0 {
					time.Sleep(pause)
				} else if n%8 == 0 {
					runtime.Gosched()
				}
			}
		}(i)
	}
}

func (ch *churn) stop() { ch.quit.Store(true); ch.wg.Wait() }

// layout makes a small fixed tree: directories nested three deep with a file in each.
func layout(root string) (dirs, files []string) {
	for _, d := range []string{"", "a", "a/b", "a/b/c", "ab", "d", "d/e"} {
		p := filepath.Join(root, d)
		must(os.MkdirAll(p, 0755))
		dirs = append(dirs, p)
	}
	for _, d := range dirs {
		f := d + "/common"
		writeFile(f, unix.O_CREAT|unix.O_WRONLY, "")
		files = append(files, f)
	}
	return
}

var genericEvents = []notify.Event{notify.Create, notify.Remove, notify.Write, notify.Rename}

func randEvents(r *rand.Rand) notify.Event {
	var e notify.Event
	for e == 0 {
		for _, x := range genericEvents {
			if r.Intn(2) == 0 {
				e |= x
			}
		}
	}
	return e
}

type stopped struct {
	c    chan notify.EventInfo
	n    int
	desc string
}

// stopCase: channels come and go while events pour in.
func stopCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "s")
	must(err)
	defer os.RemoveAll(root)
	dirs, files := layout(root)
	ch := &churn{dirs: dirs, files: files}
	ch.start(2+r.Intn(3), cs, 0)
	var mu sync.Mutex
	var done []stopped
	rounds := 40
	ctl := 2 + r.Intn(5)
	var wg sync.WaitGroup
	var inflight, closed, drained atomic.Int64
	over := make(chan struct{}) // no event can come any more
	var lwg sync.WaitGroup
	for i := 0; i < ctl; i++ {
		wg.Add(1)
		go func(r *rand.Rand, i int) {
			defer wg.Done()
			var reuse chan notify.EventInfo
			for n := 0; n < rounds; n++ {
				eis := reuse
				small := eis == nil && r.Intn(3) == 0
				if small {
					eis = make(chan notify.EventInfo, r.Intn(4))
				} else if eis == nil {
					eis = make(chan notify.EventInfo, 4096)
				}
				reuse = nil
				desc := ""
				type rg struct {
					p   string
					rec bool
					e   notify.Event
				}
				var regs []rg
				for k := 1 + r.Intn(4); k > 0; k-- {
					g := rg{p: dirs[r.Intn(len(dirs))], rec: r.Intn(2) == 0, e: randEvents(r)}
					if !g.rec && r.Intn(3) == 0 {
						g.p = files[r.Intn(len(files))]
					}
					arg := g.p
					if g.rec {
						arg += "/..."
					}
					if err := notify.Watch(arg, eis, g.e); err != nil {
						// Names listed may be gone when they get looked at.
						continue
					}
					regs = append(regs, g)
					desc += fmt.Sprintf("%q %s; ", arg, evString(g.e))
				}
				switch r.Intn(3) {
				case 0:
				case 1:
					for k := r.Intn(300); k > 0; k-- {
						runtime.Gosched()
					}
				case 2:
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
				notify.Stop(eis)
				got := len(eis)
				if got > 0 {
					inflight.Add(1)
				}
				if small {
					// Full or not, it is emptied now, and somebody waits for more.
					for k := 0; k < got; k++ {
						<-eis
					}
					lwg.Add(1)
					drained.Add(1)
					go func() {
						defer lwg.Done()
						select {
						case ei := <-eis:
							mu.Lock()
							c.Violate("AFTERSTOP", cs, fmt.Sprintf("channel with %s and room for %d, %d of it taken, was emptied after Stop and then got %s %q", desc, cap(eis), got, evString(ei.Event()), ei.Path()), nil)
							mu.Unlock()
						case <-over:
						}
					}()
					continue
				}
				if got > cap(eis)-8 {
					continue
				}
				switch r.Intn(4) {
				case 0:
					// A send from now on takes the process down.
					close(eis)
					closed.Add(1)
				case 1:
					// To be used again, with nothing left of the former registrations.
					for len(eis) > 0 {
						<-eis
					}
					d := dirs[r.Intn(len(dirs))]
					e := randEvents(r)
					if err := notify.Watch(d, eis, e); err != nil {
						break
					}
					time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
					notify.Stop(eis)
					for len(eis) > 0 {
						ei := <-eis
						if ei.Event()&e == 0 || ei.Path() != d && filepath.Dir(ei.Path()) != d {
							mu.Lock()
							c.Violate("REVIVED", cs, fmt.Sprintf("channel stopped (had %s) and registered for %s on %q got %s %q", desc, evString(e), d, evString(ei.Event()), ei.Path()), nil)
							mu.Unlock()
						}
					}
					notify.Stop(eis) // stopping twice is fine
					reuse = eis
				default:
					mu.Lock()
					done = append(done, stopped{eis, got, desc})
					mu.Unlock()
				}
			}
		}(rand.New(rand.NewSource(cs^int64(i+1)*7919)), i)
	}
	c.API(cs, "concurrent Watch and Stop", func() { wg.Wait() })
	check := func(when string) bool {
		for _, s := range done {
			if n := len(s.c); n != s.n {
				var last notify.EventInfo
				for len(s.c) > 0 {
					last = <-s.c
				}
				c.Violate("AFTERSTOP", cs, fmt.Sprintf("%s: channel with %s held %d events when Stop returned and %d later, last %v", when, s.desc, s.n, n, last), nil)
				return false
			}
		}
		return true
	}
	ok := check("during churn")
	time.Sleep(3 * time.Millisecond)
	ch.stop()
	if c.Settle(cs, nil, nil) && ok {
		check("at rest")
	}
	close(over)
	lwg.Wait()
	never := make(chan notify.EventInfo)
	c.API(cs, "Stop of an unknown channel", func() { notify.Stop(never) })
	select {
	case _, open := <-never:
		if !open {
			c.Violate("CLOSED", cs, "Stop closed the channel", nil)
		} else {
			c.Violate("AFTERSTOP", cs, "value sent to a channel never registered", nil)
		}
	default:
	}
	c.Count("channels stopped", len(done)+int(closed.Load()))
	c.Count("channels stopped and emptied", int(drained.Load()))
	c.Count("stopped with events delivered before", int(inflight.Load()))
	c.Count("file system operations", int(ch.ops.Load()))
	c.Count("values held by stopped channels", func() (n int) {
		for _, s := range done {
			n += s.n
		}
		return
	}())
	if inflight.Load() > 0 && c.Nontrivial(fmt.Sprint(cs)) {
		c.Sample(map[string]any{"case": cs, "controllers": ctl, "channels stopped in full flow": inflight.Load(), "operations meanwhile": ch.ops.Load()})
	}
	c.Count("kernel watches left at rest", len(obs.KernelWatches()))
}

func init() {
	props["stop"] = func(c *obs.Ctx) {
		c.Cases(c.N(480, 10000), func(cs int64) { stopCase(c, cs) })
	}
	// Fewer under the race detector, which is slow.
	props["stop-race"] = func(c *obs.Ctx) {
		c.Cases(c.N(64, 2000), func(cs int64) { stopCase(c, cs) })
	}
}
