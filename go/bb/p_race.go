package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// wild makes random changes to a tree, with no regard to what fails.
func wild(r *rand.Rand, root string, quit *atomic.Bool, ops *atomic.Int64, limit int) {
	names := []string{"a", "b", "c", "ab"}
	path := func() string {
		p := root
		for i := r.Intn(4); i >= 0; i-- {
			p += "/" + names[r.Intn(len(names))]
		}
		return p
	}
	for n := 0; !quit.Load() && n < limit; n++ {
		p := path()
		switch r.Intn(10) {
		case 0, 1, 2:
			os.MkdirAll(p, 0755)
		case 3:
			os.RemoveAll(p)
		case 4:
			unix.Rmdir(p)
		case 5, 6:
			unix.Rename(p, path())
		case 7:
			os.Symlink(path(), p)
		default:
			if fd, err := unix.Open(p, unix.O_CREAT|unix.O_WRONLY|unix.O_CLOEXEC, 0644); err == nil {
				unix.Write(fd, []byte("x"))
				unix.Close(fd)
			}
		}
		ops.Add(1)
		if r.Intn(16) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
}

// raceCase: everything at once. The tree is torn down while it is watched, so
// errors of Watch are fine; races, crashes and deadlocks are not.
func raceCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "x")
	must(err)
	defer os.RemoveAll(root)
	dirs, files := layout(root)
	var quit atomic.Bool
	var ops, calls, errs, values atomic.Int64
	var api, rest sync.WaitGroup
	// Channels some of which are shared by several goroutines.
	shared := []chan notify.EventInfo{make(chan notify.EventInfo, 16), make(chan notify.EventInfo, 1), make(chan notify.EventInfo)}
	for _, ch := range shared[:2] {
		rest.Add(1)
		go func() {
			defer rest.Done()
			for !quit.Load() {
				select {
				case ei := <-ch:
					values.Add(1)
					_ = fmt.Sprint(ei)
					_ = ei.Event().String() + ei.Path()
					s := ei.Sys().(*unix.InotifyEvent)
					_ = s.Mask + s.Cookie
				case <-time.After(time.Millisecond):
				}
			}
		}()
	}
	nw := 1 + r.Intn(3)
	wildDir := root
	for i := 0; i < nw; i++ {
		rest.Add(1)
		go func(r *rand.Rand) {
			defer rest.Done()
			wild(r, wildDir, &quit, &ops, 4000)
		}(rand.New(rand.NewSource(cs + int64(i)*31)))
	}
	na := 2 + r.Intn(6)
	rounds := 25
	for i := 0; i < na; i++ {
		api.Add(1)
		go func(r *rand.Rand) {
			defer api.Done()
			for k := 0; k < rounds; k++ {
				var ch chan notify.EventInfo
				own := r.Intn(2) == 0
				if own {
					ch = make(chan notify.EventInfo, r.Intn(8))
				} else {
					ch = shared[r.Intn(len(shared))]
				}
				for n := r.Intn(4); n >= 0; n-- {
					p := dirs[r.Intn(len(dirs))]
					switch r.Intn(6) {
					case 0:
						p = files[r.Intn(len(files))]
					case 1, 2, 3:
						p += "/..."
					case 4:
						p += "/" + []string{"a", "b", "c", "ab"}[r.Intn(4)]
					}
					if notify.Watch(p, ch, randEventsRaw(r)) != nil {
						errs.Add(1)
					}
					calls.Add(1)
				}
				switch r.Intn(3) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
				}
				if own || r.Intn(3) == 0 {
					notify.Stop(ch)
					calls.Add(1)
					if own {
						close(ch)
					}
				}
			}
		}(rand.New(rand.NewSource(cs ^ int64(i+1)*6151)))
	}
	c.API(cs, "concurrent Watch and Stop", api.Wait)
	quit.Store(true)
	rest.Wait()
	for _, ch := range shared {
		c.API(cs, "Stop", func() { notify.Stop(ch) })
	}
	log := []string{fmt.Sprintf("%d API goroutines, %d mutators", na, nw)}
	if c.Settle(cs, log, nil) {
		if left := obs.KernelWatches(); len(left) > 0 {
			paths := map[uint64]string{}
			filepath.Walk(root, func(p string, _ os.FileInfo, err error) error {
				if err == nil {
					ino, _ := obs.Ino(p)
					paths[ino] = p
				}
				return nil
			})
			c.Count("kernel watches left at rest", len(left))
			c.Count("cases with kernel watches left at rest", 1)
			c.Violate("LEAK", cs, fmt.Sprintf("every channel stopped, %d kernel watches left, first on %q (%s)", len(left), paths[left[0].Ino], obs.MaskString(left[0].Mask)), log)
		}
	}
	c.Count("API calls", int(calls.Load()))
	c.Count("API calls that failed", int(errs.Load()))
	c.Count("changes", int(ops.Load()))
	c.Count("values read", int(values.Load()))
	if calls.Load() > 0 && ops.Load() > 0 && values.Load() > 0 && c.Nontrivial(fmt.Sprint(cs)) {
		c.Sample(map[string]any{"case": cs, "API goroutines": na, "mutators": nw, "API calls": calls.Load(), "failed": errs.Load(), "changes": ops.Load(), "values read": values.Load()})
	}
}

func init() {
	props["race"] = func(c *obs.Ctx) {
		c.Cases(c.N(480, 20000), func(cs int64) { raceCase(c, cs) })
	}
}
