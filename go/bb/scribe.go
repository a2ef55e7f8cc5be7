package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

// scribe makes changes under names never used before and keeps a list of what
// the kernel reports for each, as an oracle where no witness can follow.
type scribe struct {
	id  string
	r   *rand.Rand
	seq int
	log []obs.KEvent
	may []obs.KEvent // reported if the object itself happens to be watched
	ops atomic.Int64
	pad int // names are padded up to that length at random

	pool int // how many names are used again and again, if any
	live map[string]bool
	both map[string]int // 1: has been a file, 2: a directory, 3: both

	files, made []string // still there
}

func newScribe(id string, seed int64) *scribe {
	return &scribe{id: id, r: rand.New(rand.NewSource(seed)), live: map[string]bool{}, both: map[string]int{}}
}

func (s *scribe) name(dir string) (n string) {
	if s.pool > 0 && s.r.Intn(8) != 0 {
		n = fmt.Sprintf("%s-again%d", s.id, s.r.Intn(s.pool))
		if !s.live[dir+"/"+n] {
			s.live[dir+"/"+n] = true
			return n
		}
	}
	s.seq++
	n = fmt.Sprintf("%s-%d", s.id, s.seq)
	if s.pad > 0 {
		if k := s.r.Intn(s.pad + 1); k > len(n) {
			n += strings.Repeat("x", k-len(n))
		}
	}
	return n
}

func (s *scribe) ev(dir, name string, mask uint32, isdir bool, cookie uint32) {
	s.log = append(s.log, obs.KEvent{Watch: dir, Name: name, Mask: mask, Dir: isdir, SelfD: true, Cookie: cookie})
	s.ops.Add(1)
}

func (s *scribe) create(dir string) string {
	n := s.name(dir)
	s.both[dir+"/"+n] |= 1
	fd, err := unix.Open(dir+"/"+n, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY|unix.O_CLOEXEC, 0644)
	must(err)
	s.ev(dir, n, unix.IN_CREATE, false, 0)
	s.ev(dir, n, unix.IN_OPEN, false, 0)
	must(unix.Close(fd))
	s.ev(dir, n, unix.IN_CLOSE_WRITE, false, 0)
	return dir + "/" + n
}

func (s *scribe) write(p string) {
	dir, n := filepath.Dir(p), filepath.Base(p)
	fd, err := unix.Open(p, unix.O_WRONLY|unix.O_APPEND|unix.O_CLOEXEC, 0)
	must(err)
	s.ev(dir, n, unix.IN_OPEN, false, 0)
	_, err = unix.Write(fd, []byte("x"))
	must(err)
	s.ev(dir, n, unix.IN_MODIFY, false, 0)
	must(unix.Close(fd))
	s.ev(dir, n, unix.IN_CLOSE_WRITE, false, 0)
}

func (s *scribe) chmod(p string) {
	must(unix.Chmod(p, 0600))
	s.ev(filepath.Dir(p), filepath.Base(p), unix.IN_ATTRIB, false, 0)
}

func (s *scribe) remove(p string) {
	must(unix.Unlink(p))
	delete(s.live, p)
	s.ev(filepath.Dir(p), filepath.Base(p), unix.IN_DELETE, false, 0)
}

func (s *scribe) rename(p, dir string) string {
	q := dir + "/" + s.name(dir)
	s.both[q] |= 1
	must(unix.Rename(p, q))
	delete(s.live, p)
	s.ev(filepath.Dir(p), filepath.Base(p), unix.IN_MOVED_FROM, false, 0)
	s.ev(dir, filepath.Base(q), unix.IN_MOVED_TO, false, 0)
	return q
}

func (s *scribe) mkdir(dir string) string {
	n := s.name(dir)
	s.both[dir+"/"+n] |= 2
	must(unix.Mkdir(dir+"/"+n, 0755))
	s.ev(dir, n, unix.IN_CREATE, true, 0)
	return dir + "/" + n
}

func (s *scribe) rmdir(p string) {
	must(unix.Rmdir(p))
	delete(s.live, p)
	s.ev(filepath.Dir(p), filepath.Base(p), unix.IN_DELETE, true, 0)
	for _, m := range []uint32{unix.IN_DELETE_SELF, unix.IN_ATTRIB} {
		s.may = append(s.may, obs.KEvent{Watch: p, Mask: m, Dir: true, SelfD: true})
	}
}

// some runs n random changes over directories dirs.
func (s *scribe) some(n int, dirs []string, withDirs bool) {
	files, made := s.files, s.made
	defer func() { s.files, s.made = files, made }()
	take := func(l *[]string) string {
		i := s.r.Intn(len(*l))
		x := (*l)[i]
		(*l)[i] = (*l)[len(*l)-1]
		*l = (*l)[:len(*l)-1]
		return x
	}
	for i := 0; i < n; i++ {
		d := dirs[s.r.Intn(len(dirs))]
		switch k := s.r.Intn(10); {
		case k < 3 || len(files) == 0:
			files = append(files, s.create(d))
		case k < 5:
			s.write(files[s.r.Intn(len(files))])
		case k < 6:
			s.chmod(files[s.r.Intn(len(files))])
		case k < 7:
			files = append(files, s.rename(take(&files), d))
		case k < 8 && withDirs:
			made = append(made, s.mkdir(d))
		case k < 9 && len(made) > 0:
			s.rmdir(take(&made))
		default:
			s.remove(take(&files))
		}
	}
}

// tally compares what a channel has received with what the scribes did. Only
// names made by scribes are looked at in detail; others only need to be asked for.
func tally(m *model, ci int, got []notify.EventInfo, scribes ...*scribe) (bad []finding, musts int) {
	exp := map[key]*bound{}
	yes := func(string, bool) bool { return true }
	for _, s := range scribes {
		var last obs.KEvent
		for _, ev := range s.log {
			m.expect(ci, ev, yes, exp, &last)
		}
		// A file may be watched for a moment if it takes the place of a
		// directory just when that one is about to be watched.
		for k, b := range exp {
			if s.both[k.P] == 3 {
				b.max *= 2
			}
		}
		opt := map[key]*bound{}
		for _, ev := range s.may {
			m.expect(ci, ev, yes, opt, nil)
		}
		for k, b := range opt {
			if exp[k] == nil {
				exp[k] = &bound{}
			}
			exp[k].max += b.max
		}
	}
	mine := func(p string) bool {
		b := filepath.Base(p)
		for _, s := range scribes {
			if strings.HasPrefix(b, s.id+"-") {
				return true
			}
		}
		return false
	}
	have := map[key]int{}
	for _, ei := range got {
		k := key{ei.Event(), ei.Path()}
		if noise(ei) {
			continue
		}
		if mine(k.P) {
			have[k]++
		} else if !m.wants(ci, k) {
			bad = append(bad, finding{"SPURIOUS", fmt.Sprintf("c%d got %s %q, which it has not asked for", ci, evString(k.E), k.P), ci})
		}
	}
	for k, b := range exp {
		if b.min > 0 {
			musts++
		}
		if n := have[k]; n < b.min {
			bad = append(bad, finding{"LOST", fmt.Sprintf("c%d %s %q: got %d want >=%d", ci, evString(k.E), k.P, n, b.min), ci})
		} else if n > b.max {
			bad = append(bad, finding{"DUP", fmt.Sprintf("c%d %s %q: got %d want <=%d", ci, evString(k.E), k.P, n, b.max), ci})
		}
	}
	for k, n := range have {
		if exp[k] == nil {
			bad = append(bad, finding{"SPURIOUS", fmt.Sprintf("c%d %s %q x%d", ci, evString(k.E), k.P, n), ci})
		}
	}
	sort.Slice(bad, func(i, j int) bool { return bad[i].What < bad[j].What })
	return
}

// regLog describes the registrations of a channel.
func regLog(c *chanModel) (s []string) {
	for d, r := range c.regs {
		s = append(s, fmt.Sprintf("%q: %s, recursively %s", d, evString(r.non), evString(r.rec)))
	}
	sort.Strings(s)
	return
}
