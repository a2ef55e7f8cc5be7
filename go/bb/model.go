package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

const rawAll = notify.Event(unix.IN_ALL_EVENTS)

// needMask is the kernel mask a user event set asks for.
func needMask(e notify.Event) uint32 {
	m := uint32(e & rawAll)
	if e&notify.Create != 0 {
		m |= unix.IN_CREATE | unix.IN_MOVED_TO
	}
	if e&notify.Remove != 0 {
		m |= unix.IN_DELETE | unix.IN_DELETE_SELF
	}
	if e&notify.Write != 0 {
		m |= unix.IN_MODIFY
	}
	if e&notify.Rename != 0 {
		m |= unix.IN_MOVED_FROM | unix.IN_MOVE_SELF
	}
	return m
}

// eventsOf returns the event values that describe a kernel event bit.
func eventsOf(bit uint32) []notify.Event {
	es := []notify.Event{notify.Event(bit)}
	switch bit {
	case unix.IN_CREATE, unix.IN_MOVED_TO:
		es = append(es, notify.Create)
	case unix.IN_DELETE, unix.IN_DELETE_SELF:
		es = append(es, notify.Remove)
	case unix.IN_MODIFY:
		es = append(es, notify.Write)
	case unix.IN_MOVED_FROM, unix.IN_MOVE_SELF:
		es = append(es, notify.Rename)
	}
	return es
}

func under(p, root string) bool { // strictly
	if root == "/" {
		return len(p) > 1
	}
	return len(p) > len(root) && p[:len(root)] == root && p[len(root)] == '/'
}

// reg is what a channel has asked for at one path.
type reg struct {
	non, rec notify.Event
}

type chanModel struct {
	regs map[string]*reg
}

func (c *chanModel) add(path string, rec bool, e notify.Event) {
	r := c.regs[path]
	if r == nil {
		r = &reg{}
		c.regs[path] = r
	}
	if rec {
		r.rec |= e
	} else {
		r.non |= e
	}
}

type model struct {
	ch       []*chanModel
	together bool // all channels are registered in this process
}

func newModel(n int) *model {
	m := &model{}
	for i := 0; i < n; i++ {
		m.ch = append(m.ch, &chanModel{regs: map[string]*reg{}})
	}
	return m
}

// need is the kernel mask required on the inode at p by live registrations and
// whether the inode has to be watched at all.
func (m *model) need(p string, isdir bool) (mask uint32, watched bool) {
	for _, c := range m.ch {
		for d, r := range c.regs {
			if d == p {
				if r.non != 0 {
					mask |= needMask(r.non)
					watched = true
				}
				if r.rec != 0 {
					mask |= needMask(r.rec)
					watched = true
				}
			} else if isdir && r.rec != 0 && under(p, d) {
				mask |= needMask(r.rec)
				watched = true
			}
		}
	}
	return
}

// recAbove tells whether a recursive registration covers the directory p.
func (m *model) recAbove(p string) bool {
	for _, c := range m.ch {
		for d, r := range c.regs {
			if r.rec != 0 && (d == p || under(p, d)) {
				return true
			}
		}
	}
	return false
}

type key struct {
	E notify.Event
	P string
}

type bound struct{ min, max int }

// expect adds to out what channel ci must and may receive for kernel event ev.
// alias lists other names the object may legitimately be reported under.
//
// The kernel merges an event with an identical one that is the last in the
// queue. last is the event before, of those that must have been queued; without it
// any number of events can be one.
func (m *model) expect(ci int, ev obs.KEvent, watched func(path string, dir bool) bool, out map[key]*bound, last *obs.KEvent, alias ...string) {
	c := m.ch[ci]
	if !watched(ev.Watch, ev.SelfD) {
		// The library holds no watch on that inode.
		return
	}
	p := ev.Path()
	fresh := false
	if last != nil && len(alias) == 0 {
		queued := m.queued(ci, ev)
		for i := 0; i < len(m.ch) && m.together; i++ {
			queued = queued || m.queued(i, ev)
		}
		k := ev
		k.Cookie = 0
		if queued && k != *last {
			fresh, *last = true, k
		}
	}
	for _, e := range eventsOf(ev.Mask) {
		must := c.asked(ev, e)
		for i, q := range append([]string{p}, alias...) {
			n := 0
			for d, r := range c.regs {
				set := r.non | r.rec
				if set&e == 0 {
					continue
				}
				switch {
				case q == d, filepath.Dir(q) == d, r.rec != 0 && under(q, d):
					n++
				}
			}
			if n == 0 {
				continue
			}
			k := key{e, q}
			b := out[k]
			if b == nil {
				b = &bound{}
				out[k] = b
			}
			b.max += n
			if must && i == 0 && len(alias) == 0 {
				// Removal is reported once, twice with luck.
				if fresh && ev.Name != "" {
					b.min++
				} else {
					b.min = max(b.min, 1)
				}
			}
		}
	}
}

// asked tells whether the library has to hold a watch for event e of ev for c.
func (c *chanModel) asked(ev obs.KEvent, e notify.Event) bool {
	for d, r := range c.regs {
		if ev.Watch == d && (r.non|r.rec)&e != 0 || r.rec&e != 0 && ev.SelfD && under(ev.Watch, d) {
			return true
		}
	}
	return false
}

// queued tells whether ev has to be reported to the library for channel ci.
func (m *model) queued(ci int, ev obs.KEvent) bool {
	for _, e := range eventsOf(ev.Mask) {
		if m.ch[ci].asked(ev, e) {
			return true
		}
	}
	return false
}

func evString(e notify.Event) string {
	s := strings.Split(e.String(), "|")
	sort.Strings(s)
	return strings.ReplaceAll(strings.Join(s, "|"), "notify.", "")
}

// wants tells whether channel ci has a registration event k is in scope of.
func (m *model) wants(ci int, k key) bool {
	for d, r := range m.ch[ci].regs {
		if (r.non|r.rec)&k.E == 0 {
			continue
		}
		if k.P == d || filepath.Dir(k.P) == d || r.rec != 0 && under(k.P, d) {
			return true
		}
	}
	return false
}

// sig describes how the registrations of all channels relate to path p.
func (m *model) sig(ci int, p string) string {
	var s []string
	for i, c := range m.ch {
		for d, r := range c.regs {
			rel := ""
			switch {
			case d == p:
				rel = "self"
			case filepath.Dir(p) == d:
				rel = "parent"
			case under(p, d):
				rel = "above"
			case under(d, p):
				rel = "below"
			default:
				continue
			}
			who := "other"
			if i == ci {
				who = "own"
			}
			s = append(s, fmt.Sprintf("%s:%s:%x:%x", who, rel, uint32(r.non), uint32(r.rec)))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// needMerged is need, where a channel registered both ways at a path has its
// whole set applied recursively (the library keeps one set per path and channel).
func (m *model) needMerged(p string, isdir bool) (mask uint32) {
	for _, c := range m.ch {
		for d, r := range c.regs {
			set := r.non | r.rec
			if d == p || isdir && r.rec != 0 && under(p, d) {
				mask |= needMask(set)
			}
		}
	}
	return
}
