package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	notify "github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
	"verif/obs"
)

var pathNames = []string{"a", "b", "ab", "a.b", "...x", "..y", "c d", "é", "\xff", "n\nl", ".h"}

// forest is a random tree full of symbolic links.
type forest struct {
	r     *rand.Rand
	root  string
	dirs  []string
	files []string
	links []string
	log   []string
}

func (f *forest) dir() string { return f.dirs[f.r.Intn(len(f.dirs))] }
func (f *forest) any() string {
	n := f.r.Intn(len(f.dirs) + len(f.files) + len(f.links))
	if n < len(f.dirs) {
		return f.dirs[n]
	}
	if n -= len(f.dirs); n < len(f.files) {
		return f.files[n]
	}
	return f.links[n-len(f.files)]
}

func (f *forest) unused() string {
	for {
		n := pathNames[f.r.Intn(len(pathNames))]
		if f.r.Intn(3) == 0 {
			n = fmt.Sprint(n, f.r.Intn(100))
		}
		if f.r.Intn(40) == 0 {
			n = strings.Repeat("L", 255)
		}
		p := f.dir() + "/" + n
		if _, err := os.Lstat(p); err != nil {
			return p
		}
	}
}

// dirty returns another spelling of a path, equal after lexical cleaning.
func dirty(r *rand.Rand, p string) string {
	el := strings.Split(p, "/")
	var out []string
	for i, e := range el {
		switch r.Intn(12) {
		case 0:
			out = append(out, ".")
		case 1:
			if i > 0 {
				out = append(out, "")
			}
		case 2:
			if i > 0 {
				out = append(out, "nosuch", "..")
			}
		}
		out = append(out, e)
	}
	s := strings.Join(out, "/")
	if r.Intn(8) == 0 {
		s += "/"
	}
	if p[0] == '/' && s[0] != '/' {
		s = "/" + s
	}
	return s
}

func newForest(r *rand.Rand, root string) *forest {
	f := &forest{r: r, root: root, dirs: []string{root}}
	for i := 2 + r.Intn(8); i > 0; i-- {
		p := f.unused()
		must(os.Mkdir(p, 0755))
		f.dirs = append(f.dirs, p)
	}
	for i := r.Intn(5); i > 0; i-- {
		p := f.unused()
		writeFile(p, unix.O_CREAT|unix.O_WRONLY, "")
		f.files = append(f.files, p)
	}
	for i := 1 + r.Intn(14); i > 0; i-- {
		p := f.unused()
		t := f.any()
		switch r.Intn(10) {
		case 0:
			t = f.unused() // dangling, or not yet there
		case 1:
			t = p // itself
		case 2:
			if len(f.links) > 0 {
				t = f.links[r.Intn(len(f.links))] + "/" + pathNames[r.Intn(len(pathNames))]
			}
		case 3:
			if len(f.files) > 0 {
				t = f.files[r.Intn(len(f.files))] + "/under"
			}
		}
		if r.Intn(2) == 0 {
			if rel, err := filepath.Rel(filepath.Dir(p), t); err == nil {
				t = rel
				if r.Intn(3) == 0 {
					t = "./" + t
				}
				if r.Intn(6) == 0 {
					t = ".//" + t
				}
			}
		} else if r.Intn(4) == 0 {
			t = "//" + t[1:]
		}
		// Not cleaned before it is followed: dot-dot after a link counts
		// from where the link leads.
		if r.Intn(5) == 0 && len(f.links) > 0 {
			l := f.links[r.Intn(len(f.links))]
			up := "/../"
			if r.Intn(4) == 0 {
				up = "/../../"
			}
			name := filepath.Base(f.any())
			// Something that is really there, most of the time.
			if q, err := filepath.EvalSymlinks(l); err == nil && r.Intn(4) > 0 {
				if ents, err := os.ReadDir(filepath.Join(q, up)); err == nil && len(ents) > 0 && strings.HasPrefix(filepath.Join(q, up), root) {
					name = ents[r.Intn(len(ents))].Name()
				}
			}
			if rel, err := filepath.Rel(filepath.Dir(p), l); err == nil && r.Intn(2) == 0 {
				l = rel
			}
			t = l + up + name
		}
		// Only a directory may have it.
		if r.Intn(8) == 0 {
			t += "/"
		}
		must(os.Symlink(t, p))
		f.links = append(f.links, p)
		f.log = append(f.log, fmt.Sprintf("symlink %q -> %q", p, t))
	}
	// A chain, or a cycle.
	if r.Intn(4) == 0 {
		n := 2 + r.Intn(90)
		last := f.dir()
		if r.Intn(3) == 0 {
			last = fmt.Sprintf("%s/chain%d", root, n-1)
		}
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("%s/chain%d", root, i)
			t := last
			if i > 0 {
				t = fmt.Sprintf("chain%d", i-1)
			}
			must(os.Symlink(t, p))
		}
		f.links = append(f.links, fmt.Sprintf("%s/chain%d", root, n-1))
		f.log = append(f.log, fmt.Sprintf("chain of %d links to %q", n, last))
	}
	// A deep path, and a link right into it.
	if r.Intn(6) == 0 {
		p := f.dir()
		for i := 20 + r.Intn(300); i > 0; i-- {
			p += "/d"
		}
		must(os.MkdirAll(p, 0755))
		f.dirs = append(f.dirs, p)
		l := f.unused()
		must(os.Symlink(p, l))
		f.links = append(f.links, l)
		f.log = append(f.log, fmt.Sprintf("deep directory of %d bytes, link %q", len(p), l))
	}
	return f
}

func pathsCase(c *obs.Ctx, cs int64) {
	r := rand.New(rand.NewSource(cs))
	root, err := os.MkdirTemp(scratch, "p")
	must(err)
	defer os.RemoveAll(root)
	defer os.Chdir(scratch)
	f := newForest(r, root)
	ch := make(chan notify.EventInfo, 4096)
	for try := 0; try < 8; try++ {
		// A link leads somewhere else than it used to.
		if try > 0 && r.Intn(3) == 0 {
			l := f.links[r.Intn(len(f.links))]
			t := f.any()
			must(os.Remove(l))
			must(os.Symlink(t, l))
			f.log = append(f.log, fmt.Sprintf("symlink %q -> %q, from now on", l, t))
		}
		cwd := f.dir()
		if len(cwd) > 3000 {
			cwd = root
		}
		must(os.Chdir(cwd))
		p := f.any()
		for n := r.Intn(3); n > 0; n-- {
			switch r.Intn(3) {
			case 0:
				p += "/" + pathNames[r.Intn(len(pathNames))]
			case 1:
				// Down a link of the directory the path leads to.
				if ents, err := os.ReadDir(p); err == nil && len(ents) > 0 {
					p += "/" + ents[r.Intn(len(ents))].Name()
				}
			}
		}
		arg := p
		if r.Intn(2) == 0 {
			if rel, err := filepath.Rel(cwd, p); err == nil {
				arg = rel
			}
		}
		if len(arg) < 2000 && r.Intn(2) == 0 {
			arg = dirty(r, arg)
		}
		isrec := r.Intn(3) == 0
		abs := filepath.Clean(arg)
		if !filepath.IsAbs(abs) {
			abs = filepath.Join(cwd, arg)
		}
		if isrec {
			if !strings.HasSuffix(arg, "/") {
				arg += "/"
			}
			arg += "..."
			if abs == cwd && r.Intn(2) == 0 {
				arg = []string{"...", "./..."}[r.Intn(2)]
			}
		} else if strings.HasSuffix(arg, "...") {
			continue
		}
		if try > 0 {
			c.Evaluations++
		}
		real, rerr := filepath.EvalSymlinks(abs)
		var fi os.FileInfo
		if rerr == nil {
			fi, rerr = os.Stat(real)
		}
		if rerr == nil && isrec && !fi.IsDir() {
			rerr = unix.ENOTDIR
		}
		log := append(append([]string(nil), f.log...), fmt.Sprintf("cwd %q", cwd), fmt.Sprintf("Watch(%q), that is %q, really %q (%v)", arg, abs, real, rerr))
		var werr error
		c.API(cs, fmt.Sprintf("Watch(%q)", arg), func() { werr = notify.Watch(arg, ch, notify.Create, notify.Write) })
		kind := "dir"
		if rerr != nil {
			kind = "error"
		} else if !fi.IsDir() {
			kind = "file"
		}
		c.Count("arguments: "+kind, 1)
		have := map[uint64]bool{}
		for _, k := range obs.KernelWatches() {
			have[k.Ino] = true
		}
		fail := func(class, format string, a ...any) {
			c.Violate(class, cs, fmt.Sprintf("Watch(%q): ", arg)+fmt.Sprintf(format, a...), log)
		}
		switch {
		case rerr != nil && werr == nil:
			fail("ACCEPTED", "succeeded, although %v", rerr)
		case rerr == nil && werr != nil:
			fail("REFUSED", "%v, although it is %q", werr, real)
		case rerr != nil && len(have) > 0:
			fail("LEFTOVER", "failed and left %d kernel watches", len(have))
		case rerr == nil:
			want := map[uint64]string{}
			if isrec {
				filepath.Walk(real, func(q string, fi os.FileInfo, err error) error {
					if err == nil && fi.IsDir() {
						ino, _ := obs.Ino(q)
						want[ino] = q
					}
					return nil
				})
			} else {
				ino, _ := obs.Ino(real)
				want[ino] = real
			}
			for ino, q := range want {
				if !have[ino] {
					fail("WRONG", "%q is not watched", q)
				}
			}
			for ino := range have {
				if want[ino] == "" {
					fail("WRONG", "inode %d is watched, not one of %v", ino, want)
				}
			}
			// Make something happen in there and look at its name.
			probe := real
			e := notify.Write
			if fi.IsDir() {
				var qs []string
				for _, q := range want {
					qs = append(qs, q)
				}
				sort.Strings(qs)
				q := qs[r.Intn(len(qs))]
				probe = q + "/probe"
				if len(probe) > 4000 {
					probe = real + "/probe"
				}
				e = notify.Create
				writeFile(probe, unix.O_CREAT|unix.O_WRONLY, "")
				defer os.Remove(probe)
			} else {
				writeFile(probe, unix.O_WRONLY, "x")
			}
			if !c.Settle(cs, log, nil) {
				return
			}
			got := drain(ch)
			n := 0
			for _, ei := range got {
				if ei.Path() == probe && ei.Event() == e {
					n++
				} else {
					fail("NAME", "%s %q instead of %s %q", evString(ei.Event()), ei.Path(), evString(e), probe)
				}
			}
			if n != 1 {
				fail("NAME", "%s %q delivered %d times", evString(e), probe, n)
			}
			c.Count("probe events", n)
			if fi.IsDir() {
				os.Remove(probe)
			}
		}
		c.API(cs, "Stop", func() { notify.Stop(ch) })
		if !c.Settle(cs, log, nil) {
			return
		}
		drain(ch)
		if left := obs.KernelWatches(); len(left) > 0 && len(c.Violations) == 0 {
			fail("LEAK", "%d kernel watches left after Stop", len(left))
		}
		if len(c.Violations) > 0 {
			return
		}
		if abs != real || rerr != nil || arg != real {
			if c.Nontrivial(strings.ReplaceAll(strings.Join(log, ";"), root, "")) {
				c.Sample(map[string]any{"case": cs, "log": log})
			}
		}
	}
}

func init() {
	props["paths"] = func(c *obs.Ctx) {
		c.Cases(c.N(3200, 60000), func(cs int64) { pathsCase(c, cs) })
	}
}
