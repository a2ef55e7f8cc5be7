//go:build go1.22

package obs

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one broken property instance.
type Violation struct {
	Class string   `json:"class"`
	Case  int64    `json:"case"`
	What  string   `json:"what"`
	Log   []string `json:"log"`
}

// Report is what one shard observed.
type Report struct {
	Prop         string           `json:"prop"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     []uint64         `json:"distinct"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []any            `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Known        []string         `json:"known"`
	Inconclusive []string         `json:"inconclusive"`
	Done         bool             `json:"done"`

	seen map[uint64]bool
	out  string
}

// Ctx drives the cases of one shard.
type Ctx struct {
	*Report
	Seed     int64
	Thorough bool
	Shard    int
	Shards   int
	Deadline time.Time
	Single   int64 // case to replay, or -1
	Verbose  bool
}

func NewReport(prop, out string) *Report {
	return &Report{Prop: prop, Counters: map[string]int64{}, seen: map[uint64]bool{}, out: out}
}

func (r *Report) Count(name string, n int) { r.Counters[name] += int64(n) }

// Nontrivial records one distinct non-trivial case.
func (r *Report) Nontrivial(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	if r.seen[s] {
		return false
	}
	r.seen[s] = true
	return true
}

func (r *Report) Sample(v any) {
	if len(r.Samples) < 2 {
		r.Samples = append(r.Samples, v)
	}
}

func (r *Report) Violate(class string, cs int64, what string, log []string) {
	r.Count("violation:"+class, 1)
	if len(r.Violations) < 5 {
		r.Violations = append(r.Violations, Violation{class, cs, what, append([]string(nil), log...)})
	}
}

// KnownFinding records that the listed finding of that id has been observed.
func (r *Report) KnownFinding(id string) {
	for _, k := range r.Known {
		if k == id {
			return
		}
	}
	r.Known = append(r.Known, id)
}

func (r *Report) Write() {
	r.Distinct = r.Distinct[:0]
	for h := range r.seen {
		r.Distinct = append(r.Distinct, h)
	}
	sort.Slice(r.Distinct, func(i, j int) bool { return r.Distinct[i] < r.Distinct[j] })
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if r.out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(r.out, b, 0644); err != nil {
		panic(err)
	}
}

// Begin marks the case being run, for the case the process dies in it.
func (r *Report) Begin(cs int64, note string) {
	r.Evaluations++
	apiCase.Store(cs)
	caseStart.Store(time.Now().UnixNano())
	if r.out != "" {
		os.WriteFile(r.out+".cur", []byte(fmt.Sprintf("%d %s\n", cs, note)), 0644)
	}
}

// Cases runs n cases, of which this shard gets its part.
func (c *Ctx) Cases(n int64, fn func(cs int64)) {
	if c.Single >= 0 {
		c.Begin(c.Single, "")
		fn(c.Single)
		return
	}
	for i := int64(c.Shard); i < n; i += int64(c.Shards) {
		if time.Now().After(c.Deadline) {
			c.Count("cases cut by deadline", 1)
			return
		}
		if len(c.Violations) >= 3 {
			return
		}
		// Distinct seeds for every run seed, property and case.
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%d", c.Seed, c.Prop, i)
		cs := int64(h.Sum64() >> 2)
		c.Begin(cs, "")
		fn(cs)
	}
}

// N picks a count by tier.
func (c *Ctx) N(quick, thorough int64) int64 {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Settle waits for quiescence; a Stuck library is a violation when it is
// blocked for good and an inconclusive case otherwise.
func (c *Ctx) Settle(cs int64, log []string, ignore func(G) bool, except ...int) bool {
	spun := 0
	for try := 0; ; try++ {
		err := Quiesce(ignore, except...)
		if err == nil {
			return true
		}
		s := err.(*Stuck)
		if s.Blocked {
			c.Violate("DEADLOCK", cs, "the library is blocked for good", append(append([]string(nil), log...), strings.Split(s.Dump, "\n")...))
			return false
		}
		if s.Spinning {
			if spun++; spun == 3 {
				c.Violate("LIVELOCK", cs, "the library is running, but does not read the events there are", append(append([]string(nil), log...), strings.Split(s.Dump, "\n")...))
				return false
			}
		}
		if try >= 4 {
			c.Inconclusive = append(c.Inconclusive, s.Error())
			return false
		}
	}
}

// RunMain runs fn and writes the report.
func (c *Ctx) RunMain(fn func(*Ctx)) {
	go c.watchdog()
	fn(c)
	c.Done = true
	c.Write()
}

var apiStart, apiCase, caseStart atomic.Int64
var apiName atomic.Value
var apiOnce sync.Once

// API runs a library call on the calling goroutine, watched by a monitor which
// ends the process when the call is blocked for good.
func (c *Ctx) API(cs int64, name string, fn func()) {
	apiOnce.Do(func() { go c.monitor() })
	apiCase.Store(cs)
	apiName.Store(name)
	apiStart.Store(time.Now().UnixNano())
	fn()
	apiStart.Store(0)
	c.Count("api calls", 1)
}

func (c *Ctx) monitor() {
	for {
		time.Sleep(500 * time.Millisecond)
		t := apiStart.Load()
		if t == 0 {
			continue
		}
		d := time.Since(time.Unix(0, t))
		if d < 10*time.Second {
			continue
		}
		busy, dump := false, ""
		for _, g := range Snapshot() {
			if !g.Lib {
				continue
			}
			if !g.Idle && !blockedState(g.State) {
				busy = true
			}
			dump += g.Text + "\n\n"
		}
		if apiStart.Load() != t || busy && d < 100*time.Second {
			continue
		}
		what := fmt.Sprintf("%v does not return, %v since it was called", apiName.Load(), d.Round(time.Second))
		if busy {
			c.Inconclusive = append(c.Inconclusive, what+"\n"+dump)
		} else {
			c.Violate("DEADLOCK", apiCase.Load(), what, strings.Split(dump, "\n"))
		}
		c.Done = true
		c.Write()
		os.Exit(0)
	}
}

// watchdog looks at cases which take long: a goroutine of the harness that has
// been in the same call of the library all the time, with everything the
// library does blocked or idle, and nothing else about to run, is a deadlock.
func (c *Ctx) watchdog() {
	same, still, since := "", 0, int64(0)
	for {
		time.Sleep(time.Second)
		t := caseStart.Load()
		if t == 0 || t != since || time.Since(time.Unix(0, t)) < 20*time.Second {
			since, same, still = t, "", 0
			continue
		}
		busy, unsure, in, dump := false, false, "", ""
		for _, g := range Snapshot() {
			ran := g.State == "running" || g.State == "runnable"
			if !g.Lib {
				unsure = unsure || ran && !strings.Contains(g.Text, "(*Ctx).monitor")
				continue
			}
			if !g.Idle && !blockedState(g.State) {
				busy = true
			}
			if !libMade(g.Text) {
				_, body, _ := strings.Cut(g.Text, "\n")
				in += body + "\n"
			}
			dump += g.Text + "\n\n"
		}
		switch {
		case busy || in == "" || in != same:
			same, still = in, 0
		case !unsure:
			still++
		}
		if still < 20 || caseStart.Load() != t {
			continue
		}
		c.Violate("DEADLOCK", apiCase.Load(), fmt.Sprintf("a call does not return, %v into the case", time.Since(time.Unix(0, t)).Round(time.Second)), strings.Split(dump, "\n"))
		c.Done = true
		c.Write()
		os.Exit(0)
	}
}

// libMade tells whether a goroutine has been started by the library.
func libMade(text string) bool {
	i := strings.LastIndex(text, "\ncreated by ")
	return i >= 0 && libFile(text[i:])
}
