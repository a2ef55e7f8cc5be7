// Command bb runs black-box harnesses against the public API of the library,
// the real kernel and a scratch tree.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"time"

	"verif/obs"
)

var scratch string

var props = map[string]func(*obs.Ctx){}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "")
	single := flag.Int64("case", -1, "")
	verbose := flag.Bool("v", false, "")
	limit := flag.Duration("limit", 100*time.Second, "")
	help := flag.String("helper", "", "")
	flag.Parse()
	if *help != "" {
		helper(*help)
		return
	}
	fn := props[*prop]
	if fn == nil {
		var s []string
		for k := range props {
			s = append(s, k)
		}
		sort.Strings(s)
		fmt.Fprintln(os.Stderr, "no such harness; have", s)
		os.Exit(2)
	}
	base := "/dev/shm"
	if fi, err := os.Stat(base); err != nil || !fi.IsDir() {
		base = os.TempDir()
	}
	if s := os.Getenv("VERIF_SCRATCH"); s != "" {
		base = s
	}
	var err error
	scratch, err = os.MkdirTemp(base, "vf")
	must(err)
	must(os.Chdir(scratch))
	c := &obs.Ctx{Report: obs.NewReport(*prop, *out), Seed: *seed, Thorough: *tier == "thorough", Shard: *shard, Shards: *shards,
		Deadline: time.Now().Add(*limit), Single: *single, Verbose: *verbose}
	t := time.Now()
	c.RunMain(fn)
	os.Chdir("/")
	os.RemoveAll(scratch)
	if *verbose {
		fmt.Println(c.Evaluations, "cases", time.Since(t), c.Counters)
	}
}
