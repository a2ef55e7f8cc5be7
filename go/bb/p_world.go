package main

import "verif/obs"

func weights(kv ...interface{}) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func baseProfile() profile {
	return profile{Chans: 3, Steps: 25, Init: 10, Raw: true, Names: namesAll, RecPct: 35, FilePct: 30, Decorate: true,
		W: weights("watch", 5, "stop", 1, "create", 4, "write", 3, "trunc", 1, "chmod", 2, "read", 1, "rm", 2, "symlink", 1, "rmlink", 1, "out", 1,
			"mv", 2, "mvover", 1, "mkdir", 2, "rmdir", 1, "rmtree", 1, "mktree", 1, "mvdir", 1, "odd", 2)}
}

// fewChanges has a small set of names, so that they get used over and over.
func dirProfile() profile {
	p := baseProfile()
	p.Names = namesFew
	p.RecPct = 75
	p.FilePct = 5
	p.Raw = false
	p.Steps = 40
	p.Init = 6
	p.W = weights("watch", 4, "stop", 1, "create", 3, "write", 3, "rm", 1, "mkdir", 5, "rmdir", 3, "rmtree", 2, "mktree", 2, "mvdir", 4, "mv", 1,
		"symlink", 1, "rmlink", 1, "out", 1, "odd", 1)
	return p
}

func worldCheck(n, deep int64, classes string, pr func(cs int64) profile) func(*obs.Ctx) {
	return func(c *obs.Ctx) {
		wit, err := obs.NewWitness()
		must(err)
		defer wit.Close()
		c.Cases(c.N(n, deep), func(cs int64) { fuzz(c, cs, pr(cs), wit, classes) })
	}
}

func mixed(cs int64) profile {
	p := baseProfile()
	switch cs % 4 {
	case 0:
		p = dirProfile()
	case 1:
		p.Names = namesFew
	case 2:
		p.Chans = 6
		p.W["watch"] = 9
		p.W["stop"] = 3
	}
	return p
}

func kernelized(f func(cs int64) profile) func(cs int64) profile {
	return func(cs int64) profile { p := f(cs); p.CheckKernel = true; return p }
}

func init() {
	props["completeness"] = worldCheck(4000, 60000, "LOST,WATCHERR", mixed)
	props["soundness"] = worldCheck(4000, 60000, "SPURIOUS,DUP,FORMAT", mixed)
	props["recursive"] = worldCheck(4000, 60000, "LOST,KMISS,WATCHERR,SPURIOUS,DUP,KGHOST", kernelized(func(int64) profile { return dirProfile() }))
	props["kernel"] = worldCheck(4000, 60000, "KMISS,KEXTRA,KWIDE,KGHOST,LEAK", kernelized(mixed))
}
