package main

import (
	"fmt"

	"verifmc/objs"
)

// C28: separate objects used from separate goroutines at the same time, each by its
// typical sequence of operations. As the objects are separate there is one outcome.

type seprun struct {
	d   []*objs.Driver
	ops [][]int
}

func (r *seprun) do(t, k int) string { return r.d[t].Do(r.ops[t][k]) }

func (r *seprun) settle() []string {
	var out []string
	for _, d := range r.d {
		if s := d.Changed(); s != "" {
			out = append(out, "BAD "+s)
		}
	}
	return out
}

func separate(bound int, extra bool, kinds ...int) prog {
	p := prog{bound: bound, extra: extra, canon: plain, isolated: true, name: "separate objects:"}
	var ops [][]int
	for i, k := range kinds {
		kind := objs.Kinds[k]
		var names []string
		for _, o := range kind.Flow {
			names = append(names, kind.Ops[o])
		}
		p.threads = append(p.threads, names)
		ops = append(ops, kind.Flow)
		if i > 0 {
			p.name += " |"
		}
		p.name += " " + kind.Name
	}
	p.name += fmt.Sprintf(" (≤%d, extra=%v)", bound, extra)
	p.fresh = func() run {
		env := objs.NewEnv()
		r := &seprun{ops: ops}
		for i, k := range kinds {
			r.d = append(r.d, objs.Kinds[k].New(env, i%2))
		}
		return r
	}
	return p
}

func init() {
	suites["C28"] = func(tier string) []prog {
		var out []prog
		for i := range objs.Kinds {
			for j := i; j < len(objs.Kinds); j++ {
				switch {
				case tier == "quick":
					out = append(out, separate(1, i == j, i, j))
				case i == j:
					out = append(out, separate(2, true, i, j), separate(1, false, i, j, i))
				default:
					out = append(out, separate(1, true, i, j), separate(2, false, i, j))
				}
			}
		}
		return out
	}
}
