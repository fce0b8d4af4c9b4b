package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	wampproto "github.com/xconnio/wampproto-go"
)

const maxID = uint64(1) << 53

// counter finds the one integer a generator keeps.
func counter(g *wampproto.SessionScopeIDGenerator) *uint64 {
	var found []*uint64
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Uint64, reflect.Int64:
			found = append(found, (*uint64)(unsafe.Pointer(v.UnsafeAddr())))
		}
	}
	walk(reflect.ValueOf(g).Elem())
	if len(found) != 1 {
		return nil
	}
	return found[0]
}

type idrun struct {
	g   *wampproto.SessionScopeIDGenerator
	got [][]uint64
}

func (r *idrun) do(t, k int) string {
	id := r.g.NextID()
	return fmt.Sprint(id)
}

func (r *idrun) settle() []string { return []string{fmt.Sprint(r.g.NextID())} }

// judgeIDs: after n draws starting behind last, the ids are the n next ones, each
// thread's in increasing order (cyclically), and one more draw continues.
func judgeIDs(last uint64, n int) func([][]string, []string) string {
	return func(res [][]string, after []string) string {
		succ := func(x uint64) uint64 { return x%maxID + 1 }
		pos := map[string]int{}
		x := last
		for i := 0; i <= n; i++ {
			x = succ(x)
			pos[fmt.Sprint(x)] = i
		}
		seen := map[int]bool{}
		for _, t := range res {
			prev := -1
			for _, s := range t {
				p, ok := pos[s]
				if !ok || p >= n {
					return fmt.Sprintf("id %s is not among the next %d after %d", s, n, last)
				}
				if seen[p] {
					return fmt.Sprintf("id %s was handed out twice", s)
				}
				seen[p] = true
				if p < prev {
					return "one goroutine draws ids in decreasing order"
				}
				prev = p
			}
		}
		if p, ok := pos[after[0]]; !ok || p != n {
			return fmt.Sprintf("the draw after %d draws behind %d gives %s", n, last, after[0])
		}
		return ""
	}
}

func draws(counts ...int) [][]string {
	var ts [][]string
	for _, c := range counts {
		var t []string
		for i := 0; i < c; i++ {
			t = append(t, "NextID")
		}
		ts = append(ts, t)
	}
	return ts
}

type grun struct{}

func (grun) do(t, k int) string { return fmt.Sprint(wampproto.GenerateID()) }
func (grun) settle() []string   { return nil }

func judgeRange(res [][]string, _ []string) string {
	for _, t := range res {
		for _, s := range t {
			var id uint64
			if _, err := fmt.Sscan(s, &id); err != nil || id < 1 || id > maxID {
				return fmt.Sprintf("GenerateID returns %s, which is not in 1..2^53", s)
			}
		}
	}
	return ""
}

// spread looks at a run of unscripted draws: the gross shape only.
type spreadRun struct{}

func (spreadRun) do(t, k int) string {
	var ids []string
	for i := 0; i < 64; i++ {
		ids = append(ids, fmt.Sprint(wampproto.GenerateID()))
	}
	sort.Strings(ids)
	return strings.Join(ids, " ")
}
func (spreadRun) settle() []string { return nil }

func judgeSpread(res [][]string, after []string) string {
	seen := map[string]bool{}
	big := 0
	for _, t := range res {
		for _, s := range t {
			for _, x := range strings.Fields(s) {
				if m := judgeRange([][]string{{x}}, nil); m != "" {
					return m
				}
				if seen[x] {
					return "GenerateID returned " + x + " twice within 128 draws"
				}
				seen[x] = true
				var id uint64
				fmt.Sscan(x, &id)
				if id > maxID/2 {
					big++
				}
			}
		}
	}
	if big == 0 || big == len(seen) {
		return "128 draws of GenerateID all fall into one half of 1..2^53"
	}
	return ""
}

func init() {
	suites["C13"] = func(tier string) []prog {
		var out []prog
		bound := 4
		if tier != "quick" {
			bound = 8
		}
		shapes := [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}, {3, 1}}
		if tier != "quick" {
			shapes = append(shapes, []int{2, 2, 1}, []int{3, 2}, []int{3, 3})
		}
		// what the stored number means: the last id or the next one
		offset, usable := uint64(0), false
		g := &wampproto.SessionScopeIDGenerator{}
		if p := counter(g); p != nil {
			*p = 1000
			a, b := g.NextID(), g.NextID()
			if (a == 1000 || a == 1001) && b == a+1 {
				offset, usable = a-1000, true
			}
		}
		add := func(last uint64, counts []int) {
			ts := draws(counts...)
			n := 0
			for _, c := range counts {
				n += c
			}
			b := bound
			if n > 3 && tier == "quick" {
				b = 3
			}
			if n > 4 {
				b = 4
			}
			if len(counts) > 2 && b > 3 {
				b = 3
			}
			out = append(out, prog{
				name:    fmt.Sprintf("ids after %d: %v draws (≤%d)", last, counts, b),
				threads: ts, bound: b, canon: plain, judge: judgeIDs(last, n),
				fresh: func() run {
					g := &wampproto.SessionScopeIDGenerator{}
					if last > 0 {
						// not the last steps before the wrap: the code gets there itself
						from := last
						if from > maxID-8 {
							from = maxID - 8
						}
						*counter(g) = from + 1 - offset
						for ; from < last; from++ {
							g.NextID()
						}
					}
					return &idrun{g: g}
				},
			})
		}
		starts := []uint64{0}
		if usable {
			// 2^31, 2^32: no truncation on the way; then around the wrap
			starts = append(starts, 1<<31-1, 1<<32-1, maxID-3, maxID-2, maxID-1, maxID)
		}
		for _, s := range starts {
			for _, sh := range shapes {
				add(s, sh)
			}
			add(s, []int{6})
		}
		for _, sh := range [][]int{{1}, {2}, {3}, {1, 1}} {
			out = append(out, prog{
				name:    fmt.Sprintf("GenerateID %v draws, scripted randomness", sh),
				threads: draws(sh...), bound: 2, extra: true, canon: plain, judge: judgeRange, scripted: true,
				fresh: func() run { return grun{} },
			})
		}
		out = append(out, prog{
			name: "GenerateID, 2 goroutines, 64 real draws each", threads: draws(1, 1), bound: 0, canon: plain, judge: judgeSpread,
			fresh: func() run { return spreadRun{} },
		})
		return out
	}
}
