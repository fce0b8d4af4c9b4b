package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verifmc/objs"
)

// C28: every interleaving of operations on two separate objects, of the same kind
// or of different kinds, up to a length. Each object has to behave as it does on
// its own (in a process of its own), and nothing handed over may change later.
// The concurrent part is in conc/separate.go.

// c28variants bounds the number of variants of a kind.
const c28variants = 8

type c28case struct {
	A, B string
	Seq  []int `json:"seq"`  // operation k of A is k, of B is 100+k
	Pair int   `json:"pair"` // index in c28pairs
}

type c28report struct {
	Sequences, Ops int64
	Pairs          int
	Bad            string
	Case           c28case
	Samples        []any
	Done           bool
}

// solo lists the results of every sequence of operations of one object alone.
func c28solo(kind, v, length int) map[string]string {
	k := objs.Kinds[kind]
	out := map[string]string{}
	seq := make([]int, length)
	for {
		d := k.New(objs.NewEnv(), v)
		key, res := "", ""
		for _, o := range seq {
			key += string(rune('a' + o))
			res = c28do(d, o)
			out[key] = res
		}
		i := length - 1
		for i >= 0 && seq[i]+1 >= len(k.Ops) {
			seq[i] = 0
			i--
		}
		if i < 0 {
			return out
		}
		seq[i]++
	}
}

func c28do(d *objs.Driver, k int) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return d.Do(k)
}

func c28name(a, b objs.Kind, p c28pair, seq []int) string {
	var w []string
	for _, o := range seq {
		if o < 100 {
			w = append(w, "1:"+a.Ops[o])
		} else {
			w = append(w, "2:"+b.Ops[o-100])
		}
	}
	return fmt.Sprintf("objects 1 (%s %d) and 2 (%s %d): %s", a.Name, p.VA+1, b.Name, p.VB+1, strings.Join(w, ", "))
}

// c28run executes one sequence and says what is wrong with it.
func c28run(a, b objs.Kind, va, vb int, seq []int, soloA, soloB map[string]string) string {
	env := objs.NewEnv()
	da, db := a.New(env, va), b.New(env, vb)
	ka, kb := "", ""
	for i, o := range seq {
		var res, want, who string
		if o < 100 {
			ka += string(rune('a' + o))
			res, want, who = c28do(da, o), soloA[ka], "1"
		} else {
			kb += string(rune('a' + o - 100))
			res, want, who = c28do(db, o-100), soloB[kb], "2"
		}
		if strings.HasPrefix(res, "panic: ") {
			return fmt.Sprintf("step %d: %s", i+1, res)
		}
		if strings.HasPrefix(res, "BAD ") {
			return fmt.Sprintf("step %d: %s", i+1, res[4:])
		}
		if res != want {
			return fmt.Sprintf("step %d on object %s gives\n  %s\nand without the other object\n  %s", i+1, who, res, want)
		}
		for _, d := range []*objs.Driver{da, db} {
			if s := d.Changed(); s != "" {
				return fmt.Sprintf("after step %d: %s", i+1, s)
			}
		}
	}
	return ""
}

type c28pair struct{ A, B, VA, VB int }

// c28pairs lists all pairs of kinds and variants; those of the same kind that are
// the same variant included.
func c28pairs() (out []c28pair) {
	for i, a := range objs.Kinds {
		for j, b := range objs.Kinds {
			for v := 0; v < a.Count(); v++ {
				for w := 0; w < b.Count(); w++ {
					out = append(out, c28pair{i, j, v, w})
				}
			}
		}
	}
	return out
}

// c28length: how long the sequences of a pair are. Variants 0 and 1 form the
// main pair.
func c28length(tier string, p c28pair) int {
	n := 4
	if tier == "thorough" {
		n = 5
	}
	if p.A != p.B {
		n--
	}
	if p.VA != 0 || p.VB != 1 {
		n--
	}
	return n
}

// c28shard is the helper process: mc c28shard <tier> <shard> <shards> <seconds> <dir>
func c28shard(args []string) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	tier, dir := args[0], args[4]
	var shard, shards, secs int
	_, _ = fmt.Sscan(args[1], &shard)
	_, _ = fmt.Sscan(args[2], &shards)
	_, _ = fmt.Sscan(args[3], &secs)
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	var rep c28report
	rep.Done = true
	solo := map[int]map[string]string{}
	get := func(kind, v int) map[string]string {
		k := kind*c28variants + v
		if solo[k] == nil {
			m := map[string]string{}
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("solo%d.json", k)))
			_ = json.Unmarshal(b, &m)
			solo[k] = m
		}
		return solo[k]
	}
pairs:
	for n, p := range c28pairs() {
		if n%shards != shard {
			continue
		}
		a, b := objs.Kinds[p.A], objs.Kinds[p.B]
		sa, sb := get(p.A, p.VA), get(p.B, p.VB)
		total := len(a.Ops) + len(b.Ops)
		seq := make([]int, c28length(tier, p))
		ops := make([]int, len(seq))
		rep.Pairs++
		for {
			for i, o := range seq {
				ops[i] = o
				if o >= len(a.Ops) {
					ops[i] = 100 + o - len(a.Ops)
				}
			}
			rep.Sequences++
			rep.Ops += int64(len(ops))
			if rep.Sequences&0xff == 0 && time.Now().After(deadline) {
				rep.Done = false
				break pairs
			}
			if bad := c28run(a, b, p.VA, p.VB, ops, sa, sb); bad != "" {
				rep.Bad = c28name(a, b, p, ops) + ": " + bad
				rep.Case = c28case{a.Name, b.Name, append([]int{}, ops...), n}
				break pairs
			}
			if len(rep.Samples) < 1 && rep.Sequences > 100 {
				rep.Samples = append(rep.Samples, c28name(a, b, p, ops))
			}
			i := len(seq) - 1
			for i >= 0 && seq[i]+1 >= total {
				seq[i] = 0
				i--
			}
			if i < 0 {
				break
			}
			seq[i]++
		}
	}
	writeJSON(filepath.Join(dir, fmt.Sprintf("shard%d.json", shard)), rep)
}

func c28soloHelper(args []string) {
	var kind, v, length int
	_, _ = fmt.Sscan(args[0], &kind)
	_, _ = fmt.Sscan(args[1], &v)
	_, _ = fmt.Sscan(args[2], &length)
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	b, _ := json.Marshal(c28solo(kind, v, length))
	_, _ = out.Write(b)
}

// helpers runs this program's helper commands, eight at a time.
func helpers(cmds [][]string, done func(i int, out []byte, err error)) {
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, args := range cmds {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, args []string) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			var errb tail
			cmd.Stderr = &errb
			out, err := cmd.Output()
			if err != nil {
				err = fmt.Errorf("%w: %s", err, firstLines(errb.String(), 12))
			}
			<-sem
			mu.Lock()
			done(i, out, err)
			mu.Unlock()
		}(i, args)
	}
	wg.Wait()
}

func c28sequential(c *Ctx) *Violation {
	dir, clean := workDir()
	defer clean()
	var cmds [][]string
	var files []int
	var names []string
	for k, kind := range objs.Kinds {
		for v := 0; v < kind.Count(); v++ {
			names = append(names, fmt.Sprintf("%s (variant %d)", kind.Name, v+1))
			files = append(files, k*c28variants+v)
			cmds = append(cmds, []string{"c28solo", fmt.Sprint(k), fmt.Sprint(v), fmt.Sprint(c28length(c.Tier, c28pair{k, k, 0, 1}))})
		}
	}
	var v *Violation
	crash := func(what string, err error) {
		text := err.Error()
		if strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: ") {
			if v == nil {
				v = &Violation{Message: what + " crashed: " + text}
			}
			return
		}
		c.Exhaustive = false
		c.Cov["helper_failed"] = what + ": " + text
	}
	helpers(cmds, func(i int, out []byte, err error) {
		if err != nil {
			crash("using one "+names[i], err)
			return
		}
		var m map[string]string
		_ = json.Unmarshal(out, &m)
		for k, r := range m {
			if (strings.HasPrefix(r, "panic: ") || strings.HasPrefix(r, "BAD ")) && v == nil {
				v = &Violation{Message: fmt.Sprintf("one %s alone, operations %s: %s", names[i], k, r), Case: map[string]any{"kind": names[i], "ops": k}}
			}
		}
		_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("solo%d.json", files[i])), out, 0o644)
	})
	if v != nil {
		return v
	}
	const shards = 8
	secs := int(time.Until(c.Deadline).Seconds())
	if c.Quick() && secs > 200 {
		secs = 200
	}
	cmds = nil
	for i := 0; i < shards; i++ {
		cmds = append(cmds, []string{"c28shard", c.Tier, fmt.Sprint(i), fmt.Sprint(shards), fmt.Sprint(secs), dir})
	}
	var sum c28report
	helpers(cmds, func(i int, _ []byte, err error) {
		if err != nil {
			crash("using two objects", err)
			return
		}
		var r c28report
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("shard%d.json", i)))
		_ = json.Unmarshal(b, &r)
		sum.Sequences += r.Sequences
		sum.Ops += r.Ops
		sum.Pairs += r.Pairs
		for _, s := range r.Samples {
			c.Sample(s)
		}
		if r.Bad != "" && (v == nil || len(r.Case.Seq) < 1) {
			v = &Violation{Message: r.Bad, Config: "separate", Case: r.Case}
		}
		if !r.Done {
			c.Exhaustive = false
		}
	})
	c.States += sum.Sequences
	c.Transitions += sum.Ops
	c.Traces += sum.Sequences
	c.Cov["kinds_of_objects"] = len(objs.Kinds)
	c.Cov["ordered_pairs"] = sum.Pairs
	c.Cov["interleavings"] = sum.Sequences
	return v
}

func init() {
	register("C28", "model_checking", func(c *Ctx) *Violation {
		if v := c28sequential(c); v != nil {
			return v
		}
		return runConc(c, 8)
	})
}
