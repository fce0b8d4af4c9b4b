// Command conc explores the schedules of concurrent uses of the instrumented
// library. It is built by mc with an overlay; see instr.go and _shim.
//
//	conc <property> <tier> <shard> <shards> <deadline s> <out.json>
//	conc replay <file.json>
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/xconnio/wampproto-go/verifshim/vsched"
)

// run is one fresh instance of a program.
type run interface {
	// do performs the k-th operation of a thread and describes its result.
	do(thread, k int) string
	// settle describes, after all threads are done, what the object does next.
	settle() []string
}

// prog is a small concurrent program with its specification.
type prog struct {
	name    string
	threads [][]string // operation names, for orders and messages
	bound   int        // preemptions
	extra   bool       // scheduling points also in the serializers etc.
	fresh   func() run
	// judge replaces the comparison with the sequential orders
	judge func(results [][]string, after []string) string
	// canon makes outcomes comparable
	canon func(results [][]string, after []string) string
	// scripted: random draws are decisions
	scripted bool
	wide     bool // draws take enough values to make every choice possible
	// all judges the outcomes of all executions together
	all      func(outcomes map[string]bool, draws int) string
	inTime   bool // the order must also respect which operation returned before which was called
	isolated bool // operations of different threads do not interact: one order is enough
}

type report struct {
	Programs   int
	Skipped    int
	Schedules  int64
	Steps      int64
	Outcomes   int64
	Sequential int64
	Diverged   int64
	Truncated  int
	MaxSched   int64
	Detecting  bool
	Samples    []any
	Violation  *violation
	Done       bool
}

type violation struct {
	Program string
	Message string
	Trace   []int
	Results [][]string
	After   []string
}

const (
	noOrder       = "no sequential order of the operations gives these results"
	noOrderInTime = "no sequential order gives these results in which operations that returned come before those called after that"
)

const maxSchedules = 400000

var suites = map[string]func(tier string) []prog{}

func orders(threads [][]string) [][]int {
	left := make([]int, len(threads))
	total := 0
	for i, t := range threads {
		left[i] = len(t)
		total += len(t)
	}
	var out [][]int
	cur := make([]int, 0, total)
	var rec func()
	rec = func() {
		if len(cur) == total {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				cur = append(cur, i)
				rec()
				cur = cur[:len(cur)-1]
				left[i]++
			}
		}
	}
	rec()
	return out
}

// tick reads the clock without the race detector seeing it.
//
//go:norace
func tick(clock, at *int) {
	*clock++
	*at = *clock
}

func blank(threads [][]string) [][]string {
	res := make([][]string, len(threads))
	for i, t := range threads {
		res[i] = make([]string, len(t))
	}
	return res
}

// sequential runs one order and returns its outcome; a panic is the message.
func sequential(p *prog, order []int) (out string, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%s: in the sequential order %v: panic: %v\n%s", p.name, order, r, debug.Stack())
		}
	}()
	r := p.fresh()
	res := blank(p.threads)
	next := make([]int, len(p.threads))
	for _, t := range order {
		res[t][next[t]] = r.do(t, next[t])
		next[t]++
	}
	return p.canon(res, r.settle()), ""
}

// span is when an operation was called and when it returned, on a common clock.
type span struct{ call, ret int }

func blankSpans(threads [][]string) [][]span {
	res := make([][]span, len(threads))
	for i, t := range threads {
		res[i] = make([]span, len(t))
	}
	return res
}

// precedence lists which operations returned before which others (of other threads) were called.
func precedence(spans [][]span) string {
	var b strings.Builder
	for i := range spans {
		for k := range spans[i] {
			for j := range spans {
				for l := range spans[j] {
					if i != j && spans[i][k].ret < spans[j][l].call {
						fmt.Fprintf(&b, "%d.%d<%d.%d ", i, k, j, l)
					}
				}
			}
		}
	}
	return b.String()
}

// respects is whether an order of the operations contradicts no precedence.
func respects(order []int, spans [][]span) bool {
	next := make([]int, len(spans))
	latest := 0 // the latest call among the operations so far
	for _, t := range order {
		s := spans[t][next[t]]
		next[t]++
		if s.ret < latest {
			return false // it returned before an operation that is placed before it was called
		}
		if s.call > latest {
			latest = s.call
		}
	}
	return true
}

func anyRespects(orders [][]int, spans [][]span) bool {
	for _, o := range orders {
		if respects(o, spans) {
			return true
		}
	}
	return false
}

// execute runs one schedule.
func execute(p *prog, choices []int) (sr vsched.Result, res [][]string, spans [][]span, after []string, msg string) {
	r := p.fresh()
	res = blank(p.threads)
	spans = blankSpans(p.threads)
	clock := 0
	fns := make([]func(), len(p.threads))
	for i := range p.threads {
		i := i
		fns[i] = func() {
			for k := range p.threads[i] {
				// only one thread runs at a time; the clock itself must not order them for the race detector
				tick(&clock, &spans[i][k].call)
				res[i][k] = r.do(i, k)
				tick(&clock, &spans[i][k].ret)
			}
		}
	}
	races := vsched.Races()
	vsched.Scripted, vsched.Wide = p.scripted, p.wide
	sr = vsched.Run(p.bound, p.extra, choices, fns)
	vsched.Scripted = false
	switch {
	case len(sr.Panics) > 0:
		return sr, res, spans, nil, "panic: " + strings.Join(sr.Panics, "\n")
	case sr.Deadlock != "":
		return sr, res, spans, nil, "deadlock: " + sr.Deadlock
	case sr.Endless:
		return sr, res, spans, nil, "an operation does not return"
	case vsched.Races() > races:
		return sr, res, spans, nil, "data race (two unsynchronised accesses to the same memory, at least one a write)"
	}
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("afterwards: panic: %v\n%s", x, debug.Stack())
		}
	}()
	after = r.settle()
	if vsched.Races() > races {
		return sr, res, spans, after, "data race (unsynchronised accesses to the same memory)"
	}
	return sr, res, spans, after, ""
}

func (v *violation) fill(p *prog, sr vsched.Result, res [][]string, after []string, msg string) {
	v.Program, v.Message, v.Results, v.After = p.name, msg, res, after
	for _, d := range sr.Trace {
		v.Trace = append(v.Trace, d.Chosen)
	}
}

// explore enumerates the schedules of one program.
func explore(p *prog, rep *report, deadline time.Time) *violation {
	allowed := map[string][][]int{}
	within := map[string]bool{}
	if p.judge == nil {
		ords := orders(p.threads)
		if p.isolated {
			ords = ords[:1]
		}
		for _, o := range ords {
			out, msg := sequential(p, o)
			if msg != "" {
				return &violation{Program: p.name, Message: msg}
			}
			allowed[out] = append(allowed[out], o)
			rep.Sequential++
		}
	}
	seen := map[string]bool{}
	drawn := 0
	var choices []int
	var count int64
	for {
		sr, res, spans, after, msg := execute(p, choices)
		rep.Schedules++
		count++
		rep.Steps += int64(sr.Steps)
		if n := vsched.Draws(); n > drawn {
			drawn = n
		}
		if sr.Diverged {
			rep.Diverged++
		}
		for _, a := range after {
			if msg == "" && strings.HasPrefix(a, "BAD ") {
				msg = a[4:]
			}
		}
		if msg == "" {
			out := p.canon(res, after)
			if !seen[out] {
				seen[out] = true
				rep.Outcomes++
				if p.judge != nil {
					msg = p.judge(res, after)
				} else if len(allowed[out]) == 0 {
					msg = noOrder
				}
				if len(rep.Samples) < 2 && sr.Preemptions > 0 {
					rep.Samples = append(rep.Samples, map[string]any{"program": p.name, "results": res, "decisions": len(sr.Trace), "preemptions": sr.Preemptions})
				}
			}
			if msg == "" && p.inTime {
				if key := precedence(spans) + out; !within[key] {
					within[key] = true
					if !anyRespects(allowed[out], spans) {
						msg = noOrderInTime
					}
				}
			}
		}
		if msg != "" {
			v := &violation{}
			v.fill(p, sr, res, after, msg)
			return v
		}
		t := sr.Trace
		i := len(t) - 1
		for i >= 0 && t[i].Chosen+1 >= t[i].N {
			i--
		}
		if i < 0 {
			if p.all != nil {
				if msg := p.all(seen, drawn); msg != "" {
					return &violation{Program: p.name, Message: msg}
				}
			}
			break
		}
		choices = choices[:0]
		for _, d := range t[:i] {
			choices = append(choices, d.Chosen)
		}
		choices = append(choices, t[i].Chosen+1)
		if count >= maxSchedules || (count%64 == 0 && time.Now().After(deadline)) {
			rep.Truncated++
			break
		}
	}
	if count > rep.MaxSched {
		rep.MaxSched = count
	}
	return nil
}

func find(prop, name string) *prog {
	for _, tier := range []string{"quick", "thorough"} {
		for _, p := range suites[prop](tier) {
			if p.name == name {
				p := p
				return &p
			}
		}
	}
	return nil
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property  string
		Violation struct {
			Case violation `json:"case"`
		}
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := r.Violation.Case
	p := find(r.Property, v.Program)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such program:", v.Program)
		return 2
	}
	sr, res, spans, after, msg := execute(p, v.Trace)
	fmt.Fprintf(os.Stderr, "%s\nschedule %v (%d steps, %d preemptions)\nresults %v\nafterwards %v\n", p.name, v.Trace, sr.Steps, sr.Preemptions, res, after)
	for _, a := range after {
		if msg == "" && strings.HasPrefix(a, "BAD ") {
			msg = a[4:]
		}
	}
	if msg == "" {
		if p.judge != nil {
			msg = p.judge(res, after)
		} else {
			ok, inTime := false, false
			for _, o := range orders(p.threads) {
				out, m := sequential(p, o)
				if m != "" {
					msg = m
				}
				if out == p.canon(res, after) {
					ok = true
					inTime = inTime || !p.inTime || respects(o, spans)
				}
			}
			if !ok && msg == "" {
				msg = noOrder
			} else if !inTime && msg == "" {
				msg = noOrderInTime
			}
		}
	}
	if msg == "" {
		fmt.Fprintln(os.Stderr, "holds")
		return 0
	}
	fmt.Fprintln(os.Stderr, "**", msg)
	return 1
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(800)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null // the library prints
	}
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	if len(os.Args) == 3 && os.Args[1] == "list" {
		for _, tier := range []string{"quick", "thorough"} {
			ps := suites[os.Args[2]](tier)
			fmt.Fprintln(os.Stderr, tier, len(ps))
		}
		return
	}
	prop, tier := os.Args[1], os.Args[2]
	shard, _ := strconv.Atoi(os.Args[3])
	shards, _ := strconv.Atoi(os.Args[4])
	secs, _ := strconv.Atoi(os.Args[5])
	out := os.Args[6]
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	rep := &report{Detecting: vsched.Detecting}
	write := func() {
		b, _ := json.Marshal(rep)
		_ = os.WriteFile(out+".tmp", b, 0o644)
		_ = os.Rename(out+".tmp", out)
	}
	for i, p := range suites[prop](tier) {
		if i%shards != shard {
			continue
		}
		if only := os.Getenv("VERIF_CONC_ONLY"); only != "" && !strings.Contains(p.name, only) {
			continue
		}
		if time.Now().After(deadline) {
			rep.Skipped++
			continue
		}
		p := p
		_ = os.WriteFile(out+".now", []byte(p.name), 0o644)
		t0 := time.Now()
		n0 := rep.Schedules
		v := explore(&p, rep, deadline)
		rep.Programs++
		if os.Getenv("VERIF_CONC_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "%-60s %7d schedules %v\n", p.name, rep.Schedules-n0, time.Since(t0))
		}
		if v != nil {
			rep.Violation = v
			break
		}
	}
	rep.Done = true
	write()
}
