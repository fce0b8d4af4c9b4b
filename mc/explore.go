package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Op is one symbolic operation.
type Op struct {
	N string `json:"n"`
	A []int  `json:"a,omitempty"`
}

func (o Op) String() string {
	if len(o.A) == 0 {
		return o.N
	}
	s := make([]string, len(o.A))
	for i, a := range o.A {
		s[i] = fmt.Sprint(a)
	}
	return o.N + "(" + strings.Join(s, ",") + ")"
}

// Fail is a disagreement between the real code and the reference model.
// Tags name the properties it breaks ("*": every one). A Hard failure leaves the
// model out of step, so the branch is not explored further.
type Fail struct {
	Tags  []string
	Msg   string
	Hard  bool
	Known string // matches a known finding
}

func (f Fail) has(p string) bool {
	for _, t := range f.Tags {
		if t == "*" || t == p {
			return true
		}
	}
	return false
}

// Sys is a real object driven in lockstep with its reference model.
type Sys interface {
	Ops() []Op
	Do(Op) []Fail
	Key() []byte
}

// Probe is implemented by systems that know which operations should leave the
// state as it is: those are run in one batch, and the state is compared after it.
type Probe interface{ SelfLoop(Op) bool }

// Tracer renders an op for humans.
type Tracer interface{ Describe(Op) string }

type key [16]byte

func hashKey(b []byte) key {
	h := sha256.Sum256(b)
	var k key
	copy(k[:], h[:16])
	return k
}

// ---- watchdog: an operation that never returns ----

type beat struct {
	since atomic.Int64
	what  atomic.Value
}

var (
	beatsMu sync.Mutex
	beats   []*beat
)

func newBeat() *beat {
	b := &beat{}
	beatsMu.Lock()
	beats = append(beats, b)
	beatsMu.Unlock()
	return b
}

type hangInfo struct {
	cfg  string
	hist []Op
	op   Op
}

const stateCheckOp = "the checks made in this state"

const hangLimit = 40 * time.Second

func startWatchdog(c *Ctx) {
	go watchTasks(c)
	go watchOverall(c)
	go func() {
		for {
			time.Sleep(2 * time.Second)
			beatsMu.Lock()
			bs := append([]*beat{}, beats...)
			beatsMu.Unlock()
			for _, b := range bs {
				t := b.since.Load()
				if t == 0 || time.Since(time.Unix(0, t)) < hangLimit {
					continue
				}
				hi, _ := b.what.Load().(hangInfo)
				if !confirmHang(c, hi) {
					b.since.Store(time.Now().UnixNano())
					continue
				}
				c.Exhaustive = false
				c.Sample(fmt.Sprint("hang: ", hi.hist, " then ", hi.op))
				c.writeEvidence(1)
				os.Exit(c.report(&Violation{Message: fmt.Sprintf("operation %s never returns (after %v)", hi.op, hi.hist),
					Config: hi.cfg, Ops: append(append([]Op{}, hi.hist...), hi.op)}))
			}
		}
	}()
}

// confirmHang re-runs the operation three times on fresh objects.
func confirmHang(c *Ctx, h hangInfo) bool {
	f, ok := configs()[h.cfg]
	if !ok {
		return true
	}
	var done atomic.Int32
	for i := 0; i < 3; i++ {
		go func() {
			s := f()
			for _, o := range h.hist {
				safeDo(s, o)
			}
			if h.op.N == stateCheckOp {
				stateChecks[c.Prop](h.cfg)(s, h.hist)
			} else {
				safeDo(s, h.op)
			}
			done.Add(1)
		}()
	}
	time.Sleep(20 * time.Second)
	return done.Load() == 0
}

// safeDo performs an op; a panic of the code under test becomes a failure.
func safeDo(s Sys, op Op) (fails []Fail) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			fails = append(fails, Fail{Tags: []string{"*"}, Msg: fmt.Sprintf("panic in %s: %v\n%s", op, r, trimStack(st)), Hard: true})
		}
	}()
	return s.Do(op)
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "wampproto") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type node struct {
	parent int32
	op     Op
	k      key
	depth  int16
}

// BFSResult is what one exhaustive search covered.
type BFSResult struct {
	States, Transitions, Diverged int64
	Depth                         int
	Complete                      bool
	Capped                        string
	Violation                     *Violation
	Known                         map[string]int64
}

// BFS explores every reachable state of the system, breadth first, to the
// fixpoint or to maxDepth. onState is called once per new state (may be nil).
func BFS(c *Ctx, cfg string, mk func() Sys, maxDepth int, maxStates int,
	onState func(s Sys, hist []Op) []Fail) BFSResult {

	res := BFSResult{Known: map[string]int64{}}
	nodes := []node{}
	hist := func(i int32) []Op {
		var h []Op
		for i > 0 {
			h = append(h, nodes[i].op)
			i = nodes[i].parent
		}
		for a, b := 0, len(h)-1; a < b; a, b = a+1, b-1 {
			h[a], h[b] = h[b], h[a]
		}
		return h
	}
	root := mk()
	nodes = append(nodes, node{parent: -1, k: hashKey(root.Key())})
	seen := map[key]int32{nodes[0].k: 0}

	type succ struct {
		op Op
		k  key
	}
	type outT struct {
		succ  []succ
		trans int64
		div   int64
		viol  *Violation
		known map[string]int64
	}
	frontier := []int32{0}
	workers := runtime.NumCPU()
	for depth := 0; len(frontier) > 0; depth++ {
		res.Depth = depth
		if maxDepth > 0 && depth >= maxDepth {
			res.Capped = fmt.Sprintf("depth %d", maxDepth)
			break
		}
		outs := make([]outT, len(frontier))
		var next atomic.Int64
		var stop atomic.Bool
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := newBeat()
				for {
					i := int(next.Add(1) - 1)
					if i >= len(frontier) || stop.Load() {
						return
					}
					if time.Now().After(c.Deadline) {
						stop.Store(true)
						return
					}
					n := frontier[i]
					h := hist(n)
					o := &outs[i]
					fresh := func() Sys {
						for try := 0; ; try++ {
							s := mk()
							for _, op := range h {
								b.what.Store(hangInfo{cfg, h, op})
								b.since.Store(time.Now().UnixNano())
								safeDo(s, op)
								b.since.Store(0)
							}
							if hashKey(s.Key()) == nodes[n].k {
								return s
							}
							if try == 20 {
								o.div++
								return nil
							}
						}
					}
					s := fresh()
					if s == nil {
						continue
					}
					record := func(fails []Fail, ops []Op, pre Sys) bool {
						for _, f := range fails {
							if f.Known != "" && f.has(c.Prop) && knownListed(c.Root, c.Prop, f.Known) {
								if o.known == nil {
									o.known = map[string]int64{}
								}
								o.known[f.Known]++
								continue
							}
							if f.has(c.Prop) {
								o.viol = &Violation{Message: f.Msg, Config: cfg, Ops: append([]Op{}, ops...)}
								stop.Store(true)
								return true
							}
						}
						return false
					}
					if onState != nil {
						b.what.Store(hangInfo{cfg, h, Op{N: stateCheckOp}})
						b.since.Store(time.Now().UnixNano())
						sf := onState(s, h)
						b.since.Store(0)
						if record(sf, h, s) {
							return
						}
						s = fresh()
						if s == nil {
							continue
						}
					}
					actual := append([]Op{}, h...)
					ops := s.Ops()
					if pr, ok := s.(Probe); ok {
						nProbe := 0
						for nProbe < len(ops) && pr.SelfLoop(ops[nProbe]) {
							nProbe++
						}
						clean := true
						for _, op := range ops[:nProbe] {
							b.what.Store(hangInfo{cfg, actual, op})
							b.since.Store(time.Now().UnixNano())
							fails := safeDo(s, op)
							b.since.Store(0)
							o.trans++
							actual = append(actual, op)
							if record(fails, actual, s) {
								return
							}
							for _, f := range fails {
								clean = clean && !f.Hard
							}
							if !clean {
								break
							}
						}
						if clean && hashKey(s.Key()) == nodes[n].k {
							ops = ops[nProbe:] // all of them left the state unchanged
						} else {
							s = nil // look at each of them separately
						}
					}
					for _, op := range ops {
						if s == nil {
							if s = fresh(); s == nil {
								break
							}
							actual = append([]Op{}, h...)
						}
						b.what.Store(hangInfo{cfg, actual, op})
						b.since.Store(time.Now().UnixNano())
						fails := safeDo(s, op)
						b.since.Store(0)
						o.trans++
						actual = append(actual, op)
						if record(fails, actual, s) {
							// prefer the shorter history if it fails as well
							s2 := mk()
							for _, op2 := range h {
								safeDo(s2, op2)
							}
							for _, f := range safeDo(s2, op) {
								if f.has(c.Prop) && (f.Known == "" || !knownListed(c.Root, c.Prop, f.Known)) {
									o.viol = &Violation{Message: f.Msg, Config: cfg, Ops: append(append([]Op{}, h...), op)}
								}
							}
							return
						}
						hard := false
						for _, f := range fails {
							hard = hard || f.Hard
						}
						if hard {
							s = nil
							continue
						}
						k := hashKey(s.Key())
						if k == nodes[n].k && len(actual)-len(h) < 200 {
							continue // self loop: the instance is still in this state
						}
						if k != nodes[n].k {
							o.succ = append(o.succ, succ{op, k})
						}
						s = nil
					}
				}
			}()
		}
		wg.Wait()
		var nf []int32
		for i := range outs {
			o := &outs[i]
			res.Transitions += o.trans
			res.Diverged += o.div
			for k, v := range o.known {
				res.Known[k] += v
			}
			if o.viol != nil && res.Violation == nil {
				res.Violation = o.viol
			}
			for _, sc := range o.succ {
				if _, ok := seen[sc.k]; ok {
					continue
				}
				id := int32(len(nodes))
				seen[sc.k] = id
				nodes = append(nodes, node{parent: frontier[i], op: sc.op, k: sc.k, depth: int16(depth + 1)})
				nf = append(nf, id)
			}
		}
		res.States = int64(len(nodes))
		if res.Violation != nil {
			return res
		}
		if stop.Load() {
			res.Capped = "time"
			break
		}
		if maxStates > 0 && len(nodes) > maxStates {
			res.Capped = fmt.Sprintf("%d states", maxStates)
			break
		}
		frontier = nf
	}
	res.States = int64(len(nodes))
	res.Complete = res.Capped == "" && res.Diverged == 0
	// a few sample histories, the deepest ones
	for i := len(nodes) - 1; i > 0 && i > len(nodes)-3; i-- {
		h := hist(int32(i))
		ss := make([]string, len(h))
		sys := mk()
		for j, op := range h {
			if t, ok := sys.(Tracer); ok {
				ss[j] = t.Describe(op)
			} else {
				ss[j] = op.String()
			}
			safeDo(sys, op)
		}
		c.Sample(map[string]any{"config": cfg, "history": ss})
	}
	return res
}

// RunBFS runs BFS on a named configuration and folds the result into the evidence.
func RunBFS(c *Ctx, cfg string, maxDepth, maxStates int, onState func(Sys, []Op) []Fail) *Violation {
	mk := configs()[cfg]
	if mk == nil {
		panic("no configuration " + cfg)
	}
	t0 := time.Now()
	r := BFS(c, cfg, mk, maxDepth, maxStates, onState)
	c.States += r.States
	c.Transitions += r.Transitions
	c.Traces += r.States // every state is reached by replaying its history on the real objects
	part := map[string]any{"config": cfg, "states": r.States, "transitions": r.Transitions, "depth": r.Depth,
		"complete": r.Complete, "wall_s": time.Since(t0).Seconds()}
	if r.Capped != "" {
		part["capped"] = r.Capped
	}
	if r.Diverged > 0 {
		part["diverged"] = r.Diverged
	}
	c.Parts = append(c.Parts, part)
	if !r.Complete && !(maxDepth > 0 && strings.HasPrefix(r.Capped, "depth")) {
		c.Exhaustive = false
	}
	for k, n := range r.Known {
		c.addKnown(k)
		part["known: "+k] = n
	}
	if r.Violation != nil {
		v := r.Violation
		n := 0
		for i := 0; i < 5; i++ {
			s := mk()
			hit := false
			for j, op := range v.Ops {
				for _, f := range safeDo(s, op) {
					if f.has(c.Prop) && (f.Known == "" || !knownListed(c.Root, c.Prop, f.Known)) && j == len(v.Ops)-1 {
						hit = true
					}
				}
			}
			if !hit && onState != nil {
				for _, f := range onState(s, v.Ops) {
					hit = hit || f.has(c.Prop)
				}
			}
			if hit {
				n++
			}
		}
		v.Note = fmt.Sprintf("reproduced %d of 5 times when replayed", n)
		desc := ""
		s := mk()
		for _, op := range v.Ops {
			if t, ok := s.(Tracer); ok {
				desc += "\n    " + t.Describe(op)
			} else {
				desc += "\n    " + op.String()
			}
			safeDo(s, op)
		}
		v.Message = fmt.Sprintf("%s\n  config %s, history:%s", v.Message, cfg, desc)
	}
	return r.Violation
}

var (
	knownOnce sync.Once
	knownSet  map[string]bool
)

// knownListed: is this finding listed in the committed known-findings file?
func knownListed(root, prop, k string) bool {
	knownOnce.Do(func() {
		knownSet = map[string]bool{}
		b, _ := os.ReadFile(root + "/KNOWN_FINDINGS.txt")
		for _, l := range strings.Split(string(b), "\n") {
			knownSet[strings.TrimSpace(l)] = true
		}
	})
	return knownSet["KNOWN-FINDING: property="+prop+" "+k]
}

func (c *Ctx) addKnown(k string) {
	for _, o := range c.Known {
		if o == k {
			return
		}
	}
	c.Known = append(c.Known, k)
}

var cfgReg = map[string]func() Sys{}

func configs() map[string]func() Sys { return cfgReg }
