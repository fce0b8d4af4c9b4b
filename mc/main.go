// Command mc decides the properties of /verif/properties.jsonl by exhaustive
// exploration of the real wampproto-go code (see DESIGN.md).
//
//	mc <property>            run one check (tier from VERIF_TIER)
//	mc replay <file.json>    replay a recorded violation
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Ctx is the context of one check run.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int64
	Root     string
	Start    time.Time
	Deadline time.Time

	Cov         map[string]any
	Assumptions []string
	Level       string
	Exhaustive  bool
	States      int64
	Transitions int64
	Traces      int64
	Evals       int64
	Distinct    int64
	Rule        string
	Samples     []any
	Parts       []map[string]any
	Known       []string
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Quick() {
		return q
	}
	return t
}

func (c *Ctx) Sample(v any) {
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, v)
	}
}

// Violation is a broken property with everything needed to replay it.
type Violation struct {
	Message string `json:"message"`
	Config  string `json:"config,omitempty"`
	Ops     []Op   `json:"ops,omitempty"`
	Case    any    `json:"case,omitempty"`
	Note    string `json:"note,omitempty"`
}

type check struct {
	level string
	run   func(*Ctx) *Violation
}

var checks = map[string]check{}

func register(id, level string, run func(*Ctx) *Violation) { checks[id] = check{level, run} }

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func newCtx(id string) *Ctx {
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{Prop: id, Tier: tier, Seed: seed, Root: envOr("VERIF_ROOT", "/verif"),
		Start: time.Now(), Cov: map[string]any{}, Exhaustive: true, Level: checks[id].level}
	lim := 300 * time.Second
	if tier == "thorough" {
		lim = 40 * time.Minute
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_LIMIT_S")); err == nil && v > 0 {
		lim = time.Duration(v) * time.Second
	}
	c.Deadline = c.Start.Add(lim)
	return c
}

func (c *Ctx) writeEvidence(violations int) {
	cov := c.Cov
	if cov == nil {
		cov = map[string]any{}
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = c.States
		cov["transitions"] = c.Transitions
		cov["traces_validated_against_impl"] = c.Traces
	default:
		cov["evaluations"] = c.Evals
		cov["distinct_nontrivial"] = c.Distinct
		cov["rule"] = c.Rule
	}
	if len(c.Samples) == 0 {
		c.Samples = []any{"(stopped before a sample was taken)"}
	}
	cov["samples"] = c.Samples
	if len(c.Parts) > 0 {
		cov["parts"] = c.Parts
	}
	cov["exhaustive"] = c.Exhaustive
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": violations,
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	if len(c.Known) > 0 {
		ev["known_findings"] = c.Known
	}
	writeJSON(filepath.Join(c.Root, "evidence", c.Prop+".json"), ev)
}

func writeJSON(path string, v any) {
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("{\"error\":%q,\"value\":%q}", err.Error(), fmt.Sprintf("%+v", v)))
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "write:", err)
	}
	_ = os.Rename(tmp, path)
}

func (c *Ctx) report(v *Violation) int {
	p := filepath.Join(c.Root, "replays", c.Prop+".json")
	writeJSON(p, map[string]any{"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "violation": v})
	fmt.Printf("%s\n", v.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
	return 1
}

func runCheck(id string) int {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	c := newCtx(id)
	startWatchdog(c)
	v := ck.run(c)
	for _, k := range c.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if v != nil {
		c.writeEvidence(1)
		return c.report(v)
	}
	c.writeEvidence(0)
	fmt.Printf("OK %s tier=%s states=%d transitions=%d evaluations=%d exhaustive=%v wall=%.1fs\n",
		id, c.Tier, c.States, c.Transitions, c.Evals, c.Exhaustive, time.Since(c.Start).Seconds())
	return 0
}

// supervise runs the check in a child process, so that a crash of the code under
// test that Go cannot recover from (fatal error, stack overflow) is reported as
// what it is.
func supervise(id string) int {
	for attempt := 0; ; attempt++ {
		cmd := exec.Command(os.Args[0], "--child", id)
		crumbs := ""
		if d, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "crumbs"); err == nil {
			defer os.RemoveAll(d)
			crumbs = filepath.Join(d, "c")
			cmd.Env = append(os.Environ(), "VERIF_CRUMBS="+crumbs)
		}
		var out, errb tail
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		code := 0
		if err != nil {
			code = 2
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		if code == 0 || code == 1 {
			fmt.Print(out.String())
			fmt.Fprint(os.Stderr, errb.String())
			return code
		}
		text := errb.String() + out.String()
		if v := rerunCrumbs(readCrumbs(crumbs)); v != nil {
			c := newCtx(id)
			c.Exhaustive = false
			c.Samples = []any{v.Case}
			c.writeEvidence(1)
			return c.report(v)
		}
		crash := (strings.Contains(text, "fatal error: ") || strings.Contains(text, "panic: ")) &&
			strings.Contains(text, "/repo/") && !strings.Contains(text, "out of memory")
		// out of memory: only in a check whose own needs are small, and only if the
		// goroutine that asked for the memory is inside the library
		if limited(id) && strings.Contains(text, "out of memory") {
			if i := strings.Index(text, "\ngoroutine "); i >= 0 {
				g, _, _ := strings.Cut(text[i+1:], "\n\n")
				crash = strings.Contains(g, "/repo/") || len(libraryCalls(text[i+1:])) > 0
			}
		}
		if attempt < 1 {
			continue
		}
		fmt.Fprint(os.Stderr, text)
		if crash {
			c := newCtx(id)
			c.Exhaustive = false
			c.Samples = []any{firstLines(text, 30)}
			c.writeEvidence(1)
			return c.report(&Violation{Message: "the library crashed the process: " + firstLines(text, 3), Case: text})
		}
		return 2
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// tail keeps the first 64 kB written to it.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc <property> | mc replay <file>")
		os.Exit(2)
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "--child":
		limitMemory(os.Args[2])
		os.Exit(runCheck(os.Args[2]))
	case "--one":
		limitMemory("--one")
		os.Exit(decodeOne(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "bfs": // development: mc bfs <property> <config>...
		c := newCtx(os.Args[2])
		startWatchdog(c)
		for _, n := range os.Args[3:] {
			t, s0, t0 := time.Now(), c.States, c.Transitions
			v := runCfgs(c, nil, n)
			fmt.Printf("%s states=%d transitions=%d %.1fs\n", n, c.States-s0, c.Transitions-t0, time.Since(t).Seconds())
			if v != nil {
				os.Exit(c.report(v))
			}
		}
	case "scripts": // development: mc scripts <property>
		c := newCtx(os.Args[2])
		t := time.Now()
		v := runScripts(c)
		fmt.Println(c.Cov, time.Since(t))
		if v != nil {
			os.Exit(c.report(v))
		}
	case "genchal": // helper process of C18
		genChalHelper()
	case "instr":
		instrCmd(os.Args[2])
	case "c28solo": // helper processes of C28
		c28soloHelper(os.Args[2:])
	case "c28shard":
		c28shard(os.Args[2:])
	case "genid": // helper process of C13
		genIDHelper()
	default:
		os.Exit(supervise(os.Args[1]))
	}
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property  string
		Violation Violation
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if r.Violation.Config == concConfig {
		return replayConc(path)
	}
	f, ok := configs()[r.Violation.Config]
	if !ok {
		fmt.Printf("property %s: %s\ncase: %v\n(not an operation history: rerunning the whole check, which is deterministic)\n",
			r.Property, r.Violation.Message, r.Violation.Case)
		return supervise(r.Property)
	}
	s := f()
	bad := 0
	for i, op := range r.Violation.Ops {
		fails := safeDo(s, op)
		fmt.Printf("%2d %s\n", i+1, op)
		for _, x := range fails {
			fmt.Printf("     ** %v %s\n", x.Tags, x.Msg)
			if x.has(r.Property) {
				bad = 1
			}
		}
	}
	if sc := stateChecks[r.Property]; sc != nil {
		for _, x := range sc(r.Violation.Config)(s, r.Violation.Ops) {
			fmt.Printf("     ** %v %s\n", x.Tags, x.Msg)
			bad = 1
		}
	}
	return bad
}
