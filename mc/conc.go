package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
)

// C12, C13, C14: controlled-concurrency exploration of the instrumented library
// by the separate command conc (see conc/, _shim/ and instr.go).

const concConfig = "schedules"

func mcDir(root string) string { return envOr("VERIF_MC", filepath.Join(root, "mc")) }

// buildConc builds the explorer against the instrumented working tree.
func buildConc(root, dir string) (bin, how string, files int, err error) {
	repo := envOr("VERIF_REPO", "/repo")
	var log string
	for _, v := range []struct {
		how   string
		rand  bool
		flags []string
	}{
		{"race detector, scripted randomness", true, []string{"-race"}},
		{"race detector", false, []string{"-race"}},
		{"no race detector", true, nil},
	} {
		d := filepath.Join(dir, strings.ReplaceAll(v.how, " ", "-"))
		overlay, n, err := instrument(repo, filepath.Join(mcDir(root), "_shim"), d, v.rand)
		if err != nil {
			log += err.Error() + "\n"
			continue
		}
		bin = filepath.Join(d, "conc")
		cmd := exec.Command("go", append(append([]string{"build"}, v.flags...), "-overlay", overlay, "-o", bin, "./conc")...)
		cmd.Dir = mcDir(root)
		out, err := cmd.CombinedOutput()
		if err == nil {
			return bin, v.how, n, nil
		}
		log += v.how + ":\n" + string(out)
	}
	return "", "", 0, fmt.Errorf("%s", log)
}

type concViolation struct {
	Program string     `json:"program"`
	Message string     `json:"message"`
	Trace   []int      `json:"trace"`
	Results [][]string `json:"results,omitempty"`
	After   []string   `json:"after,omitempty"`
	Report  string     `json:"report,omitempty"`
}

type concReport struct {
	Programs, Skipped, Truncated                     int
	Schedules, Steps, Outcomes, Sequential, Diverged int64
	MaxSched                                         int64
	Detecting                                        bool
	Samples                                          []any
	Violation                                        *concViolation
	Done                                             bool
}

func workDir() (string, func()) {
	if w := os.Getenv("VERIF_WORK"); w != "" {
		return w, func() {}
	}
	d, err := os.MkdirTemp("", "verif-conc")
	if err != nil {
		panic(err)
	}
	return d, func() { _ = os.RemoveAll(d) }
}

func runConc(c *Ctx, shards int) *Violation {
	dir, clean := workDir()
	defer clean()
	bin, how, files, err := buildConc(c.Root, dir)
	if err != nil {
		// not a statement about the property
		fmt.Println("the instrumented library does not build; nothing explored")
		fmt.Fprintln(os.Stderr, err)
		c.Exhaustive = false
		c.Cov["instrumented_build"] = firstLines(err.Error(), 20)
		return nil
	}
	secs := int(time.Until(c.Deadline).Seconds())
	if c.Quick() && secs > 420 {
		secs = 420
	}
	reports := make([]concReport, shards)
	logs := make([]string, shards)
	notes := make([]string, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprintf("conc%d.json", i))
			cmd := exec.Command(bin, c.Prop, c.Tier, fmt.Sprint(i), fmt.Sprint(shards), fmt.Sprint(secs), out)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=3", "GOMAXPROCS=1", "GOTRACEBACK=all")
			var errb tail
			cmd.Stderr = &errb
			if err := cmd.Start(); err != nil {
				notes[i] = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			now := func() string {
				b, _ := os.ReadFile(out + ".now")
				return string(b)
			}
			last, since := "", time.Now()
			tick := time.NewTicker(time.Second)
			defer tick.Stop()
		loop:
			for {
				select {
				case <-done:
					break loop
				case <-tick.C:
					if n := now(); n != last {
						last, since = n, time.Now()
					}
					if time.Since(since) > 240*time.Second && time.Since(since) > time.Duration(secs)*time.Second {
						_ = cmd.Process.Kill()
						notes[i] = "no progress in " + last
						<-done
						break loop
					}
				}
			}
			logs[i] = errb.String()
			b, err := os.ReadFile(out)
			if err == nil {
				_ = json.Unmarshal(b, &reports[i])
			}
			if !reports[i].Done && notes[i] == "" {
				notes[i] = "stopped in " + now() + ": " + firstLines(errb.String(), 6)
			}
		}(i)
	}
	wg.Wait()
	var sum concReport
	var v *Violation
	for i, r := range reports {
		sum.Programs += r.Programs
		sum.Skipped += r.Skipped
		sum.Truncated += r.Truncated
		sum.Schedules += r.Schedules
		sum.Steps += r.Steps
		sum.Outcomes += r.Outcomes
		sum.Sequential += r.Sequential
		sum.Diverged += r.Diverged
		if r.MaxSched > sum.MaxSched {
			sum.MaxSched = r.MaxSched
		}
		for _, s := range r.Samples {
			c.Sample(s)
		}
		if notes[i] != "" {
			// a stuck or crashed explorer says nothing by itself
			c.Exhaustive = false
			fmt.Println("note:", notes[i])
			c.Cov[fmt.Sprintf("shard_%d", i)] = notes[i]
		}
		if r.Violation != nil && v == nil {
			x := *r.Violation
			if strings.HasPrefix(x.Message, "data race") {
				x.Report = raceReport(logs[i])
				x.Message += "\n" + firstLines(x.Report, 24)
			}
			v = &Violation{Message: x.Program + ": " + x.Message, Config: concConfig, Case: x,
				Note: fmt.Sprintf("results %v, then %v", x.Results, x.After)}
		}
	}
	if sum.Truncated > 0 || sum.Skipped > 0 {
		c.Exhaustive = false
	}
	c.States += sum.Outcomes
	c.Transitions += sum.Steps
	c.Traces += sum.Schedules
	c.Cov["schedules"] = sum.Schedules
	c.Cov["programs"] = sum.Programs
	c.Cov["programs_not_reached"] = sum.Skipped
	c.Cov["programs_truncated"] = sum.Truncated
	c.Cov["largest_program_schedules"] = sum.MaxSched
	c.Cov["sequential_orders"] = sum.Sequential
	c.Cov["distinct_outcomes"] = sum.Outcomes
	c.Cov["replays_that_diverged"] = sum.Diverged
	c.Cov["instrumented_files"] = files
	c.Cov["build"] = how
	c.Assumptions = append(c.Assumptions,
		"schedules up to the preemption bound named with each program; third-party packages run without scheduling points",
		"sync, sync/atomic and the random sources are replaced by equivalents under the scheduler's control",
		"states: distinct observable outcomes; transitions: scheduling points passed; traces: schedules executed on the real code")
	return v
}

var raceRE = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?==================`)

func raceReport(log string) string {
	if m := raceRE.FindString(log); m != "" {
		return m
	}
	return log
}

func replayConc(path string) int {
	dir, clean := workDir()
	defer clean()
	bin, _, _, err := buildConc(envOr("VERIF_ROOT", "/verif"), dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(bin, "replay", path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0", "GOMAXPROCS=1")
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode()
		}
		return 2
	}
	return 0
}

// genIDHelper prints the first ids a new process draws.
func genIDHelper() {
	for i := 0; i < 8; i++ {
		fmt.Println(wampproto.GenerateID())
	}
}

// idProcesses: separate processes do not draw the same ids.
func idProcesses(c *Ctx) *Violation {
	n := Pick(c, 16, 64)
	seen := map[string]int{}
	type res struct {
		i   int
		out string
		err error
	}
	ch := make(chan res, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			out, err := exec.Command(os.Args[0], "genid").Output()
			ch <- res{i, string(out), err}
		}(i)
	}
	bad := 0
	var v *Violation
	for i := 0; i < n; i++ {
		r := <-ch
		if r.err != nil {
			bad++
			continue
		}
		for k, id := range strings.Fields(r.out) {
			if j, ok := seen[id]; ok && j != r.i && v == nil {
				v = &Violation{Message: fmt.Sprintf("two separate processes both draw the global id %s (draw %d)", id, k+1), Case: r.out}
			}
			seen[id] = r.i
		}
	}
	if bad > 0 {
		c.Exhaustive = false
		c.Cov["id_processes_failed"] = bad
	}
	c.Cov["id_processes"] = n - bad
	c.Cov["ids_of_processes"] = len(seen)
	return v
}

func init() {
	register("C12", "model_checking", func(c *Ctx) *Violation { return runConc(c, 8) })
	register("C13", "model_checking", func(c *Ctx) *Violation {
		if v := idProcesses(c); v != nil {
			return v
		}
		return runConc(c, 8)
	})
	register("C14", "model_checking", func(c *Ctx) *Violation { return runConc(c, 8) })
}
