package main

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The checks that feed arbitrary bytes to the decoders note every case in a shared
// file while it runs. When the process dies of something Go cannot recover from, or
// a case does not come to an end, the case is run again on its own: only a case that
// fails by itself is reported.

const (
	crumbSlots = 64
	crumbSize  = 8192
)

var (
	crumbMem  []byte
	crumbOnce sync.Once
	crumbNext atomic.Int64
	crumbFree = sync.Pool{New: func() any {
		return int(crumbNext.Add(1)-1) % crumbSlots // the collector drops some: start over
	}}
)

func crumbInit() {
	p := os.Getenv("VERIF_CRUMBS")
	if p == "" {
		return
	}
	f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return
	}
	defer f.Close()
	if f.Truncate(crumbSlots*crumbSize) != nil {
		return
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, crumbSlots*crumbSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return
	}
	crumbMem = m
}

// crumbStart notes that what is about to be done with b; the result goes to crumbDone.
func crumbStart(what string, b []byte) int {
	crumbOnce.Do(crumbInit)
	if crumbMem == nil || len(b)+len(what)+8 > crumbSize {
		return -1
	}
	s := crumbFree.Get().(int)
	m := crumbMem[s*crumbSize:]
	binary.LittleEndian.PutUint16(m[4:], uint16(len(what)))
	binary.LittleEndian.PutUint16(m[6:], uint16(len(b)))
	copy(m[8:], what)
	copy(m[8+len(what):], b)
	m[0] = 1
	return s
}

func crumbDone(s int) {
	if s >= 0 {
		crumbMem[s*crumbSize] = 0
		crumbFree.Put(s)
	}
}

type crumb struct {
	what string
	b    []byte
}

func readCrumbs(path string) (out []crumb) {
	m, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for ; len(m) >= crumbSize; m = m[crumbSize:] {
		if m[0] == 0 {
			continue
		}
		w, n := int(binary.LittleEndian.Uint16(m[4:])), int(binary.LittleEndian.Uint16(m[6:]))
		if 8+w+n <= crumbSize {
			out = append(out, crumb{string(m[8 : 8+w]), append([]byte{}, m[8+w:8+w+n]...)})
		}
	}
	return out
}

// rerunCrumbs runs every noted case in a process of its own.
func rerunCrumbs(cs []crumb) *Violation {
	for _, c := range cs {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, os.Args[0], "--one", c.what, hex.EncodeToString(c.b))
		var out tail
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		late := ctx.Err() != nil
		cancel()
		if err == nil {
			continue
		}
		how := "kills the process: " + firstLines(out.String(), 2)
		if late {
			how = "does not come to an end within 60 s"
		}
		return &Violation{Message: fmt.Sprintf("decoding %d bytes as %s %s\n  bytes %x", len(c.b), c.what, how, c.b),
			Case: map[string]any{"decoder": c.what, "bytes": fmt.Sprintf("%x", c.b)}, Note: firstLines(out.String(), 60)}
	}
	return nil
}

// decodeOne decodes one byte string with one decoder.
func decodeOne(what, hx string) int {
	b, err := hex.DecodeString(hx)
	if err != nil {
		return 2
	}
	for _, s := range allSerializers {
		if "message/"+s.name == what {
			_, _ = s.s.Deserialize(b)
			return 0
		}
	}
	for _, cd := range codecs() {
		if cd.name == what {
			_, _, _ = cd.dec(b)
			return 0
		}
	}
	return 2
}

// limitMemory makes an absurd allocation fail in this process instead of taking the
// machine's memory. The decoding checks use less than 2 GB on code that holds.
func limited(id string) bool {
	return id == "C21" || id == "C22" || id == "C23" || id == "C30" || id == "--one"
}

func limitMemory(id string) {
	if limited(id) {
		lim := uint64(12 << 30)
		_ = syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: lim, Max: lim})
	}
}

// ---- an enumerated case that never returns ----

type task struct {
	cur  atomic.Int64 // index+1 of the case under way, 0: none
	f    func(i int) string
	seen int64
	at   time.Time
}

var (
	tasksMu sync.Mutex
	tasks   = map[*task]bool{}
)

const taskLimit = 90 * time.Second

func watchTasks(c *Ctx) {
	for {
		time.Sleep(3 * time.Second)
		tasksMu.Lock()
		var old []*task
		for t := range tasks {
			if cur := t.cur.Load(); cur == 0 || cur != t.seen {
				t.seen, t.at = cur, time.Now()
			} else if time.Since(t.at) > taskLimit {
				old = append(old, t)
			}
		}
		tasksMu.Unlock()
		for _, t := range old {
			i := int(t.seen - 1)
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() { _ = recover() }()
				t.f(i)
			}()
			select {
			case <-done:
				t.at = time.Now()
				continue
			case <-time.After(45 * time.Second):
			}
			if t.cur.Load() != int64(i+1) {
				continue
			}
			st := stuckIn(allStacks())
			c.Exhaustive = false
			c.Sample(fmt.Sprint("case that never returns: ", i))
			c.writeEvidence(1)
			os.Exit(c.report(&Violation{Message: fmt.Sprintf("case %d of the enumeration does not come to an end (the code is in %s)", i, st), Case: i,
				Note: fmt.Sprint(readCrumbs(os.Getenv("VERIF_CRUMBS")))}))
		}
	}
}

func allStacks() string {
	b := make([]byte, 1<<22)
	return string(b[:runtime.Stack(b, true)])
}

// libraryCalls gives, per goroutine, the part of its stack from the outermost call
// into the library outwards, with the arguments.
func libraryCalls(stacks string) map[string]string {
	out := map[string]string{}
	for _, g := range strings.Split(stacks, "\n\n") {
		l := strings.Split(g, "\n")
		id := strings.Fields(l[0])
		if len(id) < 2 {
			continue
		}
		last := -1
		for i, x := range l {
			if strings.HasPrefix(x, "\t") && strings.Contains(x, "/repo/") {
				last = i
			}
		}
		if last > 0 {
			// the position inside the entry function may move; its callers may not
			out[id[1]] = strings.Join(append([]string{l[last-1]}, l[last+1:]...), "\n")
		}
	}
	return out
}

func stuckIn(stacks string) string {
	for _, s := range libraryCalls(stacks) {
		return firstLines(s, 1)
	}
	return "no library call"
}

// watchOverall is the last resort, for calls that no other watchdog sees: when the
// check has taken far longer than it ever does, and one goroutine stays inside one
// and the same call into the library, that call is reported.
func watchOverall(c *Ctx) {
	after := 10 * time.Minute
	if !c.Quick() {
		after = 55 * time.Minute
	}
	time.Sleep(after)
	for {
		a := libraryCalls(allStacks())
		for n := 0; n < 4 && len(a) > 0; n++ {
			time.Sleep(15 * time.Second)
			b := libraryCalls(allStacks())
			for g, s := range a {
				if b[g] != s {
					delete(a, g)
				}
			}
		}
		for _, s := range a {
			c.Exhaustive = false
			c.Sample("call that never returns: " + firstLines(s, 2))
			c.writeEvidence(1)
			os.Exit(c.report(&Violation{Message: "a call into the library does not come to an end: " + firstLines(s, 1), Case: s}))
		}
		time.Sleep(15 * time.Second)
	}
}
