package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

var injCount atomic.Int64

// residual is implemented by systems whose retained state can be measured.
type residual interface {
	Sys
	idle() bool       // nothing subscribed, registered or outstanding
	attState() string // who is attached
	size() int        // retained entries of the real object
	shift(int)        // use other request ids from here on
	modelKey() string
	dump() string
}

// residueCheck: a history that brings the router back to where it started, by the
// model, may leave bounded garbage at most: repeating it must not grow the state.
func residueCheck(cfg string) func(Sys, []Op) []Fail {
	mk := configs()[cfg]
	init := mk().(residual)
	att0, dump0, size0 := init.attState(), init.dump(), init.size()
	return func(sys Sys, h []Op) []Fail {
		s := sys.(residual)
		if len(h) == 0 {
			return nil
		}
		if s.idle() && s.attState() == att0 && (s.size() > size0 || s.dump() != dump0) {
			if f := repeatGrows(mk, nil, h); f != nil {
				return f
			}
		}
		// operations that change nothing by the model
		mk0, sz0 := s.modelKey(), s.size()
		for _, op := range s.Ops() {
			switch op.N {
			case "attach", "detach", "reg", "sub", "call", "chunk":
				continue
			}
			for _, f := range safeDo(s, op) {
				if f.Hard {
					return nil // found and reported by the search itself
				}
			}
			if s.modelKey() != mk0 {
				// not a self loop: back to a fresh one
				t := mk().(residual)
				for _, o := range h {
					safeDo(t, o)
				}
				s = t
				sz0 = s.size()
				continue
			}
			if s.size() > sz0 {
				if f := repeatGrows(mk, h, []Op{op}); f != nil {
					return f
				}
				sz0 = s.size()
			}
		}
		return nil
	}
}

func repeatGrows(mk func() Sys, before, cycle []Op) []Fail {
	s := mk().(residual)
	for _, op := range before {
		safeDo(s, op)
	}
	var sizes []int
	for rep := 1; rep <= 16; rep++ {
		s.shift(rep * 10)
		for _, op := range cycle {
			for _, f := range safeDo(s, op) {
				if f.Hard {
					return nil
				}
			}
		}
		if rep&(rep-1) == 0 {
			sizes = append(sizes, s.size())
		}
	}
	for i := 1; i < len(sizes); i++ {
		if sizes[i] <= sizes[i-1] {
			return nil
		}
	}
	// steady growth: also from 8 to 16 repetitions by as much as the repetitions
	if sizes[len(sizes)-1]-sizes[len(sizes)-2] < 8 {
		return nil
	}
	return []Fail{fail(fmt.Sprintf("repeating this history 1, 2, 4, 8, 16 times, each time back to the same situation, leaves %v retained entries", sizes), "C10")}
}

// stateChecks are the checks made in every state in addition to the lockstep
// comparison of operations.
var stateChecks = map[string]func(cfg string) func(Sys, []Op) []Fail{}

func init() {
	stateChecks["C10"] = residueCheck
	stateChecks["C11"] = injectCheck
	register("C10", "model_checking", func(c *Ctx) *Violation {
		c.Assumptions = append(c.Assumptions, "retained state is measured by reflection over the Broker and Dealer objects")
		for _, n := range Pick(c, []string{"broker-residue", "dealer-residue", "dealer-residue2", "broker-reuse", "dealer-reuse", "broker-ids-alias", "dealer-ids-alias"},
			[]string{"broker-residue", "dealer-residue", "dealer-residue2", "broker-reuse", "dealer-reuse", "broker-residue3", "dealer-residue3", "dealer-pend", "dealer-2x6", "broker-ids-alias", "dealer-ids-alias", "dealer-idsc-alias"}) {
			on := residueCheck(n)
			if strings.Contains(n, "-ids") {
				on = nil
			}
			if v := RunBFS(c, n, 0, 0, on); v != nil {
				return v
			}
		}
		return runScripts(c)
	})
	register("C11", "model_checking", func(c *Ctx) *Violation {
		for _, n := range Pick(c, []string{"broker-inject2", "dealer-inject2", "dealer-injectd"}, []string{"broker-inject2", "dealer-inject2", "dealer-injectd", "broker-inject", "dealer-inject"}) {
			if v := RunBFS(c, n, 0, 0, injectCheck(n)); v != nil {
				return v
			}
		}
		c.Cov["injected_messages"] = injCount.Load()
		return nil
	})
}
