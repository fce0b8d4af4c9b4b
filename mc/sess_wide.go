package main

import (
	"fmt"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// sessWide: a client session with any number of requests, for scripted histories.
// Operations: send kind r [id] | answer kind r [id] | error kind r | event id |
// invocation r id | yield r.
type sessWide struct {
	s    *wampproto.Session
	wait [6]map[int]int // outstanding requests by kind: request -> id it is about
	subs map[int]bool
	regs map[int]bool
}

var wideKinds = []string{"CALL", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE", "REGISTER", "UNREGISTER"}
var wideTypes = []uint64{48, 16, 32, 34, 64, 66}

func newSessWide() *sessWide {
	s := &sessWide{s: wampproto.NewSession(&serializers.MsgPackSerializer{}), subs: map[int]bool{}, regs: map[int]bool{}}
	for i := range s.wait {
		s.wait[i] = map[int]int{}
	}
	return s
}

func (s *sessWide) Ops() []Op   { return nil }
func (s *sessWide) Key() []byte { return nil }

func (s *sessWide) Do(o Op) []Fail {
	a := append(append([]int{}, o.A...), 0, 0, 0)
	k, r, id := a[0], uint64(a[1]), uint64(a[2])
	var msg messages.Message
	send, ok := false, true
	apply := func() {}
	switch o.N {
	case "send":
		send = true
		switch k {
		case 0:
			msg = messages.NewCall(r, nil, "p", nil, nil)
		case 1:
			msg = messages.NewPublish(r, map[string]any{"acknowledge": true}, "t", nil, nil)
		case 2:
			msg = messages.NewSubscribe(r, nil, "t")
		case 3:
			msg = messages.NewUnsubscribe(r, id)
			ok = s.subs[a[2]]
		case 4:
			msg = messages.NewRegister(r, nil, "p")
		case 5:
			msg = messages.NewUnregister(r, id)
		}
		apply = func() { s.wait[k][a[1]] = a[2] }
	case "answer":
		about, waiting := s.wait[k][a[1]]
		ok = waiting
		switch k {
		case 0:
			msg = messages.NewResult(r, nil, nil, nil)
		case 1:
			msg = messages.NewPublished(r, 9)
		case 2:
			msg = messages.NewSubscribed(r, id)
			apply = func() { s.subs[a[2]] = true }
		case 3:
			msg = messages.NewUnsubscribed(r)
			apply = func() { delete(s.subs, about) }
		case 4:
			msg = messages.NewRegistered(r, id)
			apply = func() { s.regs[a[2]] = true }
		case 5:
			msg = messages.NewUnregistered(r)
			apply = func() { delete(s.regs, about) }
		}
		f := apply
		apply = func() { f(); delete(s.wait[k], a[1]) }
	case "progress":
		_, ok = s.wait[0][a[1]]
		msg = messages.NewResult(r, map[string]any{"progress": true}, nil, nil)
	case "error":
		_, ok = s.wait[k][a[1]]
		msg = messages.NewError(wideTypes[k], r, nil, "e.x", nil, nil)
		apply = func() { delete(s.wait[k], a[1]) }
	case "event":
		ok = s.subs[a[0]]
		msg = messages.NewEvent(uint64(a[0]), 9, nil, nil, nil)
	case "invocation":
		ok = s.regs[a[1]]
		msg = messages.NewInvocation(uint64(a[0]), uint64(a[1]), nil, nil, nil)
	case "yield":
		send = true
		msg = messages.NewYield(uint64(a[0]), nil, nil, nil)
	}
	var err error
	if send {
		_, err = s.s.SendMessage(msg)
	} else {
		_, err = s.s.ReceiveMessage(msg)
	}
	if (err == nil) != ok {
		return []Fail{hard(fmt.Sprintf("%s is refused: %v, but should be accepted: %v", s.Describe(o), err, ok), "C15")}
	}
	if ok {
		apply()
	}
	return nil
}

func (s *sessWide) Describe(o Op) string {
	switch o.N {
	case "send", "answer", "error":
		return fmt.Sprintf("%s %s request %v", o.N, wideKinds[o.A[0]], o.A[1:])
	}
	return o.String()
}

func init() {
	mk := func() Sys { return newSessWide() }
	const n = 300
	for ord := range orders {
		addScript(fmt.Sprintf("%d requests of every kind, answered %s", n, orders[ord]), "C15", false, mk, func(_ Sys, do func(string, ...int)) {
			for r := 1; r <= n; r++ {
				for _, k := range []int{0, 1, 2, 4} {
					do("send", k, r)
				}
			}
			for j, i := range order(ord, n) {
				r := i + 1
				for _, k := range []int{0, 1, 2, 4} {
					if k == 0 && j%2 == 0 {
						do("progress", 0, r)
						do("progress", 0, r)
					}
					if j%7 == 6 {
						do("error", k, r)
					} else {
						do("answer", k, r, 1000+r)
					}
					do("answer", k, r, 1000+r)
					do("error", k, r)
				}
				do("progress", 0, r)
				do("event", 1000+r)
				do("invocation", r, 1000+r)
			}
			for r := 1; r <= n; r++ {
				do("event", 1000+r)
				do("invocation", n+r, 1000+r)
				do("yield", n+r)
				do("send", 3, n+r, 1000+r)
				if r%7 != 0 { // some registrations were refused: unregistering those is not specified
					do("event", 1000+r)
				}
			}
			for _, i := range order((ord+1)%4, n) {
				r := i + 1
				do("answer", 3, n+r)
				do("answer", 3, n+r)
				do("event", 1000+r)
			}
			for r := 1; r <= n; r++ {
				do("invocation", 2*n+r, 1000+r)
			}
		})
	}
	addScript("70000 rounds of requests and answers", "C15", false, mk, func(_ Sys, do func(string, ...int)) {
		do("send", 0, 1)
		do("send", 2, 1)
		do("answer", 2, 1, 7)
		for r := 2; r < 70000; r++ {
			for _, k := range []int{0, 1, 2, 4} {
				do("send", k, r)
				do("answer", k, r, 1000+r)
				do("answer", k, r, 1000+r)
			}
			do("event", 7)
			do("event", 1000+r)
			do("invocation", r, 1000+r)
			do("send", 3, r, 1000+r)
			do("send", 5, r, 1000+r)
			do("answer", 3, r)
			do("answer", 5, r)
			do("event", 1000+r)
			do("invocation", r, 1000+r)
			do("progress", 0, 1)
		}
		do("answer", 0, 1)
		do("answer", 0, 1)
	})
}
