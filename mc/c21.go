package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/xconnio/wampproto-go/messages"
)

func bigMap(n int) map[string]any {
	m := map[string]any{}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("k%d", i)] = i
	}
	return m
}

func bigList(n int) []any {
	l := make([]any, n)
	for i := range l {
		l[i] = i
	}
	return l
}

var c21IDs = []any{uint64(1), uint64(2), uint64(23), uint64(24), uint64(127), uint64(128), uint64(255), uint64(256), uint64(32767), uint64(32768),
	uint64(65535), uint64(65536), uint64(1<<31 - 1), uint64(1 << 31), uint64(1<<32 - 1), uint64(1 << 32), uint64(1<<53 - 1), uint64(1 << 53)}

var c21Strings = []any{"com.x.y", "", " ", "a", "ż", "日本語", "\U0001F600\U0010FFFF", "\u2028\u2029<>&\"'\\/\b\f\n\r\t", "\x00", "\x7f\u0080\ufeff\ufffd",
	strings.Repeat("s", 23), strings.Repeat("s", 24), strings.Repeat("s", 31), strings.Repeat("s", 32), strings.Repeat("s", 255), strings.Repeat("s", 256),
	strings.Repeat("é", 32768)}

func nest(n int) any {
	var v any = []any{}
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			v = map[string]any{"n": v}
		} else {
			v = []any{v, nil}
		}
	}
	return v
}

// values every serializer represents exactly
var c21Values = []any{nil, true, false, 0, 1, -1, -24, -25, -128, -129, -32768, -32769, int64(-1 << 31), int64(-1<<31 - 1), int64(1 << 53), int64(-1 << 53), 255, 256, 65535, 65536,
	0.5, -0.25, 1e300, 5e-324, math.MaxFloat64, float64(1 << 60), 0.1, "", "x", "\x00é\U0001F600", []any{}, map[string]any{}, []any{nil}, []any{[]any{}, map[string]any{}},
	map[string]any{"": nil, "a": []any{map[string]any{"b": []any{1, "2", 3.5, nil, true}}}}}

func c21Maps(c *Ctx) []any {
	out := []any{map[string]any(nil), map[string]any{}, map[string]any{"a": 1}, map[string]any{"": map[string]any{}}, map[string]any{"n": nest(20)},
		bigMap(15), bigMap(16), bigMap(24), bigMap(256),
		map[string]any{"progress": true, "receive_progress": false, "acknowledge": true, "x_payload_serializer": 3, "payload": nil},
		map[string]any{"authid": 1, "authmethods": "x", "roles": 2, "authextra": 3, "realm": "r", "ключ": "値", "\x00": "\x00"}}
	all := map[string]any{}
	for i, v := range c21Values {
		all[fmt.Sprint(i)] = v
	}
	out = append(out, all)
	for _, v := range c21Values {
		out = append(out, map[string]any{"v": v})
	}
	return out
}

func c21Lists(c *Ctx) []any {
	out := []any{[]any(nil), []any{}, append([]any{}, c21Values...), bigList(15), bigList(16), bigList(23), bigList(24), bigList(256), []any{nest(20)},
		[]any{map[string]any{}}, []any{[]any{}, []any{}}}
	for _, v := range c21Values {
		out = append(out, []any{v})
	}
	return out
}

func c21Vals(c *Ctx) map[byte][]any {
	return map[byte][]any{'i': c21IDs, 's': c21Strings, 'd': c21Maps(c), 'A': c21Lists(c), 'K': c21Maps(c),
		'l': {[]string(nil), []string{}, []string{"anonymous"}, []string{"a", "", "ü", "ticket"}}}
}

// values that mean something to WAMP: a codec carries them like any others
var c21KnownStrings = []any{"anonymous", "ticket", "wampcra", "cryptosign", "exact", "prefix", "wildcard", "random", "static", "dynamic", "wamp", "wamp.", "wamp.session.on_join",
	"wamp.close.normal", "wamp.close.goodbye_and_out", "wamp.close.close_realm", "wamp.close.system_shutdown", "wamp.close.killed", "wamp.error.no_such_realm",
	"wamp.error.runtime_error", "wamp.error.invalid_uri", "wamp.error.no_such_procedure", "wamp.error.canceled", "wamp.error.protocol_violation", "null", "true", "0", "1", "nil",
	"[]", "{}", "undefined", "realm1", "com..x", ".", "a.", ".a", "a#b", "A.B", strings.Repeat("s", 32767), strings.Repeat("s", 32768), strings.Repeat("s", 65535), strings.Repeat("s", 100000), strings.Repeat("\u07ff", 20000), strings.Repeat("\u07ff", 127), strings.Repeat("\u07ff", 12), " a ", "a b", "com.x.y\n", "com.x.y ", "%s", "\\u0041", "\u0130ı", "e\u0301", "é"}

func c21KnownMaps() []any {
	vals := map[string][]any{"match": {"exact", "prefix", "wildcard"}, "invoke": {"single", "first", "last", "roundrobin", "random"}, "mode": {"kill", "skip", "killnowait"},
		"authmethod": {"anonymous"}, "authmethods": {[]any{"ticket"}, []any{}}, "roles": {map[string]any{}, map[string]any{"caller": map[string]any{"features": map[string]any{}}}},
		"authextra": {map[string]any{}, map[string]any{"pubkey": "00"}}, "authid": {"", "joe"}, "authrole": {"", "user"}, "authprovider": {"static"}, "realm": {"", "realm1"},
		"challenge": {"", "00"}, "salt": {"", "s"}, "iterations": {0, 1000}, "keylen": {0, 32}, "channel_binding": {nil, "tls-unique"}, "pubkey": {"", "00"}, "nonce": {"n"},
		"exclude": {[]any{}, []any{1, 2}}, "eligible": {[]any{}, []any{1}}, "timeout": {0, 1}, "caller": {0, 1}, "publisher": {0, 1}, "session": {1}, "message": {"", "m"}, "reason": {"r"},
		"procedure": {"a.b"}, "topic": {"a.b"}, "trustlevel": {0}, "concurrency": {1}, "forward_for": {[]any{}}, "x_payload_serializer": {0, 1, 2, 3, 4, -1, "3", nil}, "ppt_scheme": {"x"},
		"x_authmethod": {"x"}, "resume": {true}, "args": {[]any{}}, "kwargs": {map[string]any{}}, "details": {map[string]any{}}, "payload": {"", "x"}}
	for _, k := range []string{"acknowledge", "exclude_me", "disclose_me", "retain", "retained", "get_retained", "progress", "receive_progress", "force_reregister", "runmode"} {
		vals[k] = []any{true, false, nil, "", 1}
	}
	for _, k := range []string{"caller_authid", "caller_authrole", "publisher_authid", "publisher_authrole"} {
		vals[k] = []any{"", "joe"}
	}
	var keys []string
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []any
	for _, k := range keys {
		for _, v := range vals[k] {
			out = append(out, map[string]any{k: v}, map[string]any{k: v, "other": 1})
		}
	}
	return out
}

var c21KnownLists = []any{[]any{""}, []any{nil}, []any{nil, nil}, []any{false}, []any{0}, []any{map[string]any{}, nil}, []any{[]any{nil}}, []any{"a", "a"}, []any{1, 1, 1},
	[]any{[]any{"x"}, map[string]any{"k": 1}}, []any{"x", []any{}}, []any{"x", map[string]any{}}, []any{[]any{[]any{}}}, []any{"exact"}, []any{"null"}}

var c21KnownMethods = []any{[]string{""}, []string{"", ""}, []string{"anonymous", "anonymous"}, []string{"ticket", "wampcra", "ticket"}, []string{"ticket", "ticket", "cryptosign"},
	[]string{"wampcra", "anonymous", "cryptosign", "ticket"}, []string{"Ticket", "ticket "}, []string{"b", "a"}}

// c21Known: every message type with each of these in each field, one at a time, before two backgrounds
func c21Known() (out []struct {
	k *msgKind
	v []any
}) {
	vals := map[byte][]any{'s': c21KnownStrings, 'd': c21KnownMaps(), 'A': c21KnownLists, 'l': c21KnownMethods}
	vals['K'] = vals['d']
	back := []map[byte]any{{'i': uint64(1), 's': "com.x.y", 'd': map[string]any(nil), 'A': []any(nil), 'K': map[string]any(nil), 'l': []string(nil)},
		{'i': uint64(77), 's': "a", 'd': map[string]any{"x": 1}, 'A': []any{"x"}, 'K': map[string]any{"y": 2}, 'l': []string{"ticket"}}}
	for ki := range msgKinds {
		k := &msgKinds[ki]
		l := k.ctorLayout()
		for p := range l {
			for _, x := range vals[l[p]] {
				for _, b := range back {
					v := make([]any, len(l))
					for q := range v {
						v[q] = b[l[q]]
					}
					v[p] = x
					out = append(out, struct {
						k *msgKind
						v []any
					}{k, v})
				}
			}
		}
	}
	return
}

// c21Cases: the number of assignments, and the i-th one
func c21Cases(c *Ctx) (int, func(i int) (*msgKind, []any)) {
	vals := c21Vals(c)
	type cs struct {
		k   *msgKind
		pos [3]int
		dim [3]int
	}
	var blocks []cs
	var start []int
	n := 0
	for ki := range msgKinds {
		k := &msgKinds[ki]
		l := k.ctorLayout()
		add := func(p [3]int) {
			b := cs{k: k, pos: p}
			sz := 1
			for j, x := range p {
				b.dim[j] = 1
				if x >= 0 {
					b.dim[j] = len(vals[l[x]])
					sz *= b.dim[j]
				}
			}
			blocks, start = append(blocks, b), append(start, n)
			n += sz
		}
		switch {
		case len(l) == 1:
			add([3]int{0, -1, -1})
		case len(l) == 2 || c.Quick():
			for i := 0; i < len(l); i++ {
				for j := i + 1; j < len(l); j++ {
					add([3]int{i, j, -1})
				}
			}
		default:
			for i := 0; i < len(l); i++ {
				for j := i + 1; j < len(l); j++ {
					for m := j + 1; m < len(l); m++ {
						add([3]int{i, j, m})
					}
				}
			}
		}
	}
	known := c21Known()
	return n + len(known), func(i int) (*msgKind, []any) {
		if i >= n {
			return known[i-n].k, append([]any{}, known[i-n].v...)
		}
		lo, hi := 0, len(blocks)
		for hi-lo > 1 {
			if mid := (lo + hi) / 2; start[mid] <= i {
				lo = mid
			} else {
				hi = mid
			}
		}
		b := blocks[lo]
		i -= start[lo]
		l := b.k.ctorLayout()
		v := make([]any, len(l))
		for p := range v {
			v[p] = vals[l[p]][0]
		}
		for j, p := range b.pos {
			if p >= 0 {
				v[p] = vals[l[p]][i%b.dim[j]]
				i /= b.dim[j]
			}
		}
		return b.k, v
	}
}

func init() {
	register("C21", "exploration", func(c *Ctx) *Violation {
		c.Rule = "every message type x serializer x every assignment that varies any two fields (quick) or any three fields (thorough) over the full " +
			"boundary sets of ids, strings, dictionaries, argument lists and keyword arguments, the others at a default; the deserialized message is " +
			"compared with the constructor's values field by field (also every URI, option, detail and method name WAMP gives a meaning to, in every field), and once more after the message was made from fields of another type (New...WithFields). An evaluation is one assignment; the all-default one of each type and serializer is not counted as distinct"
		vals := c21Vals(c)
		n, build := c21Cases(c)
		// every container position with a container of 65535 and 65536 elements
		type bigCase struct {
			k   *msgKind
			pos int
			v   any
			s   serT
		}
		var bigs []bigCase
		for _, sz := range []int{65535, 65536} {
			bm, bl := bigMap(sz), bigList(sz)
			for ki := range msgKinds {
				for p, l := range []byte(msgKinds[ki].ctorLayout()) {
					for _, s := range allSerializers {
						switch l {
						case 'd', 'K':
							bigs = append(bigs, bigCase{&msgKinds[ki], p, bm, s})
						case 'A':
							bigs = append(bigs, bigCase{&msgKinds[ki], p, bl, s})
						}
					}
				}
			}
		}
		// long messages: the rawsocket carries up to 16 MiB, a WebSocket more
		long := map[string]int{"CALL": 17 << 20, "EVENT": 5 << 20, "RESULT": 1<<20 + 1, "HELLO": 2 << 20}
		for k := range msgKinds {
			if n := long[msgKinds[k].name]; n > 0 {
				for p, l := range []byte(msgKinds[k].ctorLayout()) {
					v := any([]any{strings.Repeat("x", n)})
					if l == 'd' || l == 'K' {
						v = map[string]any{"n": strings.Repeat("x", n)}
					} else if l != 'A' {
						continue
					}
					for _, s := range allSerializers {
						bigs = append(bigs, bigCase{&msgKinds[k], p, v, s})
					}
				}
			}
		}
		// integers beyond a JSON double, for the serializers that have them
		for ki := range msgKinds {
			for p, l := range []byte(msgKinds[ki].ctorLayout()) {
				if l != 'd' && l != 'K' && l != 'A' {
					continue
				}
				for _, x := range []any{uint64(math.MaxUint64), uint64(1 << 63), uint64(1<<63 - 1), int64(math.MinInt64), int64(1<<53 + 1), int64(-1<<53 - 1), float64(1 << 63), []byte{0xff, 0}} {
					v := any([]any{x, "x"})
					if l != 'A' {
						v = map[string]any{"n": x}
					}
					for _, s := range allSerializers {
						if s.name != "JSON" {
							bigs = append(bigs, bigCase{&msgKinds[ki], p, v, s})
						}
					}
				}
			}
		}
		// deep values
		for ki := range msgKinds {
			for p, l := range []byte(msgKinds[ki].ctorLayout()) {
				for _, n := range []int{24, 100, 1000, 5000} {
					v := any([]any{nest(n)})
					if l == 'd' || l == 'K' {
						v = map[string]any{"n": nest(n)}
					} else if l != 'A' {
						continue
					}
					for _, s := range allSerializers {
						if s.name != "CBOR" || n < 25 {
							bigs = append(bigs, bigCase{&msgKinds[ki], p, v, s})
						}
					}
				}
			}
		}
		var evals atomic.Int64
		if i, msg := enumChunk(len(bigs), 1, func(i int) string {
			b := bigs[i]
			l := b.k.ctorLayout()
			v := make([]any, len(l))
			for p := range v {
				v[p] = vals[l[p]][0]
			}
			v[b.pos] = b.v
			evals.Add(1)
			return roundTrip(b.k, v, b.s)
		}); i >= 0 {
			return &Violation{Message: fmt.Sprintf("%.300s\n  %s with %.100v in field %d over %s", msg, bigs[i].k.name, fmt.Sprint(bigs[i].v), bigs[i].pos, bigs[i].s.name), Case: i}
		}
		i, msg := enum(c, n*len(allSerializers), func(i int) string {
			s := allSerializers[i%len(allSerializers)]
			k, v := build(i / len(allSerializers))
			evals.Add(1)
			return roundTrip(k, v, s)
		})
		c.Evals = evals.Load()
		c.Distinct = c.Evals - int64(len(msgKinds)*len(allSerializers))
		for _, j := range []int{n / 5, n / 2, n - 1} {
			k, v := build(j)
			c.Sample(fmt.Sprintf("%s %.200v", k.name, fmt.Sprint(v)))
		}
		c.Assumptions = append(c.Assumptions, "numbers inside dictionaries and lists are limited to those a JSON double represents exactly; nesting to depth 5000, in CBOR 24 (the library's own limit is 32)")
		if i >= 0 {
			k, v := build(i / len(allSerializers))
			return &Violation{Message: fmt.Sprintf("%s\n  %s with fields %.600s over %s", msg, k.name, fmt.Sprintf("%#v", v), allSerializers[i%len(allSerializers)].name), Case: i}
		}
		return nil
	})
}

func roundTrip(k *msgKind, v []any, s serT) string {
	in := make([]any, len(v))
	for i := range v {
		in[i] = v[i]
	}
	m := k.mk(in)
	if bad := roundTripOf(m, k, v, s); bad != "" {
		return bad
	}
	if bad := roundTripOf(withFields(m), k, v, s); bad != "" {
		return "made from fields of another type: " + bad
	}
	return ""
}

func roundTripOf(m messages.Message, k *msgKind, v []any, s serT) string {
	if m.Type() != k.typ {
		return fmt.Sprintf("%s has type %d", k.name, m.Type())
	}
	for i, g := range k.get(m) {
		if !exact(g, v[i], true) {
			return fmt.Sprintf("the constructed %s has field %d = %.200v instead of %.200v", k.name, i, g, v[i])
		}
	}
	b, err := s.s.Serialize(m)
	if err != nil {
		return fmt.Sprintf("cannot be serialized: %v", err)
	}
	out, err := s.s.Deserialize(b)
	if err != nil {
		return fmt.Sprintf("its serialization is refused: %v", err)
	}
	if out.Type() != k.typ {
		return fmt.Sprintf("came back as type %d", out.Type())
	}
	for i, g := range k.get(out) {
		if !exact(g, v[i], true) {
			return fmt.Sprintf("field %d came back as %.200v", i, fmt.Sprintf("%#v", g))
		}
	}
	return ""
}
