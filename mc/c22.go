package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sync/atomic"

	"github.com/fxamacker/cbor/v2"
	"github.com/vmihailenco/msgpack/v5"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// generic decodes bytes into a list: MsgPack with a reference decoder of the
// harness, JSON and CBOR with the libraries' own generic decoding.
func generic(ser string, b []byte) ([]any, bool) {
	var v any
	var err error
	switch ser {
	case "JSON":
		err = json.Unmarshal(b, &v)
	case "MsgPack":
		var ok bool
		if v, _, ok = mpDecode(b, 0); !ok {
			return nil, false
		}
	case "CBOR":
		err = cborMode.Unmarshal(b, &v)
	}
	if err != nil {
		return nil, false
	}
	l, ok := v.([]any)
	return l, ok
}

var cborMode = func() cbor.DecMode {
	m, err := cbor.DecOptions{MaxNestedLevels: 1000, DefaultMapType: reflect.TypeOf(map[string]any(nil))}.DecMode()
	if err != nil {
		panic(err)
	}
	return m
}()

func encodeList(ser string, l []any) ([]byte, error) {
	switch ser {
	case "JSON":
		return json.Marshal(l)
	case "MsgPack":
		return msgpack.Marshal(l)
	}
	return cbor.Marshal(l)
}

// notAList: the bytes are certainly no list. Those that generic does not decode may also hold forms the reference makes no claim about:
// MsgPack extensions and keys other than strings, CBOR tags.
func notAList(ser string, b []byte) bool {
	switch ser {
	case "JSON":
		return true
	case "CBOR":
		var v any
		if cborMode.Unmarshal(b, &v) == nil {
			return len(b) == 0 || b[0]>>5 != 4 && b[0]>>5 != 6
		}
		// malformed, or followed by something
		return cbor.Wellformed(b) != nil
	}
	return len(b) == 0 || b[0] < 0x90 || b[0] > 0x9f && b[0] != 0xdc && b[0] != 0xdd
}

// verdict of the reference on a list
type verdict int

const (
	mustRefuse verdict = iota
	mustAccept
	either
)

// element class of a decoded value: i natural number, n other number, s, d, A, x
func class(v any) byte {
	if x, ok := toNum(v); ok {
		if x.f || x.neg || x.mag > 1<<53 {
			return 'n'
		}
		return 'i'
	}
	switch v.(type) {
	case string:
		return 's'
	case []any:
		return 'A'
	case map[string]any, map[any]any:
		return 'd'
	}
	return 'x'
}

func judge(l []any) (verdict, *msgKind) {
	if len(l) == 0 {
		return mustRefuse, nil
	}
	n, ok := toNum(l[0])
	if !ok {
		return mustRefuse, nil
	}
	if n.f || n.neg {
		return either, nil // not a natural number
	}
	k := kindOf(n.mag)
	if k == nil {
		return mustRefuse, nil
	}
	req := 0
	for _, c := range k.layout {
		if c != 'A' && c != 'K' {
			req++
		}
	}
	if len(l)-1 < req || len(l)-1 > len(k.layout) {
		return mustRefuse, k
	}
	res := mustAccept
	for i, v := range l[1:] {
		want, got := k.layout[i], class(v)
		if want == 'K' {
			want = 'd'
		}
		if want == 'i' && got == 'n' {
			res = either // ids outside 0..2^53 and non-integers: not specified
			continue
		}
		if got != want {
			return mustRefuse, k
		}
	}
	if k.name == "HELLO" && res == mustAccept { // the types inside the details dictionary are not part of the layout, but a list of methods holds strings
		d := dictOf(l[2])
		for key, want := range map[string]byte{"authid": 's', "authmethods": 'A', "authextra": 'd', "roles": 'd'} {
			if d[key] != nil && class(d[key]) != want {
				res = either
			}
		}
		if ms, ok := d["authmethods"].([]any); ok {
			for _, m := range ms {
				if class(m) != 's' {
					return mustRefuse, k
				}
			}
		}
	}
	return res, k
}

func dictOf(v any) map[string]any {
	switch x := v.(type) {
	case map[string]any:
		return x
	case map[any]any:
		m := map[string]any{}
		for k, e := range x {
			m[fmt.Sprint(k)] = e
		}
		return m
	}
	return nil
}

// checkDecode runs the real decoder on bytes that encode the list l (nil, false
// if they encode no list) and compares.
func checkDecode(s serT, b []byte, l []any, isList bool) string {
	cr := crumbStart("message/"+s.name, b)
	m, err := s.s.Deserialize(b)
	crumbDone(cr)
	if (m == nil) == (err == nil) {
		return fmt.Sprintf("returned message %v and error %v", m, err)
	}
	if !isList {
		if err == nil && notAList(s.name, b) {
			return fmt.Sprintf("bytes that are no list are accepted as %T", m)
		}
		return ""
	}
	v, k := judge(l)
	if err != nil {
		if v == mustAccept {
			return fmt.Sprintf("a well-formed %s %v is refused: %v", k.name, l, err)
		}
		return ""
	}
	if v == mustRefuse {
		return fmt.Sprintf("the malformed list %.300s is accepted as %T", fmt.Sprintf("%#v", l), m)
	}
	if v == either {
		return ""
	}
	return compareFields(k, m, l)
}

func compareFields(k *msgKind, m messages.Message, l []any) string {
	if m.Type() != k.typ {
		return fmt.Sprintf("list with type %d became type %d", k.typ, m.Type())
	}
	got := k.get(m)
	if k.name == "HELLO" {
		if !exact(got[0], l[1], true) {
			return fmt.Sprintf("HELLO realm %q became %q", l[1], got[0])
		}
		d := dictOf(l[2])
		ms, _ := d["authmethods"].([]any)
		var methods []string
		for _, m := range ms {
			methods = append(methods, m.(string))
		}
		id, _ := d["authid"].(string)
		for i, w := range []any{id, dictOf(d["authextra"]), dictOf(d["roles"]), methods} {
			if !exact(got[i+1], w, true) {
				return fmt.Sprintf("HELLO with the details %.200s has %.100s as %s", fmt.Sprintf("%#v", d), fmt.Sprintf("%#v", got[i+1]), []string{"authid", "authextra", "roles", "authmethods"}[i])
			}
		}
		return ""
	}
	for i, g := range got {
		var w any
		if i+1 < len(l) {
			w = l[i+1]
		}
		if w == nil && (k.layout[i] == 'A' || k.layout[i] == 'K') {
			if !emptyVal(g) {
				return fmt.Sprintf("%s field %d is %v but the list has none", k.name, i, g)
			}
			continue
		}
		if !exact(g, w, true) {
			return fmt.Sprintf("%s element %d = %.100s became %.100s", k.name, i+1, fmt.Sprintf("%#v", w), fmt.Sprintf("%#v", g))
		}
	}
	return ""
}

func init() {
	register("C22", "exploration", func(c *Ctx) *Violation {
		c.Rule = "(1) every byte string of up to 3 bytes; (2) every list whose first element is any of the 24 type numbers or of a set of other values and whose " +
			"other elements range over one or more representatives of every element class, for every length up to the maximum plus one (also parsed into a message used before), and HELLO with every shape of details; (3) every single-byte " +
			"substitution, truncation and one-byte extension of one encoding of every message type; (4) all container and string headers with boundary length bytes, and in MsgPack a container of 2^32 elements behind and inside items of every form; " +
			"(5) nesting from 1 to 16 million; each for every serializer. Lists count as distinct and non-trivial, byte strings only if they decode to a list"
		var evals, distinct atomic.Int64
		report := func(s serT, b []byte, msg string) *Violation {
			return &Violation{Message: fmt.Sprintf("%s\n  %s bytes %x", msg, s.name, b), Case: map[string]any{"serializer": s.name, "bytes": fmt.Sprintf("%x", b)}}
		}
		one := func(s serT, b []byte) string {
			evals.Add(1)
			l, ok := generic(s.name, b)
			if ok {
				distinct.Add(1)
			}
			return checkDecode(s, b, l, ok)
		}
		for _, s := range allSerializers {
			s := s
			// (2) lists
			if v := c22Lists(c, s, &evals, &distinct); v != nil {
				return v
			}
			// (3) alterations of valid encodings
			var bases [][]byte
			for i := range msgKinds {
				k := &msgKinds[i]
				var v []any
				for _, l := range []byte(k.ctorLayout()) {
					v = append(v, map[byte]any{'i': uint64(300), 's': "a.b", 'd': map[string]any{"k": []any{1}}, 'A': []any{"x", 2}, 'K': map[string]any{"y": nil}, 'l': []string{"ticket"}}[l])
				}
				b, err := s.s.Serialize(k.mk(v))
				if err != nil {
					return &Violation{Message: err.Error()}
				}
				bases = append(bases, b)
			}
			var alts [][]byte
			for _, b := range bases {
				for i := range b {
					alts = append(alts, b[:i])
					for x := 0; x < 256; x++ {
						y := append([]byte{}, b...)
						y[i] = byte(x)
						alts = append(alts, y)
					}
					if !c.Quick() {
						for x := 0; x < 256; x++ {
							alts = append(alts, append(append(append([]byte{}, b[:i]...), byte(x)), b[i:]...))
						}
						alts = append(alts, append(append([]byte{}, b[:i]...), b[i+1:]...))
					}
				}
				for x := 0; x < 256; x++ {
					alts = append(alts, append(append([]byte{}, b...), byte(x)))
				}
			}
			// (4) headers
			alts = append(alts, headerBytes(s.name)...)
			if s.name == "MsgPack" {
				alts = append(alts, smuggled()...)
			}
			if i, msg := enumChunk(len(alts), 64, func(i int) string { return one(s, alts[i]) }); i >= 0 {
				return report(s, alts[i], msg)
			}
			// (1) short byte strings
			n := 1 + 256 + 65536 + 1<<24
			if c.Quick() && s.name == "JSON" { // three bytes: over the bytes JSON gives a meaning to, plus others
				n = 1 + 256 + 65536
			}
			bytesOf := shortBytes
			if i, msg := enumChunk(n, 4096, func(i int) string { return one(s, bytesOf(i)) }); i >= 0 {
				return report(s, bytesOf(i), msg)
			}
			if s.name == "JSON" {
				// strings over the JSON alphabet
				ab := []byte("[]{}\",:0139-.eE tnul\\\n")
				max := Pick(c, 5, 6)
				total := 0
				p := 1
				for i := 0; i <= max; i++ {
					total += p
					p *= len(ab)
				}
				str := func(i int) []byte {
					var b []byte
					for i > 0 {
						i--
						b = append(b, ab[i%len(ab)])
						i /= len(ab)
					}
					return b
				}
				if i, msg := enumChunk(total, 4096, func(i int) string { return one(s, str(i)) }); i >= 0 {
					return report(s, str(i), msg)
				}
			}
		}
		// (5) nesting
		for _, s := range allSerializers {
			for _, n := range []int{1, 2, 10, 31, 32, 33, 1000, 9999, 10000, 10001, 100000, 1000000, 16000000} {
				for _, h := range map[string][][2]string{"JSON": {{"[", "]"}, {"{\"\":", "}"}}, "MsgPack": {{"\x91", ""}, {"\x81\xa0", ""}, {"\xdc\x00\x01", ""}, {"\xdf\x00\x00\x00\x01\xa0", ""}},
					"CBOR": {{"\x81", ""}, {"\xa1\x60", ""}, {"\x9f", "\xff"}, {"\xc1", ""}}}[s.name] {
					n := n
					if n*(len(h[0])+len(h[1])) > 1<<24 {
						n = (1<<24 - 64) / (len(h[0]) + len(h[1]))
					}
					inner := map[string]string{"JSON": "0", "MsgPack": "\x00", "CBOR": "\x00"}[s.name]
					nested := append(append(bytes.Repeat([]byte(h[0]), n), inner...), bytes.Repeat([]byte(h[1]), n)...)
					pre := map[string]string{"JSON": "[50,1,{},[", "MsgPack": "\x94\x32\x01\x80\x91", "CBOR": "\x84\x18\x32\x01\xa0\x81"}[s.name]
					post := map[string]string{"JSON": "]]", "MsgPack": "", "CBOR": ""}[s.name]
					for _, b := range [][]byte{nested, append(append([]byte(pre), nested...), post...)} {
						evals.Add(1)
						distinct.Add(1)
						m, err := s.s.Deserialize(b)
						if (m == nil) == (err == nil) {
							return &Violation{Message: fmt.Sprintf("%s nested %d levels: message %T and error %v", s.name, n, m, err)}
						}
						if n <= 10 && h[0] != "\xc1" && bytes.HasPrefix(b, []byte(pre)) && err != nil {
							return &Violation{Message: fmt.Sprintf("%s RESULT with an argument nested %d levels is refused: %v", s.name, n, err)}
						}
					}
				}
			}
		}
		c.Evals, c.Distinct = evals.Load(), distinct.Load()
		c.Sample("JSON [48,5,{},\"a\",null]: refused")
		c.Sample("MsgPack 92 10 de ff ff")
		c.Sample("CBOR 81 x 16000000")
		c.Assumptions = append(c.Assumptions, "ids that are no natural numbers up to 2^53 and type numbers that are no integers may be accepted or refused",
			"MsgPack trailing bytes are ignored by the third-party library")
		return nil
	})
}

// used makes a message with all its fields set
func used(k *msgKind) messages.Message {
	var v []any
	for _, l := range []byte(k.ctorLayout()) {
		v = append(v, map[byte]any{'i': uint64(4711), 's': "used.before", 'd': map[string]any{"used": true}, 'A': []any{"used", 1}, 'K': map[string]any{"used": "kw"}, 'l': []string{"wampcra", "ticket"}}[l])
	}
	return k.mk(v)
}

// c22Hellos: HELLO details of every shape
func c22Hellos() (out [][]any) {
	opt := map[string][]any{"authid": {"joe", "", 1, nil, []any{"a"}}, "authmethods": {[]any{}, []any{"ticket", "anonymous"}, []any{""}, []any{1}, []any{"a", nil}, []any{nil}, []any{"a", []any{}}, "ticket", nil, map[string]any{}},
		"authextra": {map[string]any{}, map[string]any{"pubkey": "00", "n": nil}, nil, []any{}, "x", 1}, "roles": {map[string]any{}, map[string]any{"caller": map[string]any{"features": map[string]any{"a": true}}}, nil, []any{}, "x"}}
	keys := []string{"authid", "authmethods", "authextra", "roles"}
	var rec func(i int, d map[string]any)
	rec = func(i int, d map[string]any) {
		if i == len(keys) {
			e := map[string]any{}
			for k, v := range d {
				e[k] = v
			}
			out = append(out, []any{1, "realm1", e})
			return
		}
		rec(i+1, d)
		for _, v := range opt[keys[i]] {
			d[keys[i]] = v
			rec(i+1, d)
			delete(d, keys[i])
		}
	}
	rec(0, map[string]any{})
	return
}

func c22Lists(c *Ctx, s serT, evals, distinct *atomic.Int64) *Violation {
	firsts := []any{}
	for i := 0; i <= 80; i++ {
		firsts = append(firsts, i)
	}
	firsts = append(firsts, -1, 256, 257, 65537, uint64(1<<32+1), uint64(1<<53), "1", "", nil, true, []any{1}, map[string]any{}, 1.5)
	if s.name != "JSON" {
		firsts = append(firsts, uint64(math.MaxUint64), int8(48), uint8(48), uint16(48), float32(48), float64(48), []byte("0"))
	}
	elems := []any{7, "a.b", map[string]any{"k": 1}, []any{"x"}, nil, true}
	more := []any{0, uint64(1 << 53), "", map[string]any{}, []any{}, []any{map[string]any{}}, false, 1.5, -1}
	type lst struct{ l []any }
	var run func(first any, alphabet []any, length int) *Violation
	run = func(first any, alphabet []any, length int) *Violation {
		n := 1
		for i := 0; i < length; i++ {
			n *= len(alphabet)
		}
		mk := func(i int) []any {
			l := []any{first}
			for j := 0; j < length; j++ {
				l = append(l, alphabet[i%len(alphabet)])
				i /= len(alphabet)
			}
			return l
		}
		i, msg := enumChunk(n, 256, func(i int) string {
			l := mk(i)
			b, err := encodeList(s.name, l)
			if err != nil {
				return "harness: " + err.Error()
			}
			evals.Add(1)
			distinct.Add(1)
			if m := checkDecode(s, b, l, true); m != "" {
				return m
			}
			m1, err1 := serializers.ToMessage(l)
			if (m1 == nil) == (err1 == nil) {
				return fmt.Sprintf("ToMessage returned %v and %v", m1, err1)
			}
			v, k := judge(l)
			if v == mustRefuse && err1 == nil {
				return fmt.Sprintf("ToMessage accepts the malformed list %#v as %T", l, m1)
			}
			if v == mustAccept {
				if err1 != nil {
					return fmt.Sprintf("ToMessage refuses the well-formed %s %#v: %v", k.name, l, err1)
				}
				if bad := compareFields(k, m1, l); bad != "" {
					return bad
				}
				// a message that held something before
				m2 := used(k)
				if err := m2.Parse(l); err != nil {
					return fmt.Sprintf("Parse of a used message refuses the well-formed %s %#v: %v", k.name, l, err)
				}
				if bad := compareFields(k, m2, l); bad != "" {
					return "parsed into a message used before: " + bad
				}
			}
			return ""
		})
		if i >= 0 {
			return &Violation{Message: msg + "\n  over " + s.name, Case: fmt.Sprintf("%#v", mk(i))}
		}
		return nil
	}
	hellos := c22Hellos()
	if i, msg := enumChunk(len(hellos), 16, func(i int) string {
		b, err := encodeList(s.name, hellos[i])
		if err != nil {
			return "harness: " + err.Error()
		}
		evals.Add(1)
		distinct.Add(1)
		return checkDecode(s, b, hellos[i], true)
	}); i >= 0 {
		return &Violation{Message: msg + "\n  over " + s.name, Case: fmt.Sprintf("%#v", hellos[i])}
	}
	for _, f := range firsts {
		k := (*msgKind)(nil)
		if n, ok := toNum(f); ok && !n.f && !n.neg {
			k = kindOf(n.mag)
		}
		if k == nil {
			for length := 0; length <= 3; length++ {
				if v := run(f, elems, length); v != nil {
					return v
				}
			}
			continue
		}
		for length := 0; length <= len(k.layout)+1; length++ {
			al := elems
			if length <= Pick(c, 3, 4) {
				al = append(append([]any{}, elems...), more...)
			}
			if v := run(f, al, length); v != nil {
				return v
			}
		}
	}
	if v := run(0, nil, 0); v != nil {
		return v
	}
	// the empty list
	b, _ := encodeList(s.name, []any{})
	evals.Add(1)
	if m := checkDecode(s, b, []any{}, true); m != "" {
		return &Violation{Message: m}
	}
	return nil
}
