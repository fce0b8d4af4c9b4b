package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync/atomic"
	"unicode/utf16"
	"unicode/utf8"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/serializers"
)

// C30: what is sent follows the WAMP wire format, and whatever follows it is understood.

// wire is the list that WAMP prescribes for a message with the given constructor values.
func (k *msgKind) wire(v []any) []any {
	if k.name == "HELLO" {
		return []any{k.typ, v[0], map[string]any{"authid": v[1], "authextra": v[2], "roles": v[3], "authmethods": v[4]}}
	}
	return append([]any{k.typ}, v...)
}

// follows compares a decoded list with the one that WAMP prescribes.
func (k *msgKind) follows(got, want []any, js bool) string {
	n := len(got)
	if n > len(want) {
		return fmt.Sprintf("it has %d elements", n)
	}
	for i, w := range want {
		l := byte('i')
		if i > 0 {
			l = k.layout[i-1]
		}
		if i >= n {
			if (l != 'A' && l != 'K') || !emptyVal(normal(w)) {
				return fmt.Sprintf("element %d is missing", i)
			}
			continue
		}
		g := got[i]
		if k.name == "HELLO" && i == 2 {
			d, ok := g.(map[string]any)
			if !ok {
				return fmt.Sprintf("the details of HELLO are %T", g)
			}
			for key, x := range w.(map[string]any) {
				if h, there := d[key]; there && !sameWire(h, x, true, js) && !(h == nil && emptyVal(normal(x))) || !there && !emptyVal(normal(x)) && x != "" {
					return fmt.Sprintf("HELLO.Details.%s is %.200v", key, fmt.Sprintf("%#v", h))
				}
			}
			continue
		}
		if !sameWire(g, w, l != 's', js) {
			return fmt.Sprintf("element %d is %.200v instead of %.200v", i, fmt.Sprintf("%#v", g), fmt.Sprintf("%#v", w))
		}
		switch g.(type) {
		case uint64, int64, string, []any, map[string]any:
		default:
			return fmt.Sprintf("element %d is %.200v", i, fmt.Sprintf("%#v", g))
		}
	}
	return ""
}

func normal(v any) any {
	if l, ok := v.([]string); ok {
		return strList(l)
	}
	return v
}

// sameWire: equal, and integers are integers
func sameWire(g, w any, top, js bool) bool {
	w = normal(w)
	if top && emptyVal(g) && emptyVal(w) && (g != nil || w == nil) {
		return true
	}
	switch x := w.(type) {
	case []any:
		y, ok := g.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameWire(y[i], x[i], false, js) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := g.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			if u, ok := y[k]; !ok || !sameWire(u, v, false, js) {
				return false
			}
		}
		return true
	case float64:
		// in JSON the text of a large float looks like an integer
		if i, ok := g.(int64); ok {
			return js && float64(i) == x
		}
		_, isF := g.(float64)
		return isF && exact(g, w, false)
	}
	if _, num := toNum(w); num {
		if _, isF := g.(float64); isF {
			return false
		}
	}
	return exact(g, w, false)
}

// refDecode decodes strictly, with decoders other than the library's.
func refDecode(ser string, b []byte) (v any, bad string) {
	switch ser {
	case "MsgPack":
		v, rest, ok := mpDecode(b, 0)
		if !ok || len(rest) > 0 {
			return nil, fmt.Sprintf("it is not one MsgPack value: %.100x", b)
		}
		return v, ""
	case "CBOR":
		v, rest, ok := cborDecode(b, 0)
		if !ok || len(rest) > 0 {
			return nil, fmt.Sprintf("it is not one CBOR value: %.100x", b)
		}
		return v, ""
	}
	if !utf8.Valid(b) {
		return nil, fmt.Sprintf("it is not UTF-8: %.100q", b)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, fmt.Sprintf("it is not JSON: %v", err)
	}
	if strings.TrimSpace(string(b[d.InputOffset():])) != "" {
		return nil, "there is something after the JSON value"
	}
	return jsonNumbers(v), ""
}

func jsonNumbers(v any) any {
	switch x := v.(type) {
	case json.Number:
		s := string(x)
		if !strings.ContainsAny(s, ".eE") {
			if i, err := x.Int64(); err == nil {
				return i
			}
		}
		f, _ := x.Float64()
		return f
	case []any:
		for i := range x {
			x[i] = jsonNumbers(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = jsonNumbers(x[k])
		}
	}
	return v
}

// cborDecode is a small reference decoder for the part of CBOR that WAMP uses (no tags).
func cborDecode(b []byte, depth int) (v any, rest []byte, ok bool) {
	if len(b) == 0 || depth > 64 {
		return nil, nil, false
	}
	major, info := b[0]>>5, b[0]&31
	b = b[1:]
	var n uint64
	indefinite := false
	switch {
	case info < 24:
		n = uint64(info)
	case info < 28:
		w := 1 << (info - 24)
		if len(b) < w {
			return nil, nil, false
		}
		var x [8]byte
		copy(x[8-w:], b[:w])
		n, b = binary.BigEndian.Uint64(x[:]), b[w:]
	case info == 31 && major >= 2 && major <= 5:
		indefinite = true
	default:
		return nil, nil, false
	}
	brk := func() bool {
		if len(b) > 0 && b[0] == 0xff {
			b = b[1:]
			return true
		}
		return false
	}
	switch major {
	case 0:
		return n, b, true
	case 1:
		if n > math.MaxInt64 {
			return nil, nil, false
		}
		return -1 - int64(n), b, true
	case 2, 3:
		var s []byte
		if indefinite {
			for !brk() {
				if len(b) == 0 || b[0]>>5 != major || b[0]&31 == 31 {
					return nil, nil, false
				}
				c, r, ok := cborDecode(b, depth+1)
				if !ok {
					return nil, nil, false
				}
				if t, isS := c.(string); isS {
					s = append(s, t...)
				} else {
					s = append(s, c.([]byte)...)
				}
				b = r
			}
		} else {
			if n > uint64(len(b)) {
				return nil, nil, false
			}
			s, b = b[:n], b[n:]
		}
		if major == 3 {
			return string(s), b, utf8.Valid(s)
		}
		return append([]byte{}, s...), b, true
	case 4:
		l := []any{}
		for i := uint64(0); indefinite || i < n; i++ {
			if indefinite && brk() {
				break
			}
			e, r, ok := cborDecode(b, depth+1)
			if !ok {
				return nil, nil, false
			}
			l, b = append(l, e), r
		}
		return l, b, true
	case 5:
		m := map[string]any{}
		for i := uint64(0); indefinite || i < n; i++ {
			if indefinite && brk() {
				break
			}
			k, r, ok := cborDecode(b, depth+1)
			if !ok {
				return nil, nil, false
			}
			ks, isS := k.(string)
			if !isS {
				return nil, nil, false
			}
			if _, dup := m[ks]; dup {
				return nil, nil, false
			}
			e, r, ok := cborDecode(r, depth+1)
			if !ok {
				return nil, nil, false
			}
			m[ks], b = e, r
		}
		return m, b, true
	case 7:
		switch info {
		case 20, 21:
			return info == 21, b, true
		case 22:
			return nil, b, true
		case 25:
			return float64(halfFloat(uint16(n))), b, true
		case 26:
			return float64(math.Float32frombits(uint32(n))), b, true
		case 27:
			return math.Float64frombits(n), b, true
		}
	}
	return nil, nil, false
}

func halfFloat(h uint16) float64 {
	e, m := int(h>>10&31), float64(h&1023)
	var f float64
	switch e {
	case 0:
		f = math.Ldexp(m, -24)
	case 31:
		if m != 0 {
			return math.NaN()
		}
		f = math.Inf(1)
	default:
		f = math.Ldexp(1024+m, e-25)
	}
	if h&0x8000 != 0 {
		return -f
	}
	return f
}

// A styler decides at each point of an encoding which of n valid forms to use.
type styler func(n int) int

func styledEncode(ser string, v any, st styler) []byte {
	var b bytes.Buffer
	switch ser {
	case "MsgPack":
		mpStyled(&b, v, st)
	case "CBOR":
		cborStyled(&b, v, st)
	default:
		jsonSpace(&b, st)
		jsonStyled(&b, v, st)
		jsonSpace(&b, st)
	}
	return b.Bytes()
}

func styledKeys(m map[string]any, st styler) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 1 && st(2) == 1 {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

func mpHead(b *bytes.Buffer, n uint64, fixMax uint64, fix byte, codes []byte, widths []int, st styler) {
	type form struct {
		code byte
		w    int
	}
	var fs []form
	if n <= fixMax && fixMax > 0 {
		fs = append(fs, form{fix | byte(n), 0})
	}
	for i, w := range widths {
		if w == 8 || n < 1<<(8*w) {
			fs = append(fs, form{codes[i], w})
		}
	}
	f := fs[st(len(fs))]
	b.WriteByte(f.code)
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], n)
	b.Write(x[8-f.w:])
}

func mpStyled(b *bytes.Buffer, v any, st styler) {
	v = normal(v)
	switch x := v.(type) {
	case nil:
		b.WriteByte(0xc0)
		return
	case bool:
		b.WriteByte(map[bool]byte{false: 0xc2, true: 0xc3}[x])
		return
	case string:
		mpHead(b, uint64(len(x)), 31, 0xa0, []byte{0xd9, 0xda, 0xdb}, []int{1, 2, 4}, st)
		b.WriteString(x)
		return
	case []byte:
		mpHead(b, uint64(len(x)), 0, 0, []byte{0xc4, 0xc5, 0xc6}, []int{1, 2, 4}, st)
		b.Write(x)
		return
	case []any:
		mpHead(b, uint64(len(x)), 15, 0x90, []byte{0xdc, 0xdd}, []int{2, 4}, st)
		for _, e := range x {
			mpStyled(b, e, st)
		}
		return
	case map[string]any:
		mpHead(b, uint64(len(x)), 15, 0x80, []byte{0xde, 0xdf}, []int{2, 4}, st)
		for _, k := range styledKeys(x, st) {
			mpStyled(b, k, st)
			mpStyled(b, x[k], st)
		}
		return
	case float64:
		if float64(float32(x)) == x && st(2) == 1 {
			b.WriteByte(0xca)
			_ = binary.Write(b, binary.BigEndian, float32(x))
			return
		}
		b.WriteByte(0xcb)
		_ = binary.Write(b, binary.BigEndian, x)
		return
	}
	n, ok := toNum(v)
	if !ok {
		panic(fmt.Sprintf("mpStyled: %T", v))
	}
	if !n.neg {
		codes, widths := []byte{0xcc, 0xcd, 0xce, 0xcf}, []int{1, 2, 4, 8}
		// the signed forms hold it as well
		for i, w := range []int{1, 2, 4, 8} {
			if n.mag < 1<<(8*w-1) {
				codes, widths = append(codes, 0xd0+byte(i)), append(widths, w)
			}
		}
		mpHead(b, n.mag, 127, 0, codes, widths, st)
		return
	}
	i := int64(-n.mag)
	type form struct {
		code byte
		w    int
	}
	var fs []form
	if i >= -32 {
		fs = append(fs, form{byte(i), 0})
	}
	for j, w := range []int{1, 2, 4, 8} {
		if w == 8 || i >= -(1<<(8*w-1)) {
			fs = append(fs, form{0xd0 + byte(j), w})
		}
	}
	f := fs[st(len(fs))]
	b.WriteByte(f.code)
	var y [8]byte
	binary.BigEndian.PutUint64(y[:], uint64(i))
	b.Write(y[8-f.w:])
}

func cborHead(b *bytes.Buffer, major byte, n uint64, st styler, more int) (indefinite int) {
	type form struct {
		info byte
		w    int
	}
	var fs []form
	if n < 24 {
		fs = append(fs, form{byte(n), 0})
	}
	for i, w := range []int{1, 2, 4, 8} {
		if w == 8 || n < 1<<(8*w) {
			fs = append(fs, form{24 + byte(i), w})
		}
	}
	c := st(len(fs) + more)
	if c >= len(fs) {
		b.WriteByte(major<<5 | 31)
		return c - len(fs) + 1
	}
	b.WriteByte(major<<5 | fs[c].info)
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], n)
	b.Write(x[8-fs[c].w:])
	return 0
}

func cborStyled(b *bytes.Buffer, v any, st styler) {
	v = normal(v)
	text := func(major byte, s string) {
		split := 0
		for split < len(s) && split < 3 || split < len(s) && major == 3 && !utf8.RuneStart(s[split]) {
			split++
		}
		var chunks []string
		switch cborHead(b, major, uint64(len(s)), st, 3) {
		case 0:
			b.WriteString(s)
			return
		case 1:
			if s != "" {
				chunks = []string{s}
			}
		case 2:
			chunks = []string{s[:split], s[split:]}
		case 3:
			chunks = []string{"", s, ""}
		}
		for _, c := range chunks {
			cborHead(b, major, uint64(len(c)), func(int) int { return 0 }, 0)
			b.WriteString(c)
		}
		b.WriteByte(0xff)
	}
	switch x := v.(type) {
	case nil:
		b.WriteByte(0xf6)
		return
	case bool:
		b.WriteByte(map[bool]byte{false: 0xf4, true: 0xf5}[x])
		return
	case string:
		text(3, x)
		return
	case []byte:
		text(2, string(x))
		return
	case []any:
		ind := cborHead(b, 4, uint64(len(x)), st, 1)
		for _, e := range x {
			cborStyled(b, e, st)
		}
		if ind > 0 {
			b.WriteByte(0xff)
		}
		return
	case map[string]any:
		ind := cborHead(b, 5, uint64(len(x)), st, 1)
		for _, k := range styledKeys(x, st) {
			cborStyled(b, k, st)
			cborStyled(b, x[k], st)
		}
		if ind > 0 {
			b.WriteByte(0xff)
		}
		return
	case float64:
		var fs []func()
		fs = append(fs, func() { b.WriteByte(0xfb); _ = binary.Write(b, binary.BigEndian, x) })
		if float64(float32(x)) == x {
			fs = append(fs, func() { b.WriteByte(0xfa); _ = binary.Write(b, binary.BigEndian, float32(x)) })
		}
		for h := 0; h < 65536; h++ {
			if halfFloat(uint16(h)) == x {
				fs = append(fs, func() { b.WriteByte(0xf9); _ = binary.Write(b, binary.BigEndian, uint16(h)) })
				break
			}
		}
		fs[st(len(fs))]()
		return
	}
	n, ok := toNum(v)
	if !ok {
		panic(fmt.Sprintf("cborStyled: %T", v))
	}
	if n.neg {
		cborHead(b, 1, n.mag-1, st, 0)
	} else {
		cborHead(b, 0, n.mag, st, 0)
	}
}

var jsonSpaces = []string{"", " ", "\t", "\n", "\r", " \r\n\t  "}

func jsonSpace(b *bytes.Buffer, st styler) { b.WriteString(jsonSpaces[st(len(jsonSpaces))]) }

func jsonString(b *bytes.Buffer, s string, st styler) {
	// forms: only what must be escaped; also / and non-ASCII; everything as \u, in lower and in upper case
	form := st(4)
	b.WriteByte('"')
	for _, r := range s {
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		switch {
		case form >= 2 || form == 1 && r > 126 || r < 32 && short < 0:
			f := `\u%04x`
			if form == 3 {
				f = `\u%04X`
			}
			if r > 0xffff {
				h, l := utf16.EncodeRune(r)
				fmt.Fprintf(b, f+f, h, l)
			} else {
				fmt.Fprintf(b, f, r)
			}
		case short >= 0 && (r != '/' || form == 1):
			b.WriteByte('\\')
			b.WriteByte(`"\/bfnrt`[short])
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

func jsonStyled(b *bytes.Buffer, v any, st styler) {
	v = normal(v)
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
		return
	case bool:
		fmt.Fprint(b, x)
		return
	case string:
		jsonString(b, x, st)
		return
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			jsonSpace(b, st)
			jsonStyled(b, e, st)
			jsonSpace(b, st)
		}
		b.WriteByte(']')
		return
	case map[string]any:
		b.WriteByte('{')
		for i, k := range styledKeys(x, st) {
			if i > 0 {
				b.WriteByte(',')
			}
			jsonSpace(b, st)
			jsonString(b, k, st)
			jsonSpace(b, st)
			b.WriteByte(':')
			jsonSpace(b, st)
			jsonStyled(b, x[k], st)
			jsonSpace(b, st)
		}
		b.WriteByte('}')
		return
	case float64:
		fs := []string{"%.17g", "%.20e", "%.20E"}
		fmt.Fprintf(b, fs[st(len(fs))], x)
		return
	}
	n, ok := toNum(v)
	if !ok {
		panic(fmt.Sprintf("jsonStyled: %T", v))
	}
	if n.neg {
		b.WriteByte('-')
	}
	fmt.Fprint(b, n.mag)
}

// styles calls f with every valid encoding of v that differs from the plain one at up to dev places, and with those that use the same form everywhere.
func styles(ser string, v any, dev int, f func(b []byte, what string) string) (int, string) {
	var counts []int
	plain := styledEncode(ser, v, func(n int) int { counts = append(counts, n); return 0 })
	n := 1
	if bad := f(plain, "plain"); bad != "" {
		return n, bad
	}
	for all := 1; all < 10; all++ {
		n++
		if bad := f(styledEncode(ser, v, func(k int) int { return all % k }), fmt.Sprintf("form %d everywhere", all)); bad != "" {
			return n, bad
		}
		n++
		if bad := f(styledEncode(ser, v, func(k int) int { return min(all, k-1) }), fmt.Sprintf("form up to %d everywhere", all)); bad != "" {
			return n, bad
		}
	}
	var rec func(from int, set map[int]int, left int) string
	rec = func(from int, set map[int]int, left int) string {
		for p := from; p < len(counts); p++ {
			for k := 1; k < counts[p]; k++ {
				set[p] = k
				i := -1
				n++
				b := styledEncode(ser, v, func(c int) int {
					i++
					return min(set[i], c-1)
				})
				if bad := f(b, fmt.Sprintf("other forms at %v", set)); bad != "" {
					return bad
				}
				if left > 1 {
					if bad := rec(p+1, set, left-1); bad != "" {
						return bad
					}
				}
				delete(set, p)
			}
		}
		return ""
	}
	return n, rec(0, map[int]int{}, dev)
}

func sameArgs(g, w any, js bool) bool { return sameWire(g, w, true, js) || g == nil && emptyVal(w) }

var binaryValues = []any{[]byte{}, []byte{0}, []byte("text"), []byte{0xff, 0xfe}, bytes.Repeat([]byte{0x80}, 255), bytes.Repeat([]byte{7}, 256), bytes.Repeat([]byte{0}, 65536)}

// what the joiner and the acceptor announce
func c30roles() string {
	for _, s := range allSerializers {
		j := wampproto.NewJoiner("realm1", s.s, auth.NewAnonymousAuthenticator("joe", map[string]any{"x": 1}))
		b, err := j.SendHello()
		if err != nil {
			return err.Error()
		}
		v, bad := refDecode(s.name, b)
		l, _ := v.([]any)
		if bad != "" || len(l) != 3 || !sameWire(l[0], 1, false, true) || l[1] != "realm1" {
			return fmt.Sprintf("HELLO over %s is %v %s", s.name, v, bad)
		}
		d, _ := l[2].(map[string]any)
		if !sameWire(d["authmethods"], []any{"anonymous"}, false, true) || d["authid"] != "joe" || !sameWire(d["authextra"], map[string]any{"x": 1}, false, true) {
			return fmt.Sprintf("the details of HELLO over %s are %v", s.name, d)
		}
		if bad := announces(d["roles"], map[string]string{"caller": "progressive_call_invocations", "callee": "progressive_call_invocations progressive_call_results",
			"publisher": "publisher_exclusion", "subscriber": ""}); bad != "" {
			return fmt.Sprintf("HELLO over %s: %s", s.name, bad)
		}
		out, welcomed, err := wampproto.NewAcceptor(s.s, nil).Receive(b)
		if err != nil || !welcomed {
			return fmt.Sprintf("HELLO over %s is answered by %v %v", s.name, welcomed, err)
		}
		v, bad = refDecode(s.name, out)
		l, _ = v.([]any)
		if bad != "" || len(l) != 3 || !sameWire(l[0], 2, false, true) {
			return fmt.Sprintf("WELCOME over %s is %v %s", s.name, v, bad)
		}
		d, _ = l[2].(map[string]any)
		if d["realm"] != "realm1" || d["authid"] != "anonymous" || d["authrole"] != "anonymous" || d["authmethod"] != "anonymous" {
			return fmt.Sprintf("the details of WELCOME over %s are %v", s.name, d)
		}
		if bad := announces(d["roles"], map[string]string{"dealer": "progressive_call_invocations", "broker": "publisher_exclusion"}); bad != "" {
			return fmt.Sprintf("WELCOME over %s: %s", s.name, bad)
		}
	}
	return ""
}

func announces(v any, want map[string]string) string {
	roles, ok := v.(map[string]any)
	if !ok {
		return fmt.Sprintf("the roles are %T", v)
	}
	for r, fs := range want {
		d, ok := roles[r].(map[string]any)
		if !ok {
			return fmt.Sprintf("the role %s is missing: %v", r, roles)
		}
		have, _ := d["features"].(map[string]any)
		for _, f := range strings.Fields(fs) {
			if have[f] != true {
				return fmt.Sprintf("the role %s does not announce %s: %v", r, f, have)
			}
		}
		for f, on := range have {
			if _, ok := on.(bool); !ok {
				return fmt.Sprintf("the role %s announces %s as %v", r, f, on)
			}
		}
	}
	return ""
}

func init() {
	register("C30", "exploration", func(c *Ctx) *Violation {
		c.Rule = "(1) every message type x serializer x every assignment that varies any two (quick) or three (thorough) fields over the boundary sets of C21 (and binary values for " +
			"MsgPack and CBOR): the bytes are decoded by reference decoders and compared with the list that WAMP prescribes; (2) every message type x serializer x representative " +
			"fields, encoded by reference encoders in every valid form that differs from the plain one at one (quick) or two (thorough) places, or that uses one form everywhere: " +
			"they have to be decoded to the same fields, messages and payloads alike; (3) the roles announced in HELLO and WELCOME. Every encoding counts"
		if bad := c30roles(); bad != "" {
			return &Violation{Message: bad}
		}
		var evals atomic.Int64
		n, build := c21Cases(c)
		check := func(k *msgKind, v []any, s serT) string {
			evals.Add(1)
			in := append([]any{}, v...)
			b, err := s.s.Serialize(k.mk(in))
			if err != nil {
				return fmt.Sprintf("cannot be serialized: %v", err)
			}
			got, bad := refDecode(s.name, b)
			if bad != "" {
				return bad
			}
			l, ok := got.([]any)
			if !ok {
				return fmt.Sprintf("is encoded as %T", got)
			}
			if bad := k.follows(l, k.wire(v), s.name == "JSON"); bad != "" {
				return "the encoded list does not follow WAMP: " + bad
			}
			return ""
		}
		if i, msg := enum(c, n*3, func(i int) string {
			k, v := build(i / 3)
			return check(k, v, allSerializers[i%3])
		}); i >= 0 {
			k, v := build(i / 3)
			return &Violation{Message: fmt.Sprintf("%s\n  %s with fields %.600s over %s", msg, k.name, fmt.Sprintf("%#v", v), allSerializers[i%3].name), Case: i}
		}
		c.Cov["encoded"] = evals.Load()

		// other valid encodings
		type job struct {
			k *msgKind
			v []any
			s serT
		}
		var jobs []job
		vals := map[byte][]any{'i': {uint64(1), uint64(200), uint64(70000), uint64(1 << 53)}, 's': {"com.x.y", "a/\"\\\n\x00é日\U0001F600", "", strings.Repeat("s", 40)},
			'd': {map[string]any{"a": 1, "b": []any{-1, "x", nil}}, map[string]any{}, map[string]any{"ü\n": map[string]any{"": 0.5}, "t": true}, bigMap(17)},
			'A': {[]any{"x", -200, 0.5, map[string]any{"k": "v", "l": []any{}}}, []any{}, bigList(17), []any{nil, false, "é\u2028", -40000, 1 << 40, 1.5e300}},
			'l': {[]string{"anonymous", "ticket"}, []string{}, []string{"a"}, []string{"wampcra"}}}
		vals['K'] = vals['d']
		for ki := range msgKinds {
			k := &msgKinds[ki]
			for x := 0; x < 4; x++ {
				l := k.ctorLayout()
				v := make([]any, len(l))
				for p := range v {
					v[p] = vals[l[p]][x]
				}
				for _, s := range allSerializers {
					jobs = append(jobs, job{k, v, s})
					if s.name != "JSON" && strings.ContainsAny(l, "A") {
						w := append([]any{}, v...)
						w[strings.IndexByte(l, 'A')] = append([]any{}, binaryValues[:6]...)
						jobs = append(jobs, job{k, w, s})
					}
				}
			}
		}
		dev := Pick(c, 1, 2)
		if i, msg := enumChunk(len(jobs), 1, func(i int) string {
			j := jobs[i]
			d := dev
			if j.k.name == "HELLO" || x4(j.v) {
				d = 1
			}
			n, bad := styles(j.s.name, j.k.wire(j.v), d, func(b []byte, what string) string {
				v, bad := refDecode(j.s.name, b)
				if l, ok := v.([]any); bad != "" || !ok || j.k.follows(l, j.k.wire(j.v), j.s.name == "JSON") != "" {
					panic(fmt.Sprintf("the reference encoder is wrong: %s %x (%s)", what, b, bad))
				}
				out, err := j.s.s.Deserialize(b)
				if err != nil {
					return fmt.Sprintf("a valid encoding (%s) is refused: %v\n  %.600q", what, err, b)
				}
				if out.Type() != j.k.typ {
					return fmt.Sprintf("a valid encoding (%s) is understood as type %d\n  %.600q", what, out.Type(), b)
				}
				for p, g := range j.k.get(out) {
					if !exact(g, j.v[p], true) {
						return fmt.Sprintf("in a valid encoding (%s) field %d is understood as %.300s\n  %.600q", what, p, fmt.Sprintf("%#v", g), b)
					}
				}
				return ""
			})
			evals.Add(int64(n))
			return bad
		}); i >= 0 {
			return &Violation{Message: fmt.Sprintf("%s\n  %s with fields %.600s over %s", msg, jobs[i].k.name, fmt.Sprintf("%#v", jobs[i].v), jobs[i].s.name), Case: i}
		}
		c.Cov["other_forms"] = evals.Load()

		// payloads
		type pjob struct {
			a  []any
			k  map[string]any
			id uint64
		}
		var pjobs []pjob
		for id := uint64(1); id <= 3; id++ {
			for _, a := range vals['A'] {
				for _, k := range vals['K'] {
					pjobs = append(pjobs, pjob{a.([]any), k.(map[string]any), id})
				}
			}
			if id > 1 {
				pjobs = append(pjobs, pjob{binaryValues[:6], map[string]any{"b": []byte{1, 2}}, id})
			}
		}
		if i, msg := enumChunk(len(pjobs), 1, func(i int) string {
			j := pjobs[i]
			ser := []string{"", "JSON", "MsgPack", "CBOR"}[j.id]
			n, bad := styles(ser, []any{j.a, j.k}, 1, func(b []byte, what string) string {
				a, k, err := serializers.DeserializePayload(j.id, b)
				if err != nil {
					return fmt.Sprintf("a valid payload (%s) is refused: %v\n  %.600q", what, err, b)
				}
				if !exact(a, j.a, true) || !exact(k, j.k, true) {
					return fmt.Sprintf("a valid payload (%s) is understood as %.300s\n  %.600q", what, fmt.Sprintf("%#v %#v", a, k), b)
				}
				return ""
			})
			evals.Add(int64(n))
			b, err := serializers.SerializePayload(j.id, j.a, j.k)
			if err != nil {
				return fmt.Sprint("cannot be serialized: ", err)
			}
			var v any = []any{} // nothing at all stands for no arguments
			bad2 := ""
			if len(b) > 0 {
				v, bad2 = refDecode(ser, b)
			}
			l, isL := v.([]any)
			for isL && len(l) < 2 { // what is empty may be left out
				l = append(l, nil)
			}
			if bad == "" && (bad2 != "" || len(l) != 2 || !sameArgs(l[0], j.a, j.id == 1) || !sameArgs(l[1], j.k, j.id == 1)) {
				bad = fmt.Sprintf("its encoding is not the list of arguments and keyword arguments: %s %.300q", bad2, b)
			}
			return bad
		}); i >= 0 {
			return &Violation{Message: fmt.Sprintf("%s\n  payload %.300v %.300v, serializer %d", msg, fmt.Sprint(pjobs[i].a), fmt.Sprint(pjobs[i].k), pjobs[i].id), Case: i}
		}
		c.Evals = evals.Load()
		c.Distinct = c.Evals - int64(len(msgKinds)*3)
		for _, j := range []int{1, len(jobs) / 2, len(jobs) - 1} {
			c.Sample(fmt.Sprintf("%s %.200v over %s", jobs[j].k.name, fmt.Sprint(jobs[j].v), jobs[j].s.name))
		}
		c.Assumptions = append(c.Assumptions, "no tags or extension types; ids are written as plain integers; announcing further features is not judged")
		return nil
	})
}

// x4: too large to vary at two places
func x4(v []any) bool { return len(fmt.Sprint(v)) > 300 }
