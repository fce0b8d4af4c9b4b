package main

import (
	"bytes"
	"fmt"
	"math"
	"sync/atomic"

	"github.com/xconnio/wampproto-go/serializers"
)

type codec struct {
	name string
	lib  string // JSON, MsgPack, CBOR
	enc  func([]any, map[string]any) ([]byte, error)
	dec  func([]byte) ([]any, map[string]any, error)
	full bool // refuses payloads without both elements
}

func codecs() []codec {
	ser := func(id uint64) (func([]any, map[string]any) ([]byte, error), func([]byte) ([]any, map[string]any, error)) {
		return func(a []any, k map[string]any) ([]byte, error) { return serializers.SerializePayload(id, a, k) },
			func(b []byte) ([]any, map[string]any, error) { return serializers.DeserializePayload(id, b) }
	}
	out := []codec{
		{"CBOREncodePayload/CBORDecodePayload", "CBOR", serializers.CBOREncodePayload, serializers.CBORDecodePayload, false},
		{"MsgPackEncodePayload/MsgPackDecodePayload", "MsgPack", serializers.MsgPackEncodePayload, serializers.MsgPackDecodePayload, false},
		{"JSONEncodePayload/JSONDecodePayload", "JSON", serializers.JSONEncodePayload, serializers.JSONDecodePayload, false},
		{"EncodeCBOR/DecodeCBOR", "CBOR", serializers.EncodeCBOR, serializers.DecodeCBOR, true},
	}
	for _, x := range []struct {
		id  uint64
		lib string
	}{{1, "JSON"}, {2, "MsgPack"}, {3, "CBOR"}} {
		e, d := ser(x.id)
		out = append(out, codec{fmt.Sprintf("SerializePayload/DeserializePayload(%d)", x.id), x.lib, e, d, false})
	}
	return out
}

func init() {
	register("C23", "exploration", func(c *Ctx) *Violation {
		c.Rule = "(1) every pair of argument list and keyword dictionary from the boundary sets through every codec; (2) every byte string of up to 3 bytes " +
			"(JSON: also every string of up to 5, thorough 6, characters of the JSON alphabet) and every container header with boundary lengths into every decoder: payload or error, and whatever is " +
			"accepted has the decoded content; (3) every single-byte alteration of encoded payloads; (4) nesting up to 16 million levels; (5) the pass-through codec on every " +
			"argument shape and serializer ids 0..300 and boundary ids. Round trips and byte strings that decode to a list count as distinct and non-trivial"
		var evals, distinct atomic.Int64
		lists, maps := c21Lists(c), c21Maps(c)
		for _, k := range []int{65535, 65536} {
			lists, maps = append(lists, bigList(k)), append(maps, bigMap(k))
		}
		cs := codecs()
		trip := func(cd codec, a []any, k map[string]any) string {
			evals.Add(1)
			distinct.Add(1)
			b, err := cd.enc(a, k)
			if err != nil {
				return fmt.Sprintf("%s: encoding fails: %v", cd.name, err)
			}
			ga, gk, err := cd.dec(b)
			if err != nil {
				return fmt.Sprintf("%s: the encoded payload %.60x is refused: %v", cd.name, b, err)
			}
			if !exact(ga, a, true) || !exact(gk, k, true) {
				return fmt.Sprintf("%s: came back as %.300s %.300s", cd.name, fmt.Sprintf("%#v", ga), fmt.Sprintf("%#v", gk))
			}
			return ""
		}
		n := len(lists) * len(maps)
		if i, msg := enumChunk(n*len(cs), 8, func(i int) string {
			cd := cs[i%len(cs)]
			i /= len(cs)
			li, mi := i%len(lists), i/len(lists)
			if li >= len(lists)-2 && mi != 0 && mi < len(maps)-2 {
				return "" // the huge ones only with each other and with none
			}
			if mi >= len(maps)-2 && li != 0 && li < len(lists)-2 {
				return ""
			}
			return trip(cd, lists[li].([]any), maps[mi].(map[string]any))
		}); i >= 0 {
			j := i / len(cs)
			return &Violation{Message: fmt.Sprintf("%s\n  arguments %.300s keyword arguments %.300s", msg, fmt.Sprintf("%#v", lists[j%len(lists)]), fmt.Sprintf("%#v", maps[j/len(lists)])), Case: i}
		}
		// decoding
		one := func(cd codec, b []byte) string {
			evals.Add(1)
			cr := crumbStart(cd.name, b)
			a, k, err := cd.dec(b)
			crumbDone(cr)
			if err != nil {
				return ""
			}
			if len(b) == 0 {
				if len(a) != 0 || len(k) != 0 {
					return fmt.Sprintf("%s: the empty payload decodes to %v %v", cd.name, a, k)
				}
				return ""
			}
			l, ok := generic(cd.lib, b)
			if !ok {
				if notAList(cd.lib, b) && len(a)+len(k) > 0 { // null may stand for no payload
					return fmt.Sprintf("%s: bytes that are no list are accepted as %.100v %.100v", cd.name, a, k)
				}
				return ""
			}
			distinct.Add(1)
			if len(l) > 2 && !cd.full || len(l) > 0 && class(l[0]) != 'A' || len(l) > 1 && class(l[1]) != 'd' {
				return fmt.Sprintf("%s: %.100s is accepted as %.200s %.200s", cd.name, fmt.Sprintf("%#v", l), fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", k))
			}
			var wa, wk any
			if len(l) > 0 {
				wa = l[0]
			}
			if len(l) > 1 {
				wk = l[1]
			}
			if !exact(a, wa, true) || !exact(k, wk, true) {
				return fmt.Sprintf("%s: %.100s decodes to %.200s %.200s", cd.name, fmt.Sprintf("%#v", l), fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", k))
			}
			return ""
		}
		for _, cd := range cs {
			cd := cd
			if cd.lib == "JSON" {
				ab := []byte("[]{}\",:0139-.eE tnul\\\n")
				max := Pick(c, 5, 6)
				total, p := 0, 1
				for i := 0; i <= max; i++ {
					total += p
					p *= len(ab)
				}
				str := func(i int) []byte {
					var b []byte
					for i > 0 {
						i--
						b = append(b, ab[i%len(ab)])
						i /= len(ab)
					}
					return b
				}
				if i, msg := enumChunk(total, 4096, func(i int) string { return one(cd, str(i)) }); i >= 0 {
					return &Violation{Message: msg, Case: fmt.Sprintf("%q", str(i))}
				}
			}
			short := 1 + 256 + 65536 + 1<<24
			if c.Quick() && cd.lib == "JSON" {
				short = 1 + 256 + 65536
			}
			if i, msg := enumChunk(short, 4096, func(i int) string { return one(cd, shortBytes(i)) }); i >= 0 {
				return &Violation{Message: msg, Case: fmt.Sprintf("%x", shortBytes(i))}
			}
			var alts [][]byte
			for _, p := range []struct {
				a []any
				k map[string]any
			}{{[]any{"x", 300, nil}, nil}, {nil, map[string]any{"k": []any{1.5}}}, {[]any{map[string]any{"a": true}}, map[string]any{"b": "c"}}} {
				b, err := cd.enc(p.a, p.k)
				if err != nil {
					return &Violation{Message: err.Error()}
				}
				for i := range b {
					alts = append(alts, b[:i])
					for x := 0; x < 256; x++ {
						y := append([]byte{}, b...)
						y[i] = byte(x)
						alts = append(alts, y, append(append(append([]byte{}, b[:i]...), byte(x)), b[i:]...))
					}
				}
			}
			for _, l := range []any{[]any{}, []any{[]any{}}, []any{nil}, []any{map[string]any{}}, []any{1}, []any{[]any{}, nil}, []any{[]any{}, []any{}}, []any{nil, nil},
				[]any{[]any{1}, map[string]any{"a": 1}, 3}, []any{map[string]any{}, []any{}}, []any{"a", "b"}, []any{nil, map[string]any{"a": 1}}, []any{[]any{1}, "x"}, []any{[]any{1}, nil}, []any{[]any{1}, map[string]any{}, nil}, []any{[]any{}, map[string]any{}, map[string]any{}},
				[]any{[]any{1}, map[string]any{"a": 1}, 3, 4}, []any{[]any{}, 0}, []any{"", map[string]any{}}, []any{false, map[string]any{}}, []any{nil}, []any{[]any{1}, []any{map[string]any{}}}} {
				b, _ := encodeList(cd.lib, l.([]any))
				alts = append(alts, b)
				for x := 0; x < 256; x++ {
					alts = append(alts, append(append([]byte{}, b...), byte(x)))
				}
			}
			alts = append(alts, headerBytes(cd.lib)...)
			if cd.lib == "MsgPack" {
				alts = append(alts, smuggled()...)
			}
			if i, msg := enumChunk(len(alts), 256, func(i int) string { return one(cd, alts[i]) }); i >= 0 {
				return &Violation{Message: msg, Case: fmt.Sprintf("%x", alts[i])}
			}
			for _, n := range []int{10, 33, 10000, 100000, 16000000} {
				h := map[string]string{"JSON": "[", "MsgPack": "\x91", "CBOR": "\x81"}[cd.lib]
				evals.Add(1)
				b := append(bytes.Repeat([]byte(h), n), map[string]string{"JSON": "0", "MsgPack": "\x00", "CBOR": "\x00"}[cd.lib]...)
				if cd.lib == "JSON" {
					b = append(b, bytes.Repeat([]byte("]"), n)...)
				}
				cd.dec(b) // must return
			}
		}
		// pass-through
		for _, raw := range [][]byte{{}, {0}, []byte("[1]"), bytes.Repeat([]byte{0xff}, 70000)} {
			for _, k := range []map[string]any{nil, {}} {
				evals.Add(1)
				distinct.Add(1)
				b, err := serializers.SerializePayload(0, []any{append([]byte{}, raw...)}, k)
				if err != nil || !bytes.Equal(b, raw) {
					return &Violation{Message: fmt.Sprintf("the pass-through codec turns %.20x into %.20x, error %v", raw, b, err)}
				}
			}
			evals.Add(1)
			a, k, err := serializers.DeserializePayload(0, raw)
			if err != nil {
				return &Violation{Message: "the pass-through codec refuses bytes: " + err.Error()}
			}
			ok := len(k) == 0 && len(a) == 1
			if ok {
				x, isB := a[0].([]byte)
				ok = isB && bytes.Equal(x, raw)
			}
			if !ok {
				return &Violation{Message: fmt.Sprintf("the pass-through codec delivers %.20x as %v %v", raw, a, k)}
			}
		}
		bad := [][]any{{"s"}, {1}, {nil}, {[]any{}}, {map[string]any{}}, {[]byte{1}, []byte{2}}, {[]byte{1}, nil}, {true, []byte{1}}}
		for _, a := range bad {
			for _, k := range []map[string]any{nil, {}, {"a": 1}} {
				evals.Add(1)
				distinct.Add(1)
				if b, err := serializers.SerializePayload(0, a, k); err == nil {
					return &Violation{Message: fmt.Sprintf("the pass-through codec accepts %#v %v as %x", a, k, b)}
				}
			}
		}
		for _, a := range [][]any{nil, {}, {[]byte{1}}} {
			evals.Add(1)
			if b, err := serializers.SerializePayload(0, a, map[string]any{"a": 1}); err == nil {
				return &Violation{Message: fmt.Sprintf("the pass-through codec drops keyword arguments next to %v: %x", a, b)}
			}
		}
		ids := []uint64{math.MaxUint64, 1 << 32, 1<<32 + 1, 1 << 53, 256, 257, 1 << 63}
		for i := uint64(4); i <= 300; i++ {
			ids = append(ids, i)
		}
		for e := 8; e < 64; e++ {
			for d := uint64(0); d < 4; d++ {
				ids = append(ids, 1<<e+d, math.MaxUint64<<e+d)
			}
		}
		for _, id := range ids {
			for _, b := range [][]byte{nil, {}, []byte("[]"), {0x80}, {0x90}} {
				evals.Add(1)
				if _, _, err := serializers.DeserializePayload(id, b); err == nil {
					return &Violation{Message: fmt.Sprintf("payload serializer %d is accepted for decoding %x", id, b)}
				}
			}
			for _, a := range [][]any{nil, {}, {1}, {[]byte{1}}} {
				evals.Add(1)
				if _, err := serializers.SerializePayload(id, a, nil); err == nil {
					return &Violation{Message: fmt.Sprintf("payload serializer %d is accepted for encoding %v", id, a)}
				}
			}
		}
		c.Evals, c.Distinct = evals.Load(), distinct.Load()
		c.Sample("every codec: [nil true ... map] x {\"\": {}}")
		c.Sample("MsgPackDecodePayload dd ff ff ff ff")
		c.Sample("SerializePayload(0, [\"s\"], {})")
		c.Assumptions = append(c.Assumptions, "the pass-through codec without any argument: not specified", "numbers limited to those a JSON double represents exactly")
		return nil
	})
}

func shortBytes(i int) []byte {
	switch {
	case i == 0:
		return nil
	case i < 257:
		return []byte{byte(i - 1)}
	case i < 257+65536:
		i -= 257
		return []byte{byte(i >> 8), byte(i)}
	}
	i -= 257 + 65536
	return []byte{byte(i >> 16), byte(i >> 8), byte(i)}
}

// smuggled gives MsgPack lists with a container announcing 2^32 elements behind, and inside, items of every form, filled such that a reader
// who takes the item for longer or shorter than it is, or the container for smaller, does not meet it.
func smuggled() (out [][]byte) {
	bomb := []byte{0xdd, 0xff, 0xff, 0xff, 0xff}
	pad := make([]byte, 300)
	join := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	// scalars
	var items [][]byte
	fixed := func(code byte, size int) {
		for _, last := range []byte{0, 0xd9, 0xc4, 0xc7, 0xa1, 0xbf} {
			x := make([]byte, size)
			x[0] = code
			if size > 1 {
				x[size-1] = last
			}
			if code >= 0xd4 && code <= 0xd8 {
				x[1] = 0xff // the timestamp type
			}
			items = append(items, x)
		}
	}
	for code, size := range map[byte]int{0: 1, 0x7f: 1, 0xe0: 1, 0xff: 1, 0xc0: 1, 0xc2: 1, 0xc3: 1, 0xcc: 2, 0xcd: 3, 0xce: 5, 0xcf: 9, 0xd0: 2, 0xd1: 3, 0xd2: 5, 0xd3: 9, 0xca: 5, 0xcb: 9,
		0xd4: 3, 0xd5: 4, 0xd6: 6, 0xd7: 10, 0xd8: 18} {
		fixed(code, size)
	}
	for n := 0; n < 32; n++ {
		fixed(0xa0|byte(n), 1+n)
	}
	for _, f := range []struct {
		code byte
		w    int
		ext  bool
	}{{0xd9, 1, false}, {0xda, 2, false}, {0xdb, 4, false}, {0xc4, 1, false}, {0xc5, 2, false}, {0xc6, 4, false}, {0xc7, 1, true}, {0xc8, 2, true}, {0xc9, 4, true}} {
		for _, n := range []int{0, 1, 2, 4, 8, 12, 127, 128, 200, 255, 256, 257, 32767, 32768, 65535, 65536, 65537} {
			if n >= 1<<(8*f.w) {
				continue
			}
			for _, last := range []byte{0, 0xd9} {
				x := []byte{f.code}
				for i := f.w - 1; i >= 0; i-- {
					x = append(x, byte(n>>(8*i)))
				}
				if f.ext {
					x = append(x, 0xff)
				}
				body := make([]byte, n)
				if n > 0 {
					body[n-1] = last
				}
				items = append(items, append(x, body...))
			}
		}
	}
	for _, x := range items {
		for _, gap := range [][]byte{nil, {0x20}, {0x20, 0}, {0x01, 0x20}, {0, 0, 0, 0x20}} {
			for _, n := range []byte{2, 4, 9} {
				out = append(out, join([]byte{0x90 | n}, x, gap, bomb, pad), join([]byte{0x92, 0x90 | n}, x, gap, bomb, pad), join([]byte{0x92, 0x90, 0x80 | n, 0xa0}, x, gap, bomb, pad))
			}
		}
	}
	// containers whose last element is the bomb
	head := func(code byte, w int, n int) []byte {
		x := []byte{code}
		for i := w - 1; i >= 0; i-- {
			x = append(x, byte(n>>(8*i)))
		}
		return x
	}
	for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 127, 128, 255, 256, 257, 32768, 65535, 65536} {
		var lists, maps [][]byte
		if n < 16 {
			lists, maps = append(lists, []byte{0x90 | byte(n)}), append(maps, []byte{0x80 | byte(n)})
		}
		if n < 1<<16 {
			lists, maps = append(lists, head(0xdc, 2, n)), append(maps, head(0xde, 2, n))
		}
		lists, maps = append(lists, head(0xdd, 4, n)), append(maps, head(0xdf, 4, n))
		for _, h := range lists {
			out = append(out, join(h, make([]byte, n-1), bomb), join([]byte{0x91}, h, make([]byte, n-1), bomb, pad), join([]byte{0x92, 0x90}, h, make([]byte, n-1), bomb))
		}
		for _, h := range maps {
			body := bytes.Repeat([]byte{0xa1, 'k', 0}, n-1)
			out = append(out, join([]byte{0x91}, h, body, []byte{0xa0}, bomb), join([]byte{0x92, 0x90}, h, body, []byte{0xa0}, bomb, pad), join([]byte{0x93, 0x10, 0x10}, h, body, []byte{0xa0}, bomb))
		}
	}
	return
}

// headerBytes gives every initial byte with boundary length bytes, alone and
// inside a list.
func headerBytes(lib string) [][]byte {
	var alts [][]byte
	lens := []byte{0, 1, 0x7f, 0x80, 0xff}
	for h := 0; h < 256; h++ {
		for _, w := range []int{1, 2, 4, 8} {
			if w == 8 && lib != "CBOR" {
				continue
			}
			for x := 0; x < 625; x++ {
				y := x
				b := []byte{byte(h)}
				for i := 0; i < w; i++ {
					d := 0
					if i < 4 {
						d = y % 5
						y /= 5
					}
					b = append(b, lens[d])
				}
				if y > 0 {
					continue
				}
				alts = append(alts, b, append([]byte{0x92, 0x90}, b...), append([]byte{0x82, 0x80}, b...), append([]byte{0x92, 0x10}, b...), append([]byte{0x82, 0x10}, b...))
			}
		}
	}
	return alts
}
