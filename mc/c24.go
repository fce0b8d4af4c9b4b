package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync/atomic"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/transports"
	"github.com/xconnio/wampproto-go/util"
)

func sendable(size int) (exp int, ok bool) {
	for e := 9; e <= 24; e++ {
		if size == 1<<e {
			return e, true
		}
	}
	return 0, false
}

func recvHandshake(b []byte) string {
	hs, err := transports.ReceiveHandshake(append([]byte{}, b...))
	want := len(b) == 4 && b[0] == 0x7F && b[2] == 0 && b[3] == 0
	if (hs == nil) == (err == nil) {
		return fmt.Sprintf("handshake %x: result %v and error %v", b, hs, err)
	}
	if want != (err == nil) {
		return fmt.Sprintf("handshake %x: accepted %v, should be %v", b, err == nil, want)
	}
	if err == nil && (int(hs.Serializer()) != int(b[1]&15) || hs.MaxMessageSize() != 1<<(9+int(b[1]>>4))) {
		return fmt.Sprintf("handshake %x: serializer %d, size %d", b, hs.Serializer(), hs.MaxMessageSize())
	}
	return ""
}

func sendHandshake(ser, size int) string {
	b, err := transports.SendHandshake(transports.NewHandshake(transports.Serializer(ser), size))
	e, ok := sendable(size)
	if !ok {
		if err == nil {
			return fmt.Sprintf("sending maximum size %d is no error but %x", size, b)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("sending serializer %d, size %d: %v", ser, size, err)
	}
	if !bytes.Equal(b, []byte{0x7F, byte((e-9)<<4 | ser), 0, 0}) {
		return fmt.Sprintf("sending serializer %d, size %d gives %x", ser, size, b)
	}
	return recvHandshake(b)
}

func init() {
	register("C24", "exploration", func(c *Ctx) *Violation {
		c.Rule = "sending: every serializer 1..15 with every size from -1024 to 2^24+2^16 (quick: serializer 1 and 15 on all sizes, all serializers on sizes within 2 of a power of two) plus " +
			"sizes within 2 of every power of two up to 2^63, negative ones included; receiving: every 4-byte string (quick: all with the two nibble bytes free and boundary values elsewhere, " +
			"and all with the last two bytes free and boundary values before), and every length but 4 up to 1100 and around 2^16. Non-trivial: strings with the magic byte, sizes that are sendable or within 2 of one"
		var evals, distinct atomic.Int64
		var sizes []int
		for s := -1024; s <= 1<<24+1<<16; s++ {
			sizes = append(sizes, s)
		}
		var edge []int
		for e := 0; e < 64; e++ {
			for d := -2; d <= 2; d++ {
				edge = append(edge, int(uint64(1)<<e)+d, -int(uint64(1)<<e)+d)
			}
		}
		edge = append(edge, 0, math.MaxInt, math.MinInt, 1<<24+1, 1<<25)
		for ser := 1; ser <= 15; ser++ {
			list := edge
			if !c.Quick() || ser == 1 || ser == 15 {
				list = append(append([]int{}, edge...), sizes...)
			}
			ser := ser
			if i, msg := enumChunk(len(list), 8192, func(i int) string { return sendHandshake(ser, list[i]) }); i >= 0 {
				return &Violation{Message: msg, Case: []int{ser, list[i]}}
			}
			evals.Add(int64(len(list)))
			distinct.Add(int64(len(edge)))
		}
		if c.Quick() {
			bd := []byte{0, 1, 2, 0x7e, 0x7f, 0x80, 0xfe, 0xff}
			if i, msg := enumChunk(1<<16*64, 8192, func(i int) string {
				return recvHandshake([]byte{byte(i), byte(i >> 8), bd[i>>16&7], bd[i>>19]})
			}); i >= 0 {
				return &Violation{Message: msg, Case: i}
			}
			b1 := []byte{0, 0x01, 0x13, 0x1f, 0x72, 0x7f, 0x80, 0xf1, 0xff, 0xf0}
			b0 := []byte{0x7f, 0, 0x7e, 0xff}
			if i, msg := enumChunk(1<<16*40, 8192, func(i int) string {
				return recvHandshake([]byte{b0[i>>16&3], b1[i>>18], byte(i), byte(i >> 8)})
			}); i >= 0 {
				return &Violation{Message: msg, Case: i}
			}
			evals.Add(1 << 16 * 104)
			distinct.Add(1<<8*64 + 1<<16*10)
		} else {
			if i, msg := enumChunk(1<<32, 1<<16, func(i int) string {
				return recvHandshake([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
			}); i >= 0 {
				return &Violation{Message: msg, Case: fmt.Sprintf("%08x", i)}
			}
			evals.Add(1 << 32)
			distinct.Add(1 << 24)
		}
		for _, n := range wrongLengths() {
			for _, b := range [][]byte{make([]byte, n), bytes.Repeat([]byte{0x7f}, n), append([]byte{0x7f, 0x11}, make([]byte, max(n-2, 0))...)} {
				evals.Add(1)
				if msg := recvHandshake(b); msg != "" {
					return &Violation{Message: msg, Case: fmt.Sprintf("%x", b)}
				}
			}
		}
		c.Evals, c.Distinct = evals.Load(), distinct.Load()
		c.Sample("send serializer 15 size 16777217")
		c.Sample("receive 7f f3 00 01")
		return nil
	})

	register("C25", "exploration", func(c *Ctx) *Violation {
		c.Rule = "every length 0..2^24-1 with the kinds 0, 1 and 2, every kind byte 0..255 with every length within 2 of a power of two, both directions; every byte string length but 4 up to 1100 and around 2^16; " +
			"every 24-bit integer through both integer helpers. Non-trivial: all with a length above 0"
		var evals, distinct atomic.Int64
		one := func(kind, length int) string {
			want := []byte{byte(kind), byte(length / 65536), byte(length / 256 % 256), byte(length % 256)}
			b := transports.SendMessageHeader(transports.NewMessageHeader(transports.Message(kind), length))
			if !bytes.Equal(b, want) {
				return fmt.Sprintf("header of kind %d, length %d is %x", kind, length, b)
			}
			h, err := transports.ReceiveMessageHeader(b)
			if err != nil || int(h.Kind()) != kind || h.Length() != length {
				return fmt.Sprintf("header %x is received as %v, error %v", want, h, err)
			}
			return ""
		}
		if i, msg := enumChunk(3<<24, 1<<14, func(i int) string {
			l := i & (1<<24 - 1)
			if m := one(i>>24, l); m != "" {
				return m
			}
			if i>>24 == 0 {
				b := transports.IntToBytes(l)
				if len(b) != 3 || transports.BytesToInt(b) != l {
					return fmt.Sprintf("IntToBytes(%d) = %x, back %d", l, b, transports.BytesToInt(b))
				}
				w := []byte{byte(l >> 16), byte(l >> 8), byte(l)}
				if !bytes.Equal(transports.IntToBytes(transports.BytesToInt(w)), w) {
					return fmt.Sprintf("BytesToInt(%x) = %d", w, transports.BytesToInt(w))
				}
			}
			return ""
		}); i >= 0 {
			return &Violation{Message: msg, Case: i}
		}
		evals.Add(3 << 24)
		distinct.Add(3<<24 - 3)
		for k := 0; k < 256; k++ {
			for e := 0; e <= 24; e++ {
				for d := -2; d <= 2; d++ {
					if l := 1<<e + d; l >= 0 && l < 1<<24 {
						evals.Add(1)
						distinct.Add(1)
						if m := one(k, l); m != "" {
							return &Violation{Message: m}
						}
					}
				}
			}
		}
		for _, n := range wrongLengths() {
			for _, b := range [][]byte{make([]byte, n), bytes.Repeat([]byte{1}, n), bytes.Repeat([]byte{255}, n)} {
				evals.Add(1)
				if h, err := transports.ReceiveMessageHeader(b); err == nil {
					return &Violation{Message: fmt.Sprintf("a header of %d bytes is accepted as %v", n, h)}
				}
			}
		}
		if _, err := transports.ReceiveMessageHeader(nil); err == nil {
			return &Violation{Message: "no header at all is accepted"}
		}
		c.Evals, c.Distinct = evals.Load(), distinct.Load()
		c.Sample("kind 2 length 16777215")
		c.Sample("kind 200 length 65536")
		return nil
	})

	register("C26", "exploration", func(c *Ctx) *Violation {
		c.Rule = "every value of the 8- and 16-bit integer types, and for every other Go integer and floating-point type the values within 3 of zero, of every power of two and its negative, and the special " +
			"floats (thorough: also every float32 exponent with 2^12 mantissas), into every conversion; every other kind of Go value is one refusal case. Compared with exact arithmetic (math/big). Distinct: all"
		vals := numericValues(c)
		var evals atomic.Int64
		if i, msg := enumChunk(len(vals), 1024, func(i int) string {
			evals.Add(3)
			return checkNumeric(vals[i])
		}); i >= 0 {
			return &Violation{Message: msg, Case: fmt.Sprintf("%T(%v)", vals[i], vals[i])}
		}
		type pt struct{ X int }
		seven := 7
		others := []any{nil, "", "5", "0", "true", true, false, []any{}, []any{1}, map[string]any{}, []byte{5}, pt{5}, &pt{5}, &seven, time.Second.String(), func() {}, make(chan int),
			[1]int{5}, struct{}{}, time.Time{}, new(big.Int), fmt.Errorf("5"), []string{"a"}, map[int]int{}}
		for _, o := range others {
			evals.Add(5)
			what := fmt.Sprintf("%T(%v)", o, o)
			if x, ok := util.AsInt(o); ok {
				return &Violation{Message: fmt.Sprintf("AsInt accepts %s as %d", what, x)}
			}
			if x, ok := util.AsUInt64(o); ok {
				return &Violation{Message: fmt.Sprintf("AsUInt64 accepts %s as %d", what, x)}
			}
			if x, ok := util.AsFloat64(o); ok {
				return &Violation{Message: fmt.Sprintf("AsFloat64 accepts %s as %v", what, x)}
			}
		}
		for _, o := range append(append([]any{}, others...), vals[:64]...) {
			s, isS := o.(string)
			b, isB := o.(bool)
			evals.Add(4)
			if x, ok := util.AsString(o); ok != isS || x != s {
				return &Violation{Message: fmt.Sprintf("AsString(%T(%v)) = %q, %v", o, o, x, ok)}
			}
			if x := util.ToString(o); x != s {
				return &Violation{Message: fmt.Sprintf("ToString(%T(%v)) = %q", o, o, x)}
			}
			if x, ok := util.AsBool(o); ok != isB || x != b {
				return &Violation{Message: fmt.Sprintf("AsBool(%T(%v)) = %v, %v", o, o, x, ok)}
			}
			if x := util.ToBool(o); x != b {
				return &Violation{Message: fmt.Sprintf("ToBool(%T(%v)) = %v", o, o, x)}
			}
		}
		// lists of strings
		el := []any{"", "a", "ü", 1, nil, []byte("x"), true}
		n := 1
		for l := 0; l <= 4; l++ {
			for i := 0; i < n; i++ {
				in := []any{}
				var want []string
				good := true
				for j, x := 0, i; j < l; j++ {
					e := el[x%len(el)]
					x /= len(el)
					in = append(in, e)
					s, ok := e.(string)
					want, good = append(want, s), good && ok
				}
				evals.Add(1)
				got, err := util.AnysToStrings(in)
				if (err == nil) != good || good && strings.Join(got, "|") != strings.Join(want, "|") || good && len(got) != l {
					return &Violation{Message: fmt.Sprintf("AnysToStrings(%#v) = %q, %v", in, got, err)}
				}
			}
			n *= len(el)
		}
		c.Evals, c.Distinct = evals.Load(), evals.Load()
		c.Sample("uint64(9223372036854775808) to int: refused")
		c.Sample("float64(-0.5) to uint64: not specified")
		c.Assumptions = append(c.Assumptions, "values the target cannot represent (negative to uint64, fractions to integers, integers with more than 53 bits to float64): only int's range is specified")
		return nil
	})

	register("C27", "exploration", func(c *Ctx) *Violation {
		c.Rule = "every whole-minute zone offset from -23:59 to +23:59 (named and fixed zones) x boundary instants (years 1 to 9999, leap days, day and year ends, sub-second parts) and every minute of one day; " +
			"for the challenge: the product of session ids, authids, authroles and providers. Non-trivial: all with a non-zero offset or a sub-second part"
		var evals, distinct atomic.Int64
		var base []time.Time
		for _, y := range []int{1, 2, 999, 1000, 1582, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2038, 2100, 2400, 9998} {
			for _, md := range [][2]int{{1, 1}, {2, 28}, {2, 29}, {3, 1}, {7, 10}, {10, 9}, {12, 31}} {
				for _, hms := range [][4]int{{0, 0, 0, 0}, {0, 0, 1, 1}, {9, 9, 9, 500000000}, {12, 0, 0, 0}, {13, 5, 7, 999}, {23, 59, 59, 999999999}} {
					base = append(base, time.Date(y, time.Month(md[0]), md[1], hms[0], hms[1], hms[2], hms[3], time.UTC))
				}
			}
		}
		if !c.Quick() {
			for d := 0; d < 366*24*60; d += 7 {
				base = append(base, time.Date(2024, 1, 1, 0, d, d%60, 0, time.UTC))
			}
		}
		one := func(t time.Time) string {
			s := auth.ISO8601(t)
			_, off := t.Zone()
			if m := isoForm(s, off); m != "" {
				return m
			}
			if off%60 == 0 {
				layout := "2006-01-02T15:04:05Z"
				if off != 0 {
					layout = "2006-01-02T15:04:05-0700"
				}
				p, err := time.Parse(layout, s)
				if err != nil {
					return fmt.Sprintf("%s cannot be parsed: %v", s, err)
				}
				if p.Unix() != t.Unix() {
					return fmt.Sprintf("%v is rendered as %s, another instant", t, s)
				}
			}
			return ""
		}
		offs := 2*1439 + 1
		if i, msg := enumChunk(len(base)*offs, 256, func(i int) string {
			off := (i%offs - 1439) * 60
			t := base[i/offs]
			evals.Add(2)
			if off != 0 {
				distinct.Add(2)
			}
			z := time.FixedZone("X", off)
			// the same instant, and the same wall clock, in the zone
			if m := one(t.In(z)); m != "" {
				return m
			}
			return one(time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), z))
		}); i >= 0 {
			return &Violation{Message: msg, Case: fmt.Sprintf("%v offset %d min", base[i/offs], i%offs-1439)}
		}
		// offsets that are no whole minutes: Z is still only for zero
		for _, off := range []int{1, 17, 29, 30, 31, 59, 61, 119, 1172, 3599, 3601, 6000, 26729, 43201, 86399} {
			for _, t := range base {
				for _, z := range []*time.Location{time.FixedZone("LMT", off), time.FixedZone("UTC", -off)} {
					evals.Add(1)
					distinct.Add(1)
					if msg := one(t.In(z)); msg != "" {
						return &Violation{Message: msg, Case: fmt.Sprintf("%v offset %d s", t, off)}
					}
				}
			}
		}
		for m := 0; m < 1440; m++ {
			evals.Add(1)
			if msg := one(time.Date(2024, 7, 10, 0, m, 30, 0, time.FixedZone("UTC", 0))); msg != "" {
				return &Violation{Message: msg}
			}
		}
		old := time.Local
		defer func() { time.Local = old }()
		for _, off := range []int{0, 3600, -3600, 19800, -12600, 45900, -60, 60} {
			time.Local = time.FixedZone("L", off)
			before := time.Now().Unix()
			now := auth.NowISO8601()
			created := wampproto.NewSessionDetails(1, "r", "a", "b", "c", false, nil, nil).CreatedAt()
			after := time.Now().Unix()
			for _, s := range []string{now, created} {
				evals.Add(1)
				distinct.Add(1)
				if m := isoForm(s, -1); m != "" {
					return &Violation{Message: m}
				}
				p, err := isoParse(s)
				if err != nil || p.Unix() < before || p.Unix() > after {
					return &Violation{Message: fmt.Sprintf("the current time is rendered as %s (%v) between %d and %d with local offset %d", s, err, before, after, off)}
				}
			}
			strs := []string{"", "john", "a\"b\\c", "żółć", "x</script>\u2028"}
			for _, ses := range []uint64{1, 1 << 53, 9007199254740991, 123} {
				for _, id := range strs {
					for _, role := range strs {
						for _, prov := range strs {
							evals.Add(1)
							distinct.Add(1)
							if m := craForm(ses, id, role, prov); m != "" {
								return &Violation{Message: m, Case: []any{ses, id, role, prov}}
							}
						}
					}
				}
			}
		}
		c.Evals, c.Distinct = evals.Load(), distinct.Load()
		c.Sample(auth.ISO8601(base[40].In(time.FixedZone("", -34200))))
		c.Sample(auth.ISO8601(base[3]))
		return nil
	})
}

// wrongLengths: lengths other than 4, among them those that are 4 when cut to 8, 16 or 20 bits
func wrongLengths() (out []int) {
	for n := 0; n <= 1100; n++ {
		if n != 4 {
			out = append(out, n)
		}
	}
	return append(out, 1<<12+4, 1<<15+4, 1<<16-1, 1<<16, 1<<16+3, 1<<16+4, 1<<20+4)
}

func isoParse(s string) (time.Time, error) {
	if strings.HasSuffix(s, "Z") {
		return time.Parse("2006-01-02T15:04:05Z", s)
	}
	return time.Parse("2006-01-02T15:04:05-0700", s)
}

// isoForm checks the form (and the offset if off >= -86399 and not -1).
func isoForm(s string, off int) string {
	bad := fmt.Sprintf("%q does not have the form of an ISO 8601 timestamp (zone offset %d s)", s, off)
	pat := "dddd-dd-ddTdd:dd:dd"
	if len(s) < len(pat)+1 {
		return bad
	}
	for i, p := range []byte(pat) {
		if p == 'd' && (s[i] < '0' || s[i] > '9') || p != 'd' && s[i] != p {
			return bad
		}
	}
	z := s[len(pat):]
	if off == 0 || off == -1 && z == "Z" {
		if z != "Z" {
			return bad
		}
		return ""
	}
	if len(z) != 5 || z[0] != '+' && z[0] != '-' {
		return bad
	}
	for _, d := range []byte(z[1:]) {
		if d < '0' || d > '9' {
			return bad
		}
	}
	if off != -1 && off%60 == 0 {
		sign := "+"
		if off < 0 {
			sign, off = "-", -off
		}
		if z != fmt.Sprintf("%s%02d%02d", sign, off/3600, off/60%60) {
			return bad
		}
	}
	return ""
}

func numericValues(c *Ctx) []any {
	var out []any
	for i := -128; i <= 127; i++ {
		out = append(out, int8(i))
	}
	for i := 0; i < 256; i++ {
		out = append(out, uint8(i))
	}
	for i := -32768; i <= 32767; i++ {
		out = append(out, int16(i))
	}
	for i := 0; i < 65536; i++ {
		out = append(out, uint16(i))
	}
	for e := 0; e < 64; e++ {
		for d := -3; d <= 3; d++ {
			u := uint64(1)<<e + uint64(d)
			i := int64(u)
			out = append(out, u, i, -i, int(i), int(-i), uint(u), int32(i), int32(-i), uint32(u), float64(i), -float64(i), float64(u), float32(i), -float32(i), float32(u),
				float64(i)+0.5, -float64(i)-0.5, math.Nextafter(float64(u), math.Inf(1)), math.Nextafter(float64(u), 0), math.Nextafter32(float32(u), 0), math.Nextafter32(float32(u), 1e38),
				-math.Nextafter(float64(u), math.Inf(1)), -math.Nextafter(float64(u), 0))
		}
	}
	for _, f := range []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e19, -1e19, 1e20, 0.1, 1e-7, math.Pi} {
		out = append(out, f, float32(f))
	}
	if !c.Quick() {
		for e := uint32(0); e < 512; e++ {
			for m := uint32(0); m < 1<<12; m++ {
				out = append(out, math.Float32frombits(e<<23|m<<11), math.Float32frombits(e<<23|m<<11|1))
			}
		}
	}
	return out
}

// checkNumeric compares the conversions of v with exact arithmetic.
func checkNumeric(v any) string {
	exactVal, finite := bigOf(v)
	what := fmt.Sprintf("%T(%v)", v, v)
	isInt := finite && exactVal.IsInt()
	var bi *big.Int
	if isInt {
		bi, _ = exactVal.Int(nil)
	}
	u, ok := util.AsUInt64(v)
	if !ok {
		return "AsUInt64 refuses " + what
	}
	if isInt && bi.IsUint64() && u != bi.Uint64() {
		return fmt.Sprintf("AsUInt64(%s) = %d", what, u)
	}
	f, ok := util.AsFloat64(v)
	if !ok {
		return "AsFloat64 refuses " + what
	}
	if finite {
		if w, acc := exactVal.Float64(); acc == big.Exact && (w != f || math.Signbit(w) != math.Signbit(f)) {
			return fmt.Sprintf("AsFloat64(%s) = %v", what, f)
		}
	} else if !sameFloat(f, floatOf(v)) {
		return fmt.Sprintf("AsFloat64(%s) = %v", what, f)
	}
	i, ok := util.AsInt(v)
	switch {
	case isInt && bi.IsInt64():
		if !ok || int64(i) != bi.Int64() {
			return fmt.Sprintf("AsInt(%s) = %d, %v", what, i, ok)
		}
	case !finite || exactVal.Cmp(big.NewFloat(math.MaxInt64)) > 0 || exactVal.Cmp(big.NewFloat(math.MinInt64)) < 0 || isInt:
		if ok {
			return fmt.Sprintf("AsInt accepts %s as %d", what, i)
		}
	case ok: // a fraction in range: if accepted it must be next to it
		d := new(big.Float).Sub(exactVal, new(big.Float).SetInt64(int64(i)))
		if d.Abs(d).Cmp(big.NewFloat(1)) >= 0 {
			return fmt.Sprintf("AsInt(%s) = %d", what, i)
		}
	}
	return ""
}

func sameFloat(a, b float64) bool { return a == b || a != a && b != b }

func floatOf(v any) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case float32:
		return float64(x)
	}
	return 0
}

func bigOf(v any) (*big.Float, bool) {
	switch x := v.(type) {
	case float32:
		if math.IsNaN(float64(x)) || math.IsInf(float64(x), 0) {
			return nil, false
		}
		return new(big.Float).SetPrec(200).SetFloat64(float64(x)), true
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
		return new(big.Float).SetPrec(200).SetFloat64(x), true
	}
	f, _, err := new(big.Float).SetPrec(200).Parse(fmt.Sprint(v), 10)
	if err != nil {
		panic(err)
	}
	return f, true
}
