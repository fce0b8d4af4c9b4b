package main

import (
	"encoding/binary"
	"math"
)

// mpDecode is a small reference decoder for MsgPack: ok is false for anything
// that is not plainly one well-formed value (extensions, keys that are not
// strings), which makes no claim.
func mpDecode(b []byte, depth int) (v any, rest []byte, ok bool) {
	if len(b) == 0 || depth > 64 {
		return nil, nil, false
	}
	c := b[0]
	b = b[1:]
	num := func(n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		var x [8]byte
		copy(x[8-n:], b[:n])
		b = b[n:]
		return binary.BigEndian.Uint64(x[:]), true
	}
	str := func(n uint64, bin bool) (any, []byte, bool) {
		if n > uint64(len(b)) {
			return nil, nil, false
		}
		if bin {
			return append([]byte{}, b[:n]...), b[n:], true
		}
		return string(b[:n]), b[n:], true
	}
	arr := func(n uint64) (any, []byte, bool) {
		if n > uint64(len(b)) {
			return nil, nil, false
		}
		l := []any{}
		for i := uint64(0); i < n; i++ {
			e, r, ok := mpDecode(b, depth+1)
			if !ok {
				return nil, nil, false
			}
			l, b = append(l, e), r
		}
		return l, b, true
	}
	mp := func(n uint64) (any, []byte, bool) {
		if 2*n > uint64(len(b)) {
			return nil, nil, false
		}
		m := map[string]any{}
		for i := uint64(0); i < n; i++ {
			k, r, ok := mpDecode(b, depth+1)
			if !ok {
				return nil, nil, false
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, false
			}
			e, r, ok := mpDecode(r, depth+1)
			if !ok {
				return nil, nil, false
			}
			m[ks], b = e, r
		}
		return m, b, true
	}
	switch {
	case c <= 0x7f:
		return uint64(c), b, true
	case c >= 0xe0:
		return int64(int8(c)), b, true
	case c <= 0x8f:
		return mp(uint64(c & 15))
	case c <= 0x9f:
		return arr(uint64(c & 15))
	case c <= 0xbf:
		return str(uint64(c&31), false)
	}
	w := 0
	switch c {
	case 0xc0:
		return nil, b, true
	case 0xc2, 0xc3:
		return c == 0xc3, b, true
	case 0xc4, 0xd9, 0xcc, 0xd0:
		w = 1
	case 0xc5, 0xda, 0xcd, 0xd1, 0xdc, 0xde:
		w = 2
	case 0xc6, 0xdb, 0xce, 0xd2, 0xdd, 0xdf, 0xca:
		w = 4
	case 0xcf, 0xd3, 0xcb:
		w = 8
	default:
		return nil, nil, false
	}
	n, ok := num(w)
	if !ok {
		return nil, nil, false
	}
	switch c {
	case 0xc4, 0xc5, 0xc6:
		return str(n, true)
	case 0xd9, 0xda, 0xdb:
		return str(n, false)
	case 0xcc, 0xcd, 0xce, 0xcf:
		return n, b, true
	case 0xd0:
		return int64(int8(n)), b, true
	case 0xd1:
		return int64(int16(n)), b, true
	case 0xd2:
		return int64(int32(n)), b, true
	case 0xd3:
		return int64(n), b, true
	case 0xca:
		return float64(math.Float32frombits(uint32(n))), b, true
	case 0xcb:
		return math.Float64frombits(n), b, true
	case 0xdc, 0xdd:
		return arr(n)
	}
	return mp(n)
}
