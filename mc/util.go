package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
)

// session ids: large, distinct from every generated id
const sidBase = uint64(7_000_000_000_000_001)

func sid(i int) uint64 { return sidBase + uint64(i) }

// sessIDs gives each session of a system its id; with fresh ids, every
// attachment has a new one.
type sessIDs struct {
	fresh bool
	gen   []uint64
	tab   []uint64 // the sessions' ids, if not the usual ones
	reqs  []uint64 // request ids
	blank []int    // sessions without authid, and without role but for session 0
	// several sessions of one user, several users with one role
	oneUser, oneRole bool
	// another user each time an id is attached again
	flip    bool
	flipped []bool
}

func (x *sessIDs) flipKey() string {
	if !x.flip {
		return ""
	}
	return fmt.Sprint(x.flipped)
}

func (x *sessIDs) authid(i int) string {
	if slices.Contains(x.blank, i) {
		return ""
	}
	if x.oneUser {
		return "user"
	}
	if x.flip && i < len(x.flipped) && x.flipped[i] {
		return fmt.Sprintf("other%d", i)
	}
	return fmt.Sprintf("user%d", i)
}

func (x *sessIDs) role(i int) string {
	if slices.Contains(x.blank, i) && i > 0 {
		return ""
	}
	if x.oneRole {
		return "role"
	}
	if x.flip && i < len(x.flipped) && x.flipped[i] {
		return fmt.Sprintf("guest%d", i)
	}
	return fmt.Sprintf("role%d", i)
}

func newSessIDs(n int, fresh bool) sessIDs {
	return sessIDs{fresh: fresh, gen: make([]uint64, n), flipped: make([]bool, n)}
}

func (x *sessIDs) sid(i int) uint64 {
	if i < len(x.tab) {
		return x.tab[i]
	}
	if i >= len(x.gen) {
		return sid(i)
	}
	return sid(i) + 64*x.gen[i]
}

func (x *sessIDs) renew(i int) {
	if x.fresh {
		x.gen[i]++
	}
	x.flipped[i] = !x.flipped[i]
}

func (x *sessIDs) index(id uint64) int {
	for i := range x.gen {
		if x.sid(i) == id {
			return i
		}
	}
	return -1
}

func (x *sessIDs) names() map[uint64]string {
	m := map[uint64]string{}
	for i, r := range x.reqs {
		m[r] = fmt.Sprintf("q%d", i)
	}
	for i := range x.tab {
		m[x.tab[i]] = fmt.Sprintf("S%d", i)
	}
	if x.fresh {
		for i := range x.gen {
			m[sid(i)] = "Sdead"
		}
		for i := range x.gen {
			m[x.sid(i)] = fmt.Sprintf("S%d", i)
		}
	}
	return m
}

// idTables: ids that real peers use (small counters) and ids that differ but
// become equal when truncated to 32 bits, or that make equal sums, exclusive ors,
// products or concatenations.
var idTables = map[string]struct{ sess, reqs []uint64 }{
	"small": {[]uint64{1, 2, 3, 4}, []uint64{1, 2, 3, 4, 5, 6}},
	"alias": {[]uint64{1, 1<<32 + 1, 12, 1 << 53}, []uint64{1, 12, 23, 3, 1<<32 + 1, 1 << 53}},
}

func (x *sessIDs) use(table string) {
	if t, ok := idTables[table]; ok {
		x.tab, x.reqs = t.sess[:len(x.gen)], t.reqs
		x.oneUser, x.oneRole = table == "small", table == "alias"
	}
}

// req gives the request id of the n-th request.
func (x *sessIDs) req(n int) uint64 {
	if x.reqs != nil {
		return x.reqs[n%len(x.reqs)]
	}
	return rid(n)
}

func (x *sessIDs) details(i int, static bool) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(x.sid(i), "realm1", x.authid(i), x.role(i),
		"anonymous", static, wampproto.RouterRoles, nil)
}

func newDetails(i int, static bool) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(sid(i), "realm1", fmt.Sprintf("user%d", i), fmt.Sprintf("role%d", i),
		"anonymous", static, wampproto.RouterRoles, nil)
}

// globMatch is the reference for wildcard patterns: '*' stands for any run of
// characters (URIs of the alphabet contain no '/').
func globMatch(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if globMatch(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && globMatch(pat[1:], s[1:])
}

func hasPrefix(s, p string) bool { return strings.HasPrefix(s, p) }

// same compares values up to absent = empty containers and numeric Go types.
func same(a, b any) bool {
	an, aok := toNum(a)
	bn, bok := toNum(b)
	if aok != bok {
		return false
	}
	if aok {
		return an == bn
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return emptyish(va) && emptyish(vb) && (va.IsValid() == vb.IsValid() || isContainer(va) || isContainer(vb))
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			yv, ok := y[k]
			if !ok || !same(x[k], yv) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func isContainer(v reflect.Value) bool {
	return v.IsValid() && (v.Kind() == reflect.Slice || v.Kind() == reflect.Map)
}

func emptyish(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	return isContainer(v) && v.Len() == 0
}

type num struct {
	neg  bool
	mag  uint64
	frac float64
	f    bool
}

// toNum gives the exact mathematical value of a Go number.
func toNum(v any) (num, bool) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return num{}, false
	}
	if rv.Type().PkgPath() != "" {
		return num{}, false // a named type
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := rv.Int()
		if i < 0 {
			return num{neg: true, mag: uint64(-(i + 1)) + 1}, true
		}
		return num{mag: uint64(i)}, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return num{mag: rv.Uint()}, true
	case reflect.Float32, reflect.Float64:
		f := rv.Float()
		if f == math.Trunc(f) && math.Abs(f) < 1<<63 {
			if f < 0 {
				return num{neg: true, mag: uint64(-f)}, true
			}
			return num{mag: uint64(f)}, true
		}
		if f == math.Trunc(f) && f > 0 && f < 1<<64 {
			return num{mag: uint64(f)}, true
		}
		return num{frac: f, f: true}, true
	}
	return num{}, false
}

func fail(msg string, tags ...string) Fail { return Fail{Tags: tags, Msg: msg} }
func hard(msg string, tags ...string) Fail { return Fail{Tags: tags, Msg: msg, Hard: true} }

// idNames names generated ids; ids at or above the largest one handed out are
// counters.
type idNames struct {
	names map[uint64]string
	max   uint64
	used  map[uint64]bool // ids that must not be handed out again
}

func (n *idNames) saw(id uint64) {
	if id > n.max {
		n.max = id
	}
}

func (n *idNames) namer(cur map[uint64]string) Namer {
	return func(id uint64) string {
		if id&counterBit != 0 {
			if id&^counterBit >= n.max {
				return "#"
			}
			// a counter that was set back: what lies right ahead of it matters
			at := id &^ counterBit
			name := fmt.Sprintf("behind by %d", min(n.max-at, 4))
			for u := uint64(1); u <= 3; u++ {
				name += fmt.Sprintf(" %v", n.used[at+u])
			}
			return name
		}
		if s, ok := cur[id]; ok {
			return s
		}
		if id == 0 {
			return "0"
		}
		if id >= sidBase && id < sidBase+64 {
			return fmt.Sprintf("S%d", id-sidBase)
		}
		if id >= sidBase && id < sidBase+1_000_000 {
			return "Sdead"
		}
		if id >= reqBase && id < reqBase+1000 {
			return fmt.Sprintf("q%d", id-reqBase)
		}
		if id >= n.max {
			return "#"
		}
		return "dead"
	}
}

// request ids used by the harness (never collide with generated ids)
const reqBase = uint64(5_000_000_000_000_000)

func rid(i int) uint64 { return reqBase + uint64(i) }

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// nearIDs: the ids that differ from a live one in a single bit and are not live themselves.
func nearIDs(live map[uint64]bool) []uint64 {
	var out []uint64
	for _, id := range sortedIDs(live) {
		for _, b := range []uint{0, 7, 8, 16, 24, 31, 32, 48, 52} {
			if n := id ^ 1<<b; n != 0 && !live[n] {
				out = append(out, n)
			}
		}
	}
	return out
}

func sortedIDs(m map[uint64]bool) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}
