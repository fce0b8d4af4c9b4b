package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// Namer gives the canonical name of an id found inside a real object.
type Namer func(uint64) string

// counterBit marks a value that is a counter, not a reference to an id.
const counterBit = uint64(1) << 63

type dumper struct {
	name Namer
	seen map[uintptr]int
	b    strings.Builder
	size int
	buf  []byte
}

// deepDump renders the complete reachable state of a real object, canonically:
// map entries sorted, nil and empty containers alike, pointers numbered in
// traversal order, locks, channels and functions left out, ids renamed.
func deepDump(v any, name Namer) string {
	d := &dumper{name: name, seen: map[uintptr]int{}}
	d.val(reflect.ValueOf(v), 0)
	return d.b.String()
}

// deepSize counts the entries a real object retains (map entries, slice
// elements, pointed-to structures).
func deepSize(v any) int {
	d := &dumper{name: func(uint64) string { return "" }, seen: map[uintptr]int{}}
	d.val(reflect.ValueOf(v), 0)
	return d.size
}

var opaqueTypes = map[string]string{
	"wampproto.SessionDetails": "SD",
	"time.Time":                "T",
	"time.Location":            "L",
}

func (d *dumper) val(v reflect.Value, depth int) {
	if depth > 60 {
		d.b.WriteString("<deep>")
		return
	}
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	t := v.Type()
	if s, ok := opaqueTypes[t.String()]; ok {
		d.b.WriteString(s)
		return
	}
	if t.Kind() == reflect.Struct && strings.HasSuffix(t.Name(), "IDGenerator") {
		// a counter: what matters is whether it is ahead of every id handed out
		old := d.name
		d.name = func(id uint64) string { return old(id | counterBit) }
		defer func() { d.name = old }()
	}
	switch t.PkgPath() {
	case "sync":
		if t.Name() == "Map" {
			d.syncMap(v, depth)
		}
		return
	case "sync/atomic", "internal/sync":
		if v.Kind() == reflect.Struct {
			if f := v.FieldByName("v"); f.IsValid() {
				d.val(f, depth+1)
			}
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if s, ok := opaqueTypes[t.Elem().String()]; ok {
			d.b.WriteString(s)
			return
		}
		p := v.Pointer()
		if n, ok := d.seen[p]; ok {
			d.b.WriteByte('&')
			d.b.WriteString(strconv.Itoa(n))
			return
		}
		d.seen[p] = len(d.seen)
		d.size++
		d.b.WriteByte('*')
		d.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.val(v.Elem(), depth+1)
	case reflect.Struct:
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Chan, reflect.Func:
				continue
			}
			d.val(f, depth+1)
			d.b.WriteByte(';')
		}
		d.b.WriteByte('}')
	case reflect.Map:
		d.b.WriteByte('[')
		type kv struct {
			k string
			v reflect.Value
		}
		kvs := make([]kv, 0, v.Len())
		it := v.MapRange()
		for it.Next() {
			sub := &dumper{name: d.name, seen: map[uintptr]int{}}
			sub.val(it.Key(), depth+1)
			kvs = append(kvs, kv{sub.b.String(), it.Value()})
		}
		sort.SliceStable(kvs, func(a, b int) bool { return kvs[a].k < kvs[b].k })
		for _, e := range kvs {
			d.size++
			d.b.WriteString(e.k)
			d.b.WriteByte(':')
			d.val(e.v, depth+1)
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
			d.size += v.Len()
			d.b.WriteString(strconv.Quote(string(v.Bytes())))
			return
		}
		d.b.WriteByte('(')
		for i := 0; i < v.Len(); i++ {
			if v.Kind() == reflect.Slice {
				d.size++
			}
			d.val(v.Index(i), depth+1)
			d.b.WriteByte(',')
		}
		d.b.WriteByte(')')
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		if v.Bool() {
			d.b.WriteByte('t')
		} else {
			d.b.WriteByte('f')
		}
	case reflect.Uint64:
		d.b.WriteString(d.name(v.Uint()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uintptr:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		d.b.WriteByte('_')
	default:
		fmt.Fprintf(&d.b, "<%s>", v.Kind())
	}
}

type ranger interface {
	Range(f func(k, v any) bool)
}

func (d *dumper) syncMap(v reflect.Value, depth int) {
	if !v.CanAddr() {
		d.b.WriteString("<syncmap>")
		return
	}
	m, ok := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Interface().(ranger)
	if !ok {
		d.b.WriteString("<syncmap>")
		return
	}
	tmp := map[string]any{}
	m.Range(func(k, val any) bool {
		sub := &dumper{name: d.name, seen: map[uintptr]int{}}
		sub.val(reflect.ValueOf(k), depth+1)
		tmp[sub.b.String()] = val
		return true
	})
	keys := make([]string, 0, len(tmp))
	for k := range tmp {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	d.b.WriteByte('[')
	for _, k := range keys {
		d.size++
		d.b.WriteString(k)
		d.b.WriteByte(':')
		d.val(reflect.ValueOf(tmp[k]), depth+1)
		d.b.WriteByte(',')
	}
	d.b.WriteByte(']')
}
