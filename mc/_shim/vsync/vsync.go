// Package vsync stands in for sync in controlled executions.
package vsync

import (
	"sync"

	"github.com/xconnio/wampproto-go/verifshim/vsched"
)

type Locker = sync.Locker

// Mutex is a mutex whose waiting is under the control of vsched.
type Mutex struct {
	held bool
	hb   byte
}

//go:norace
func (m *Mutex) Lock() {
	vsched.Point()
	for m.held {
		vsched.Block(m)
	}
	m.held = true
	vsched.Acquire(&m.hb)
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsched.Point()
	if m.held {
		return false
	}
	m.held = true
	vsched.Acquire(&m.hb)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	vsched.Release(&m.hb)
	m.held = false
	vsched.Wake(m)
	vsched.Point()
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
	rs, ws  byte
}

//go:norace
func (m *RWMutex) Lock() {
	vsched.Point()
	for m.w || m.r > 0 {
		m.waiting++
		vsched.Block(m)
		m.waiting--
	}
	m.w = true
	vsched.Acquire(&m.rs)
	vsched.Acquire(&m.ws)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	vsched.Acquire(&m.rs)
	vsched.Acquire(&m.ws)
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.Release(&m.rs)
	m.w = false
	vsched.Wake(m)
	vsched.Point()
}

//go:norace
func (m *RWMutex) RLock() {
	vsched.Point()
	for m.w || m.waiting > 0 {
		vsched.Block(m)
	}
	m.r++
	vsched.Acquire(&m.rs)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vsched.Point()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	vsched.Acquire(&m.rs)
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.ReleaseMerge(&m.ws)
	m.r--
	vsched.Wake(m)
	vsched.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Map has one lock-free-looking operation per method: each is atomic. It is a
// linked list because the runtime shows map and append operations to the race
// detector even here.
type Map struct {
	head *node
	hb   byte
}

type node struct {
	k, v any
	next *node
}

//go:norace
func (m *Map) before() {
	vsched.Point()
	vsched.Acquire(&m.hb)
}

//go:norace
func (m *Map) after() { vsched.ReleaseMerge(&m.hb) }

//go:norace
func (m *Map) find(k any) *node {
	for n := m.head; n != nil; n = n.next {
		if n.k == k {
			return n
		}
	}
	return nil
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	m.before()
	if n := m.find(k); n != nil {
		return n.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) set(k, v any) {
	p := &m.head
	for ; *p != nil; p = &(*p).next {
		if (*p).k == k {
			(*p).v = v
			return
		}
	}
	*p = &node{k: k, v: v}
}

//go:norace
func (m *Map) del(k any) {
	for p := &m.head; *p != nil; p = &(*p).next {
		if (*p).k == k {
			*p = (*p).next
			return
		}
	}
}

//go:norace
func (m *Map) Store(k, v any) { m.before(); m.set(k, v); m.after() }

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.before()
	defer m.after()
	if n := m.find(k); n != nil {
		return n.v, true
	}
	m.set(k, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.before()
	defer m.after()
	n := m.find(k)
	if n == nil {
		return nil, false
	}
	v := n.v
	m.del(k)
	return v, true
}

//go:norace
func (m *Map) Delete(k any) { m.before(); m.del(k); m.after() }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.before()
	defer m.after()
	n := m.find(k)
	if n == nil {
		m.set(k, v)
		return nil, false
	}
	old := n.v
	n.v = v
	return old, true
}

//go:norace
func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.before()
	defer m.after()
	if n := m.find(k); n != nil && n.v == old {
		n.v = v
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	m.before()
	defer m.after()
	if n := m.find(k); n != nil && n.v == old {
		m.del(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() { m.before(); m.head = nil; m.after() }

func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range m.keys() {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

//go:norace
func (m *Map) keys() []any {
	var ks []any
	for n := m.head; n != nil; n = n.next {
		ks = append(ks, n.k)
	}
	return ks
}

type Once struct {
	done bool
	mu   Mutex
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) set() { o.done = true }

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.isDone() {
		defer o.set()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n  int
	hb byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	vsched.Point()
	if d < 0 {
		vsched.ReleaseMerge(&w.hb)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		vsched.Wake(w)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	vsched.Point()
	for w.n > 0 {
		vsched.Block(w)
	}
	vsched.Acquire(&w.hb)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Pool gives back what was put last.
type Pool struct {
	New  func() any
	head *node
	hb   byte
}

//go:norace
func (p *Pool) Get() any {
	vsched.Point()
	if n := p.head; n != nil {
		p.head = n.next
		vsched.Acquire(&p.hb)
		return n.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	vsched.Point()
	if x == nil {
		return
	}
	vsched.ReleaseMerge(&p.hb)
	p.head = &node{v: x, next: p.head}
}

type Cond struct {
	L  Locker
	hb byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	vsched.Point()
	c.L.Unlock()
	vsched.Block(c)
	vsched.Acquire(&c.hb)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { vsched.Point(); vsched.ReleaseMerge(&c.hb); vsched.Wake(c) }

//go:norace
func (c *Cond) Broadcast() { c.Signal() }
