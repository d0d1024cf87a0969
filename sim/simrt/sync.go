package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
)

type waiter struct{ ch chan struct{} }

func newWaiter() *waiter { return &waiter{ch: make(chan struct{}, 1)} }

func (w *waiter) wait(g *G) {
	if g == nil {
		panic("simrt: lock contention outside a simulation")
	}
	s := g.s
	s.mu.Lock()
	s.lockWait[w] = struct{}{}
	s.mu.Unlock()
	<-w.ch
	s.mu.Lock()
	delete(s.lockWait, w)
	s.mu.Unlock()
	s.park(g)
}

// Mutex is the simulated sync.Mutex: waiting is durable blocking, and which
// waiter wins is the scheduler's decision.
type Mutex struct {
	locked  bool
	waiters []*waiter
}

func (m *Mutex) Lock() {
	g := self()
	if g != nil && g.exiting {
		return
	}
	Gate()
	for m.locked {
		w := newWaiter()
		m.waiters = append(m.waiters, w)
		w.wait(g)
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	Gate()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	g := self()
	if g != nil && g.exiting {
		return
	}
	Gate()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	wake(&m.waiters)
}

func wake(ws *[]*waiter) {
	for _, w := range *ws {
		select {
		case w.ch <- struct{}{}:
		default:
		}
	}
	*ws = nil
}

// RWMutex is the simulated sync.RWMutex with writer preference: a waiting
// writer blocks new readers, as in the standard library.
type RWMutex struct {
	w       bool
	r       int
	ww      int // waiting writers
	waiters []*waiter
}

func (m *RWMutex) Lock() {
	g := self()
	if g != nil && g.exiting {
		return
	}
	Gate()
	for m.w || m.r > 0 {
		w := newWaiter()
		m.waiters = append(m.waiters, w)
		m.ww++
		w.wait(g)
		m.ww--
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	Gate()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	g := self()
	if g != nil && g.exiting {
		return
	}
	Gate()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	wake(&m.waiters)
}

func (m *RWMutex) RLock() {
	g := self()
	if g != nil && g.exiting {
		return
	}
	Gate()
	for m.w || m.ww > 0 {
		w := newWaiter()
		m.waiters = append(m.waiters, w)
		w.wait(g)
		if !m.w {
			break // let the reader in after one round, so readers cannot starve
		}
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	Gate()
	if m.w || m.ww > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	g := self()
	if g != nil && g.exiting {
		return
	}
	Gate()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		wake(&m.waiters)
	}
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is the simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	Gate()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	n       int
	waiters []*waiter
}

func (wg *WaitGroup) Add(d int) {
	g := self()
	if g != nil && !g.exiting {
		Gate()
	}
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wake(&wg.waiters)
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	g := self()
	if g != nil && g.exiting {
		return
	}
	Gate()
	for wg.n > 0 {
		w := newWaiter()
		wg.waiters = append(wg.waiters, w)
		w.wait(g)
	}
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go(func() {
		defer wg.Done()
		f()
	})
}

// Map is the simulated sync.Map with a deterministic iteration order.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	Gate()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	Gate()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if a, ok := m.Load(k); ok {
		return a, true
	}
	m.Store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := m.Load(k)
	m.Delete(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	Gate()
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	o, ok := m.Load(k)
	m.Store(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	if o, ok := m.Load(k); ok && o == old {
		m.Store(k, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	if o, ok := m.Load(k); ok && o == old {
		m.Delete(k)
		return true
	}
	return false
}

func (m *Map) Clear() { Gate(); m.m = nil; m.keys = nil }

func (m *Map) Range(f func(k, v interface{}) bool) {
	Gate()
	for _, k := range append([]interface{}(nil), m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			break
		}
	}
}

// ---------------------------------------------------------------- map range

// Iter is a deterministic, seeded iteration over a map.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newIter[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: map[K]V(m)}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		if s := curS; s != nil {
			var gid, n uint64
			if g := self(); g != nil {
				g.iters++
				gid, n = g.id, g.iters
			}
			seed := Hash(s.cfg.Seed, 6, gid, n)
			if s.cfg.RandUntil == 0 || s.decisions < s.cfg.RandUntil {
				for i := len(it.keys) - 1; i > 0; i-- {
					seed = mix(seed + uint64(i))
					j := int(seed % uint64(i+1))
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
		}
	}
	return it
}

func sortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	case []int64:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	}
	if len(ks) > 0 && reflect.TypeOf(ks[0]).Kind() == reflect.String {
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
		return
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%#v", ks[i]) < fmt.Sprintf("%#v", ks[j]) })
}

func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		vv, ok := it.m[kk]
		if !ok {
			continue
		}
		if k != nil {
			*k = kk
		}
		if v != nil {
			*v = vv
		}
		return true
	}
	return false
}

func MapKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Iter[K, V]) { return k, v, newIter(m) }
func MapK[M ~map[K]V, K comparable, V any](m M) (k K, it *Iter[K, V])       { return k, newIter(m) }
func MapV[M ~map[K]V, K comparable, V any](m M) (v V, it *Iter[K, V])       { return v, newIter(m) }
func MapI[M ~map[K]V, K comparable, V any](m M) *Iter[K, V]                 { return newIter(m) }

// ---------------------------------------------------------------- channels

func Recv[T any](ch <-chan T) T { v := <-ch; Gate(); return v }
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := <-ch
	Gate()
	return v, ok
}

// SelCase is one communication clause of a rewritten select.
type SelCase = reflect.SelectCase

func R(ch interface{}) SelCase {
	return SelCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
}
func S[T any](ch chan<- T, v T) SelCase {
	return SelCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()}
}

// Select polls the cases in a seeded order, then blocks if none is ready.
func Select(hasDefault bool, cs ...SelCase) (int, reflect.Value, bool) {
	n := len(cs)
	off := 0
	if s := curS; s != nil && n > 1 {
		if g := self(); g != nil {
			g.iters++
			off = int(Hash(s.cfg.Seed, 7, g.id, g.iters) % uint64(n))
		}
	}
	for i := 0; i < n; i++ {
		k := (i + off) % n
		c, v, ok := reflect.Select([]SelCase{cs[k], {Dir: reflect.SelectDefault}})
		if c == 0 {
			return k, v, ok
		}
	}
	if hasDefault {
		return -1, reflect.Value{}, false
	}
	c, v, ok := reflect.Select(cs)
	Gate()
	return c, v, ok
}

// RV converts a received value to the channel's element type.
func RV[T any](ch <-chan T, v reflect.Value) T {
	var z T
	if v.IsValid() {
		reflect.ValueOf(&z).Elem().Set(v)
	}
	return z
}
