package rt

import (
	"fmt"
	"sort"
	"sync"
)

// Map is sync.Map with scheduling points and an iteration order that repeats.
type Map struct{ in sync.Map }

func (m *Map) Load(k any) (any, bool)           { Yield(KAtomic); return m.in.Load(k) }
func (m *Map) Store(k, v any)                   { Yield(KAtomic); m.in.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { Yield(KAtomic); return m.in.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { Yield(KAtomic); return m.in.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { Yield(KAtomic); m.in.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { Yield(KAtomic); return m.in.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { Yield(KAtomic); return m.in.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, v any) bool   { Yield(KAtomic); return m.in.CompareAndDelete(k, v) }
func (m *Map) Clear()                           { Yield(KAtomic); m.in.Clear() }

func (m *Map) Range(f func(k, v any) bool) {
	Yield(KAtomic)
	type kv struct {
		k, v any
		s    string
	}
	var l []kv
	m.in.Range(func(k, v any) bool { l = append(l, kv{k, v, fmt.Sprintf("%T %v", k, k)}); return true })
	sort.SliceStable(l, func(i, j int) bool { return l[i].s < l[j].s })
	for _, x := range l {
		if !f(x.k, x.v) {
			return
		}
	}
}
