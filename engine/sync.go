package main

import (
	"go/token"
	"go/types"
)

// Synchronisation. A harness runs on one goroutine, so locks are free and
// atomics are plain loads and stores. (Race freedom is N02's subject and looks
// at stores, not at locks.)

var anyMap = types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))

func init() {
	for _, p := range []string{"sync", "sync/atomic"} {
		interpStd[p] = true
	}
	nop := func(x *Exec, st *State, a []Value) Value { return nil }
	yes := func(x *Exec, st *State, a []Value) Value { return true }
	for _, n := range []string{
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock",
		"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*sync.noCopy).Lock", "(*sync.noCopy).Unlock",
	} {
		reg1(n, nop)
	}
	for _, n := range []string{"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock"} {
		reg1(n, yes)
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		var ty types.Type
		switch t {
		case "Int32":
			ty = types.Typ[types.Int32]
		case "Int64":
			ty = types.Typ[types.Int64]
		case "Uint32":
			ty = types.Typ[types.Uint32]
		case "Uint64", "Uintptr":
			ty = types.Typ[types.Uint64]
		}
		p := "sync/atomic."
		reg1(p+"Load"+t, func(x *Exec, st *State, a []Value) Value { return x.loadPtr(st, a[0], nil) })
		reg1(p+"Store"+t, func(x *Exec, st *State, a []Value) Value { x.storePtr(st, a[0], a[1]); return nil })
		reg1(p+"Swap"+t, func(x *Exec, st *State, a []Value) Value {
			o := x.loadPtr(st, a[0], nil)
			x.storePtr(st, a[0], a[1])
			return o
		})
		if ty == nil {
			continue
		}
		reg1(p+"Add"+t, func(x *Exec, st *State, a []Value) Value {
			n := x.intBin(st, token.ADD, x.loadPtr(st, a[0], nil), a[1], ty, ty)
			x.storePtr(st, a[0], n)
			return n
		})
		intrinsics[p+"CompareAndSwap"+t] = func(x *Exec, st *State, a []Value) []Outcome {
			c := x.eqVals(st, x.loadPtr(st, a[0], nil), a[1], ty)
			if !x.decide(st, c) {
				return ret(st, false)
			}
			x.storePtr(st, a[0], a[2])
			return ret(st, true)
		}
	}
	// atomic.Value and atomic.Pointer keep what they hold in their last field
	last := func(x *Exec, st *State, p Value) Ptr {
		q := p.(Ptr)
		s := x.loadPtr(st, q, nil).(StructV)
		for i := len(s.f) - 1; i >= 0; i-- {
			switch s.f[i].(type) {
			case Ptr, IfaceV:
				return Ptr{q.obj, pathJoin(q.path, i)}
			}
		}
		panic(unsupported("layout of an atomic value"))
	}
	for _, t := range []string{"Value", "Pointer[T]"} {
		reg1("(*sync/atomic."+t+").Load", func(x *Exec, st *State, a []Value) Value { return x.loadPtr(st, last(x, st, a[0]), nil) })
		reg1("(*sync/atomic."+t+").Store", func(x *Exec, st *State, a []Value) Value {
			x.storePtr(st, last(x, st, a[0]), a[1])
			return nil
		})
		reg1("(*sync/atomic."+t+").Swap", func(x *Exec, st *State, a []Value) Value {
			p := last(x, st, a[0])
			o := x.loadPtr(st, p, nil)
			x.storePtr(st, p, a[1])
			return o
		})
	}
	// sync.Map: its last field holds the map
	mapOf := func(x *Exec, st *State, p Value) MapV {
		q := p.(Ptr)
		s := x.loadPtr(st, q, nil).(StructV)
		i := len(s.f) - 1
		if m, ok := s.f[i].(MapV); ok {
			return m
		}
		m := MapV{st.alloc(&MapObj{})}
		x.storePtr(st, Ptr{q.obj, pathJoin(q.path, i)}, m)
		return m
	}
	load := func(x *Exec, st *State, m MapV, k Value) (Value, bool) {
		v, c := x.mapGet(st, m, k, anyMap)
		if c == TTrue {
			return v, true
		}
		if c == TFalse {
			return IfaceV{}, false
		}
		switch st.quick(c, nil) {
		case Sat:
			return v, true
		case Unsat:
			return IfaceV{}, false
		}
		if x.decide(st, c) {
			return v, true
		}
		return IfaceV{}, false
	}
	reg1("(*sync.Map).Load", func(x *Exec, st *State, a []Value) Value {
		v, ok := load(x, st, mapOf(x, st, a[0]), a[1])
		return TupleV{v, ok}
	})
	reg1("(*sync.Map).Store", func(x *Exec, st *State, a []Value) Value {
		x.mapSet(st, mapOf(x, st, a[0]), a[1], a[2], anyMap)
		return nil
	})
	reg1("(*sync.Map).LoadOrStore", func(x *Exec, st *State, a []Value) Value {
		m := mapOf(x, st, a[0])
		if v, ok := load(x, st, m, a[1]); ok {
			return TupleV{v, true}
		}
		x.mapSet(st, m, a[1], a[2], anyMap)
		return TupleV{a[2], false}
	})
	reg1("(*sync.Map).Delete", func(x *Exec, st *State, a []Value) Value {
		m := mapOf(x, st, a[0])
		o, _ := st.load(m.obj)
		mo := o.(*MapObj)
		if i := x.decideKey(st, mo, a[1], anyMap.Key()); i >= 0 {
			n := &MapObj{keys: append([]Value(nil), mo.keys[:i]...), vals: append([]Value(nil), mo.vals[:i]...)}
			n.keys = append(n.keys, mo.keys[i+1:]...)
			n.vals = append(n.vals, mo.vals[i+1:]...)
			x.noteStore(st, m.obj)
			st.store(m.obj, n)
		}
		return nil
	})
	reg1("(*sync.Map).Clear", func(x *Exec, st *State, a []Value) Value {
		m := mapOf(x, st, a[0])
		x.noteStore(st, m.obj)
		st.store(m.obj, &MapObj{})
		return nil
	})
}
