package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

// ------------------------------------------------ harness and environment API

// DocV is a JSON document handed to the code under check: the value it
// encodes together with its Go type (whose tags give the keys).
type DocV struct {
	t types.Type
	v Value
}

func (x *Exec) inputInt(st *State, name string, lo, hi int64) *Term {
	if r, ok := x.ranges[name]; ok {
		n := hi - lo + 1
		a := lo + n*int64(r[0])/int64(r[1])
		b := lo + n*int64(r[0]+1)/int64(r[1]) - 1
		lo, hi = a, b
	}
	if r, ok := x.fixed[name]; ok {
		if r[0] > lo {
			lo = r[0]
		}
		if r[1] < hi {
			hi = r[1]
		}
	}
	if lo > hi {
		return nil
	}
	if t, ok := x.inputs[name]; ok {
		return t
	}
	t := NewIntVar(name, rat(lo), rat(hi))
	t.input = true
	x.inputs[name] = t
	x.inBounds[name] = [2]int64{lo, hi}
	x.inputSeq = append(x.inputSeq, name)
	x.bounds = append(x.bounds, fmt.Sprintf("%s in [%d,%d]", name, lo, hi))
	return t
}

func initHarness() {
	H := "vapi."
	stop := func(st *State) []Outcome { return []Outcome{{st: st, stop: true}} }
	intrinsics[H+"VInt"] = func(x *Exec, st *State, a []Value) []Outcome {
		t := x.inputInt(st, a[0].(string), x.concretize(st, a[1]), x.concretize(st, a[2]))
		if t == nil {
			return stop(st)
		}
		if t.lo.Cmp(t.hi) == 0 {
			return ret(st, t.lo.Num().Int64())
		}
		if x.forkInputs {
			return ret(st, x.concretize(st, t))
		}
		return ret(st, t)
	}
	reg1(H+"VBool", func(x *Exec, st *State, a []Value) Value {
		t := x.inputInt(st, a[0].(string), 0, 1)
		return fromTermBool(Eq(t, IntC(1)))
	})
	reg1(H+"VStr", func(x *Exec, st *State, a []Value) Value {
		opts := x.sliceElems(st, a[1].(SliceV))
		t := x.inputInt(st, a[0].(string), 0, int64(len(opts)-1))
		id := IntC(strID(opts[len(opts)-1].(string)))
		for i := len(opts) - 2; i >= 0; i-- {
			id = Ite(Eq(t, IntC(int64(i))), IntC(strID(opts[i].(string))), id)
		}
		if id.isConst() {
			return strByID[id.c0.Num().Int64()]
		}
		return &SymStr{id: id}
	})
	intrinsics[H+"VAssume"] = func(x *Exec, st *State, a []Value) []Outcome {
		switch c := a[0].(type) {
		case bool:
			if !c {
				return stop(st)
			}
		case *Term:
			yes, _ := x.feasible(st, c, true)
			if !yes {
				return stop(st)
			}
			st.assume(c)
		}
		return ret(st, nil)
	}
	reg1(H+"VAssert", func(x *Exec, st *State, a []Value) Value {
		lbl := a[1].(string)
		x.asserts++
		x.reached[lbl] = true
		x.addObl(st, lbl, toTerm(a[0]), "assert")
		return nil
	})
	reg1(H+"VObs", func(x *Exec, st *State, a []Value) Value {
		st.obs = append(st.obs, obsEntry{a[0].(string), a[1]})
		return nil
	})
	reg1(H+"VTier", func(x *Exec, st *State, a []Value) Value { return int64(x.tier) })
	reg1(H+"VFork", func(x *Exec, st *State, a []Value) Value { return x.concretize(st, a[0]) })
	reg1(H+"VForkS", func(x *Exec, st *State, a []Value) Value { return x.concStr(st, a[0]) })
	reg1(H+"VForkB", func(x *Exec, st *State, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			return c
		case *Term:
			y, n := x.feasible(st, c, true)
			if y && n {
				panic(needSplit{conds: []*Term{c, Not(c)}})
			}
			return y
		}
		panic(unsupported("vForkB"))
	})
	reg1(H+"VIsNative", func(x *Exec, st *State, a []Value) Value { return false })
	reg1(H+"VAnd", func(x *Exec, st *State, a []Value) Value {
		var cs []*Term
		for _, e := range x.sliceElems(st, a[0].(SliceV)) {
			cs = append(cs, toTerm(e))
		}
		return fromTermBool(And(cs...))
	})
	reg1(H+"VOr", func(x *Exec, st *State, a []Value) Value {
		var cs []*Term
		for _, e := range x.sliceElems(st, a[0].(SliceV)) {
			cs = append(cs, toTerm(e))
		}
		return fromTermBool(Or(cs...))
	})
	reg1(H+"VImp", func(x *Exec, st *State, a []Value) Value {
		return fromTermBool(Or(Not(toTerm(a[0])), toTerm(a[1])))
	})
	reg1(H+"VIff", func(x *Exec, st *State, a []Value) Value {
		return fromTermBool(Eq(toTerm(a[0]), toTerm(a[1])))
	})
	reg1(H+"VIte", func(x *Exec, st *State, a []Value) Value {
		return fromTermInt(Ite(toTerm(a[0]), toTerm(a[1]), toTerm(a[2])))
	})
	reg1(H+"VShared", func(x *Exec, st *State, a []Value) Value {
		st.watch = objSeq // objects are numbered as they are made
		return nil
	})
	// vFile(name, exists, doc): the embedded file system returns this document
	reg1(H+"VFile", func(x *Exec, st *State, a []Value) Value {
		name := x.concStr(st, a[0])
		ok := a[1]
		if t, is := ok.(*Term); is {
			y, n := x.feasible(st, t, true)
			if y && n {
				panic(needSplit{conds: []*Term{t, Not(t)}})
			}
			ok = y
		}
		fs := map[string]Value{}
		if o, has := st.load(-7); has {
			for k, v := range o.(*fsObj).files {
				fs[k] = v
			}
		}
		if ok.(bool) {
			iv := a[2].(IfaceV)
			fs[name] = DocV{iv.t, x.deepCopy(st, iv.v)}
		}
		st.store(-7, &fsObj{fs})
		return nil
	})
	fsRead := func(x *Exec, st *State, local, nm Value) (Value, bool) {
		if b, ok := local.(bool); !ok || b {
			panic(unsupported("reading files from disk"))
		}
		name := x.concStr(st, nm)
		if o, has := st.load(-7); has {
			if d, ok := o.(*fsObj).files[name]; ok {
				return d, true
			}
		}
		return nil, false
	}
	reg1(repoImport+".FSByte", func(x *Exec, st *State, a []Value) Value {
		d, ok := fsRead(x, st, a[0], a[1])
		if !ok {
			return TupleV{SliceV{}, x.mkErr("file does not exist")}
		}
		return TupleV{x.newSlice(st, []Value{d}), IfaceV{}}
	})
	reg1(repoImport+".FSString", func(x *Exec, st *State, a []Value) Value { panic(unsupported("FSString")) })
	reg1("encoding/json.Unmarshal", func(x *Exec, st *State, a []Value) Value {
		es := x.sliceElems(st, a[0].(SliceV))
		if len(es) != 1 {
			return x.mkErr("unexpected end of JSON input")
		}
		d, ok := es[0].(DocV)
		if !ok {
			panic(unsupported("json of concrete bytes"))
		}
		iv := a[1].(IfaceV)
		p, ok := iv.v.(Ptr)
		if !ok {
			return x.mkErr("json: Unmarshal(non-pointer)")
		}
		pt := iv.t.Underlying().(*types.Pointer).Elem()
		cur := x.loadPtr(st, p, pt)
		nv := x.decode(st, d.t, d.v, pt, cur)
		x.storePtr(st, p, nv)
		return IfaceV{}
	})
	reg1(H+"VTemp", func(x *Exec, st *State, a []Value) Value { return "/tmp/" + x.concStr(st, a[0]) })
	reg1("path/filepath.Join", joinPath)
	reg1("path.Join", joinPath)
}

type fsObj struct{ files map[string]Value }

func joinPath(x *Exec, st *State, a []Value) Value {
	var parts []string
	for _, e := range x.sliceElems(st, a[0].(SliceV)) {
		s := x.textOf(st, e)
		if s != "" {
			parts = append(parts, s)
		}
	}
	var out []string
	j := strings.Join(parts, "/")
	for _, p := range strings.Split(j, "/") {
		switch p {
		case "", ".":
		case "..":
			if len(out) > 0 && out[len(out)-1] != ".." {
				out = out[:len(out)-1]
			} else if !strings.HasPrefix(j, "/") {
				out = append(out, p)
			}
		default:
			out = append(out, p)
		}
	}
	s := strings.Join(out, "/")
	if strings.HasPrefix(j, "/") {
		s = "/" + s
	}
	if s == "" && len(parts) > 0 {
		s = "."
	}
	return s
}

// textOf concretises formatted text by forking on its numbers.
func (x *Exec) textOf(st *State, v Value) string {
	if s, ok := v.(*SymStr); ok && s.id == nil {
		out := ""
		for _, g := range s.segs {
			if g.term == nil {
				out += g.lit
				continue
			}
			out += fmt.Sprintf(g.verb, x.concretize(st, fromTermInt(g.term)))
		}
		return out
	}
	return x.concStr(st, v)
}

func (x *Exec) deepCopy(st *State, v Value) Value {
	switch s := v.(type) {
	case SliceV:
		if s.obj == 0 {
			return s
		}
		es := append([]Value(nil), x.sliceElems(st, s)...)
		for i := range es {
			es[i] = x.deepCopy(st, es[i])
		}
		return x.newSlice(st, es)
	case StructV:
		f := make([]Value, len(s.f))
		for i := range f {
			f[i] = x.deepCopy(st, s.f[i])
		}
		return StructV{f}
	case MapV:
		if s.obj == 0 {
			return s
		}
		o, _ := st.load(s.obj)
		n := &MapObj{keys: append([]Value(nil), o.(*MapObj).keys...)}
		for _, e := range o.(*MapObj).vals {
			n.vals = append(n.vals, x.deepCopy(st, e))
		}
		return MapV{st.alloc(n)}
	}
	return v
}

func jsonKey(s *types.Struct, i int) (string, bool) {
	f := s.Field(i)
	if !f.Exported() {
		return "", false
	}
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	n := strings.Split(tag, ",")[0]
	if n == "-" && tag == "-" {
		return "", false
	}
	if n == "" {
		n = f.Name()
	}
	return n, true
}

// decode follows encoding/json: object keys are matched to fields by tag or
// name, exactly first and then without regard to case; absent keys leave the
// destination as it was.
func (x *Exec) decode(st *State, srcT types.Type, src Value, dstT types.Type, dst Value) Value {
	if isTimeType(srcT) && isTimeType(dstT) {
		return src
	}
	switch du := dstT.Underlying().(type) {
	case *types.Struct:
		su, ok := srcT.Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("json: kind mismatch"))
		}
		sv, dv := src.(StructV), dst.(StructV)
		out := append([]Value(nil), dv.f...)
		for i := 0; i < su.NumFields(); i++ {
			k, ok := jsonKey(su, i)
			if !ok {
				continue
			}
			tgt := -1
			for j := 0; j < du.NumFields(); j++ {
				if dk, ok := jsonKey(du, j); ok && dk == k {
					tgt = j
				}
			}
			if tgt < 0 {
				for j := 0; j < du.NumFields(); j++ {
					if dk, ok := jsonKey(du, j); ok && strings.EqualFold(dk, k) {
						tgt = j
					}
				}
			}
			if tgt < 0 {
				continue
			}
			out[tgt] = x.decode(st, su.Field(i).Type(), sv.f[i], du.Field(tgt).Type(), out[tgt])
		}
		return StructV{out}
	case *types.Slice:
		ss, ok := srcT.Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("json: kind mismatch"))
		}
		var es []Value
		for _, e := range x.sliceElems(st, src.(SliceV)) {
			es = append(es, x.decode(st, ss.Elem(), e, du.Elem(), zeroValue(du.Elem())))
		}
		return x.newSlice(st, es)
	case *types.Map:
		sm, ok := srcT.Underlying().(*types.Map)
		if !ok || !types.Identical(sm.Key(), du.Key()) {
			panic(unsupported("json: kind mismatch"))
		}
		n := &MapObj{}
		if m := src.(MapV); m.obj != 0 {
			o, _ := st.load(m.obj)
			for i, e := range o.(*MapObj).vals {
				n.keys = append(n.keys, o.(*MapObj).keys[i])
				n.vals = append(n.vals, x.decode(st, sm.Elem(), e, du.Elem(), zeroValue(du.Elem())))
			}
		}
		if m := dst.(MapV); m.obj != 0 {
			if o, _ := st.load(m.obj); len(o.(*MapObj).keys) > 0 {
				panic(unsupported("json into a filled map"))
			}
			st.store(m.obj, n)
			return m
		}
		return MapV{st.alloc(n)}
	case *types.Basic:
		sb := basicOf(srcT)
		if sb == nil || sb.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != du.Info()&(types.IsInteger|types.IsString|types.IsBoolean) {
			panic(unsupported("json: kind mismatch"))
		}
		return src
	}
	panic(unsupported("json into %s", dstT))
}

func (x *Exec) addObl(st *State, label string, goal *Term, kind string) {
	o := &Obligation{label: label, goal: goal, kind: kind}
	if goal == TTrue {
		o.trivial = true
	} else if st.quick(goal, nil) == Sat {
		o.trivial = true
		claimPath(st, goal, true, o)
	} else {
		o.pc = st.pcList()
		for _, c := range o.pc {
			if c == goal {
				o.trivial = true
			}
		}
	}
	x.obls = append(x.obls, o)
}

var _ = big.NewInt
