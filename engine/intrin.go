package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, args []Value) []Outcome

var intrinsics = map[string]intrinsic{}

func ret(st *State, v Value) []Outcome { return []Outcome{{st: st, val: v}} }

func reg1(name string, f func(x *Exec, st *State, a []Value) Value) {
	intrinsics[name] = func(x *Exec, st *State, a []Value) []Outcome { return ret(st, f(x, st, a)) }
}

func globalIntrinsic(g *ssa.Global) (Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "time.UTC", "time.Local":
		return LocV{}, true
	case "os.Stderr", "os.Stdout", "os.Stdin":
		return Ptr{obj: -2}, true
	case "os.Args":
		return SliceV{}, true
	case "io.EOF", "os.ErrNotExist":
		return IfaceV{}, true
	}
	return nil, false
}

// nativeFns: pure library functions evaluated by the real library when every
// argument is concrete.
var nativeFns = map[string]any{
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.Title": strings.Title,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields,
	"strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count, "strings.ContainsRune": strings.ContainsRune,
	"strings.Compare": strings.Compare, "strings.ToTitle": strings.ToTitle, "strings.ContainsAny": strings.ContainsAny,
	"strings.IndexRune": strings.IndexRune, "strings.Clone": strings.Clone,
	"strconv.Atoi": strconv.Atoi, "strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt,
	"strconv.ParseInt": strconv.ParseInt, "strconv.ParseBool": strconv.ParseBool, "strconv.Quote": strconv.Quote,
	"strconv.FormatBool": strconv.FormatBool, "strconv.FormatFloat": strconv.FormatFloat, "strconv.ParseFloat": strconv.ParseFloat,
	"strconv.FormatUint": strconv.FormatUint, "strconv.ParseUint": strconv.ParseUint,
	"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper,
	"unicode.ToTitle": unicode.ToTitle, "unicode.IsLower": unicode.IsLower,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.ValidString": utf8.ValidString,
	"math.Sqrt": math.Sqrt, "math.Pow": math.Pow, "math.Mod": math.Mod, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc,
	"math.Round": math.Round, "math.Tan": math.Tan, "math.Atan": math.Atan, "math.Asin": math.Asin, "math.Acos": math.Acos,
	"math.Atan2": math.Atan2, "math.Modf": math.Modf, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf,
	"math.NaN": math.NaN, "math.Log": math.Log, "math.Exp": math.Exp, "math.Hypot": math.Hypot, "math.Remainder": math.Remainder,
	"math.Max": math.Max, "math.Min": math.Min, "math.Signbit": math.Signbit, "math.Copysign": math.Copysign,
	"math.RoundToEven": math.RoundToEven, "math.Float64bits": math.Float64bits, "math.Sincos": math.Sincos, "math.FMA": math.FMA,
	"math.Dim": math.Dim,
}

func toNative(x *Exec, st *State, v Value, t reflect.Type) (r reflect.Value, ok bool) {
	switch n := v.(type) {
	case int64:
		rv := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			rv.SetInt(n)
			return rv, true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			rv.SetUint(uint64(n))
			return rv, true
		}
	case bool:
		if t.Kind() == reflect.Bool {
			return reflect.ValueOf(n).Convert(t), true
		}
	case float64:
		if t.Kind() == reflect.Float64 {
			return reflect.ValueOf(n).Convert(t), true
		}
	case string:
		if t.Kind() == reflect.String {
			return reflect.ValueOf(n).Convert(t), true
		}
	}
	return r, false
}

func fromNative(x *Exec, st *State, v reflect.Value) Value {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return v.Float()
	case reflect.String:
		return v.String()
	case reflect.Slice:
		var es []Value
		for i := 0; i < v.Len(); i++ {
			es = append(es, fromNative(x, st, v.Index(i)))
		}
		return x.newSlice(st, es)
	case reflect.Interface:
		if v.IsNil() {
			return IfaceV{}
		}
		if e, ok := v.Interface().(error); ok {
			return x.mkErr(e.Error())
		}
	}
	panic(unsupported("native result %s", v.Kind()))
}

func (x *Exec) mkErr(msg Value) Value {
	return IfaceV{x.errType(), &natErr{msg}}
}

func (x *Exec) errType() types.Type {
	if p := x.prog.ImportedPackage("errors"); p != nil {
		if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	return types.Universe.Lookup("error").Type()
}

// native: a library function without a model.
func (x *Exec) native(fn *ssa.Function, key string, args []Value, st *State) []Outcome {
	nf, ok := nativeFns[key]
	if !ok {
		panic(unsupported("call of %s", key))
	}
	rv := reflect.ValueOf(nf)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		switch s := a.(type) {
		case *SymStr:
			if s.id != nil {
				a = x.concStr(st, s)
			}
		case *Term:
			if s.sort == SInt && !isFloat(fn.Signature.Params().At(i).Type()) {
				a = x.concretize(st, s)
			} else if s.sort == SBool {
				a = x.decide(st, s)
			}
		}
		r, ok := toNative(x, st, a, rv.Type().In(i))
		if !ok {
			panic(unsupported("%s on a symbolic or composite argument", key))
		}
		in[i] = r
	}
	x.natives[key] = true
	out := rv.Call(in)
	if len(out) == 1 {
		return ret(st, fromNative(x, st, out[0]))
	}
	tv := make(TupleV, len(out))
	for i, o := range out {
		tv[i] = fromNative(x, st, o)
	}
	return ret(st, tv)
}

// concStr: the concrete text of an opaque string on this path, forking.
func (x *Exec) concStr(st *State, v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		if s.id == nil {
			panic(unsupported("text operation on a formatted symbolic number"))
		}
		for p := st.pc; p != nil; p = p.parent {
			if p.c.op == OEq0 {
				if n, ok := solveFor(p.c.args[0], s.id); ok {
					return strByID[n]
				}
			}
		}
		lo, hi := st.interval(s.id, map[*Term][2]*big.Rat{})
		l, h := lo.Num().Int64(), hi.Num().Int64()
		if l == h {
			return strByID[l]
		}
		var conds []*Term
		for i := l; i <= h; i++ {
			if c := Eq(s.id, IntC(i)); c != TFalse {
				if c == TTrue {
					return strByID[i]
				}
				if st.quick(c, nil) == Sat {
					return strByID[i]
				}
				if st.onPath(c) == Sat {
					return strByID[i]
				}
				conds = append(conds, c)
			}
		}
		panic(needSplit{conds: conds})
	}
	panic(unsupported("string %T", v))
}

// -------------------------------------------------------------------- fmt

func (x *Exec) ifaceStr(st *State, v Value, verb byte) (Value, bool) {
	iv, ok := v.(IfaceV)
	if !ok || iv.t == nil {
		return nil, false
	}
	if ne, ok := iv.v.(*natErr); ok {
		return ne.msg, true
	}
	if verb != 's' && verb != 'v' && verb != 'q' {
		return nil, false
	}
	if tv, ok := iv.v.(TimeV); ok {
		if g, ok := tv.concrete(); ok {
			return g.String(), true
		}
		panic(unsupported("formatting a symbolic time"))
	}
	for _, name := range []string{"Error", "String"} {
		ms := x.prog.MethodSets.MethodSet(iv.t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sg := ms.At(i).Type().(*types.Signature)
				if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
					continue
				}
				fn := x.prog.MethodValue(ms.At(i))
				outs := x.execFunc(fn, []Value{iv.v}, nil, st)
				if len(outs) != 1 || outs[0].panic_ || outs[0].stop || outs[0].st != st {
					panic(unsupported("formatting through a %s method with several outcomes", name))
				}
				return outs[0].val, true
			}
		}
	}
	return nil, false
}

func (x *Exec) fmtArg(st *State, spec string, verb byte, v Value) Value {
	if s, ok := x.ifaceStr(st, v, verb); ok {
		if cs, ok := s.(string); ok {
			return fmt.Sprintf(spec, cs)
		}
		if spec == "%s" || spec == "%v" {
			return s
		}
		panic(unsupported("format %s of symbolic text", spec))
	}
	iv, ok := v.(IfaceV)
	if !ok {
		iv = IfaceV{nil, v}
	}
	switch n := iv.v.(type) {
	case nil:
		return fmt.Sprintf(spec, nil)
	case int64:
		if iv.t != nil {
			b := basicOf(iv.t)
			if b != nil {
				switch b.Kind() {
				case types.Uint8:
					return fmt.Sprintf(spec, uint8(n))
				case types.Int32:
					return fmt.Sprintf(spec, int32(n))
				case types.Uint, types.Uint64:
					return fmt.Sprintf(spec, uint64(n))
				}
			}
			if named, ok := types.Unalias(iv.t).(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == "time" {
				switch named.Obj().Name() {
				case "Month":
					return fmt.Sprintf(spec, time.Month(n))
				case "Duration":
					return fmt.Sprintf(spec, time.Duration(n))
				case "Weekday":
					return fmt.Sprintf(spec, time.Weekday(n))
				}
			}
		}
		return fmt.Sprintf(spec, int(n))
	case bool:
		return fmt.Sprintf(spec, n)
	case float64:
		return fmt.Sprintf(spec, n)
	case string:
		return fmt.Sprintf(spec, n)
	case *SymStr:
		if spec == "%s" || spec == "%v" {
			if n.id != nil {
				return x.concStr(st, n)
			}
			return n
		}
		return fmt.Sprintf(spec, x.concStr(st, n))
	case *Term:
		if n.sort == SBool {
			return fmt.Sprintf(spec, x.decide(st, n))
		}
		isF := iv.t != nil && isFloat(iv.t)
		if !isF && (verb == 'v' || verb == 'd') {
			if spec == "%v" {
				spec = "%d"
			}
			return &SymStr{segs: []Seg{{term: n, verb: spec}}}
		}
		return &SymStr{segs: []Seg{{term: n, verb: "f" + spec}}}
	}
	panic(unsupported("formatting %T", iv.v))
}

func (x *Exec) sprintf(st *State, format string, args []Value) Value {
	var segs []Seg
	add := func(v Value) {
		segs = append(segs, strSegs(v)...)
	}
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			segs = append(segs, Seg{lit: format[i:]})
			break
		}
		segs = append(segs, Seg{lit: format[i : i+j]})
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			segs = append(segs, Seg{lit: "%!(NOVERB)"})
			break
		}
		if format[k] == '*' || format[k] == '[' {
			panic(unsupported("format %q", format))
		}
		spec := format[i : k+1]
		verb := format[k]
		i = k + 1
		if verb == '%' {
			segs = append(segs, Seg{lit: "%"})
			continue
		}
		if ai >= len(args) {
			segs = append(segs, Seg{lit: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		add(x.fmtArg(st, spec, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		segs = append(segs, Seg{lit: fmt.Sprintf("%%!(EXTRA %d)", len(args)-ai)})
	}
	return segsStr(segs)
}

func (x *Exec) sprint(st *State, args []Value, ln bool) Value {
	var segs []Seg
	prevStr := true
	for i, a := range args {
		iv, _ := a.(IfaceV)
		isS := iv.t != nil && isString(iv.t)
		if i > 0 && (ln || !isS && !prevStr) {
			segs = append(segs, Seg{lit: " "})
		}
		segs = append(segs, strSegs(x.fmtArg(st, "%v", 'v', a))...)
		prevStr = isS
	}
	if ln {
		segs = append(segs, Seg{lit: "\n"})
	}
	return segsStr(segs)
}

// writer sinks: strings.Builder / bytes.Buffer get the text, others drop it.
func (x *Exec) writeTo(st *State, w Value, s Value) {
	iv, _ := w.(IfaceV)
	if iv.t == nil {
		panic(goPanic{"nil writer"})
	}
	switch iv.t.String() {
	case "*strings.Builder", "*bytes.Buffer":
		x.builderAppend(st, iv.v.(Ptr), s)
		return
	}
	if p, ok := iv.v.(Ptr); ok && (p.obj == -2 || iv.t.String() == "*os.File") {
		x.writeFile(st, p, s)
		return
	}
	panic(unsupported("writing to %s", iv.t))
}

func builderSlot(st *State, x *Exec, p Ptr) (Ptr, Value) {
	o, ok := st.load(p.obj)
	if !ok {
		panic(unsupported("builder object"))
	}
	sv := getPath(o, pathParts(p.path)).(StructV)
	for i, f := range sv.f {
		switch f.(type) {
		case string, *SymStr:
			return Ptr{p.obj, pathJoin(p.path, i)}, f
		}
	}
	for i, f := range sv.f {
		if _, ok := f.(SliceV); ok {
			return Ptr{p.obj, pathJoin(p.path, i)}, ""
		}
	}
	panic(unsupported("builder layout"))
}

func (x *Exec) builderAppend(st *State, p Ptr, s Value) {
	slot, cur := builderSlot(st, x, p)
	if ss, ok := s.(*SymStr); ok && ss.id != nil {
		s = x.concStr(st, ss)
	}
	x.storePtr(st, slot, segsStr(append(append([]Seg(nil), strSegs(cur)...), strSegs(s)...)))
}

func init() {
	nop := func(x *Exec, st *State, a []Value) Value { return nil }
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix", "log.SetOutput"} {
		reg1(n, nop)
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg1(n, func(x *Exec, st *State, a []Value) Value { return TupleV{int64(0), IfaceV{}} })
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit"} {
		intrinsics[n] = func(x *Exec, st *State, a []Value) []Outcome { return []Outcome{{st: st, stop: true}} }
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		intrinsics[n] = func(x *Exec, st *State, a []Value) []Outcome {
			return []Outcome{{st: st, panic_: true, msg: "log.Panic"}}
		}
	}
	sl := func(x *Exec, st *State, v Value) []Value { return x.sliceElems(st, v.(SliceV)) }
	fstr := func(x *Exec, st *State, v Value) string {
		s, ok := v.(string)
		if !ok {
			s = x.concStr(st, v)
		}
		return s
	}
	reg1("fmt.Sprintf", func(x *Exec, st *State, a []Value) Value { return x.sprintf(st, fstr(x, st, a[0]), sl(x, st, a[1])) })
	reg1("fmt.Sprint", func(x *Exec, st *State, a []Value) Value { return x.sprint(st, sl(x, st, a[0]), false) })
	reg1("fmt.Sprintln", func(x *Exec, st *State, a []Value) Value { return x.sprint(st, sl(x, st, a[0]), true) })
	reg1("fmt.Errorf", func(x *Exec, st *State, a []Value) Value {
		f := strings.ReplaceAll(fstr(x, st, a[0]), "%w", "%v")
		return x.mkErr(x.sprintf(st, f, sl(x, st, a[1])))
	})
	reg1("errors.New", func(x *Exec, st *State, a []Value) Value { return x.mkErr(a[0]) })
	reg1("fmt.Fprintf", func(x *Exec, st *State, a []Value) Value {
		x.writeTo(st, a[0], x.sprintf(st, fstr(x, st, a[1]), sl(x, st, a[2])))
		return TupleV{int64(0), IfaceV{}}
	})
	reg1("fmt.Fprint", func(x *Exec, st *State, a []Value) Value {
		x.writeTo(st, a[0], x.sprint(st, sl(x, st, a[1]), false))
		return TupleV{int64(0), IfaceV{}}
	})
	reg1("fmt.Fprintln", func(x *Exec, st *State, a []Value) Value {
		x.writeTo(st, a[0], x.sprint(st, sl(x, st, a[1]), true))
		return TupleV{int64(0), IfaceV{}}
	})
	for _, ty := range []string{"strings.Builder", "bytes.Buffer"} {
		reg1("(*"+ty+").WriteString", func(x *Exec, st *State, a []Value) Value {
			x.builderAppend(st, a[0].(Ptr), a[1])
			return TupleV{int64(0), IfaceV{}}
		})
		reg1("(*"+ty+").WriteByte", func(x *Exec, st *State, a []Value) Value {
			x.builderAppend(st, a[0].(Ptr), string([]byte{byte(x.concretize(st, a[1]))}))
			return IfaceV{}
		})
		reg1("(*"+ty+").WriteRune", func(x *Exec, st *State, a []Value) Value {
			x.builderAppend(st, a[0].(Ptr), string(rune(x.concretize(st, a[1]))))
			return TupleV{int64(0), IfaceV{}}
		})
		reg1("(*"+ty+").String", func(x *Exec, st *State, a []Value) Value {
			_, cur := builderSlot(st, x, a[0].(Ptr))
			return cur
		})
		reg1("(*"+ty+").Len", func(x *Exec, st *State, a []Value) Value {
			_, cur := builderSlot(st, x, a[0].(Ptr))
			return int64(len(x.concStr(st, cur)))
		})
		reg1("(*"+ty+").Grow", nop)
		reg1("(*"+ty+").Reset", func(x *Exec, st *State, a []Value) Value {
			slot, _ := builderSlot(st, x, a[0].(Ptr))
			x.storePtr(st, slot, "")
			return nil
		})
	}
	reg1("bytes.NewBufferString", func(x *Exec, st *State, a []Value) Value {
		return Ptr{obj: st.alloc(StructV{f: []Value{a[0]}})}
	})
	reg1("strings.Join", func(x *Exec, st *State, a []Value) Value {
		var segs []Seg
		for i, e := range sl(x, st, a[0]) {
			if i > 0 {
				segs = append(segs, strSegs(a[1])...)
			}
			if ss, ok := e.(*SymStr); ok && ss.id != nil {
				e = x.concStr(st, ss)
			}
			segs = append(segs, strSegs(e)...)
		}
		return segsStr(segs)
	})
	reg1("strconv.Itoa", func(x *Exec, st *State, a []Value) Value {
		if n, ok := a[0].(int64); ok {
			return strconv.FormatInt(n, 10)
		}
		return &SymStr{segs: []Seg{{term: toTerm(a[0]), verb: "%d"}}}
	})
	reg1("strconv.FormatInt", func(x *Exec, st *State, a []Value) Value {
		b := x.concretize(st, a[1])
		if n, ok := a[0].(int64); ok {
			return strconv.FormatInt(n, int(b))
		}
		if b != 10 {
			panic(unsupported("FormatInt base %d", b))
		}
		return &SymStr{segs: []Seg{{term: toTerm(a[0]), verb: "%d"}}}
	})

	// texts with numbers in them: cuts at known text do not need their digits
	affix := func(name string, front, cut bool) {
		nat := nativeFns[name]
		intrinsics[name] = func(x *Exec, st *State, a []Value) []Outcome {
			s, isSym := a[0].(*SymStr)
			p, isStr := a[1].(string)
			has := TFalse
			rest := Value(nil)
			switch {
			case isSym && s.id == nil && isStr:
				if lit := s.segs[0]; front && lit.term == nil && len(lit.lit) >= len(p) {
					if strings.HasPrefix(lit.lit, p) {
						has, rest = TTrue, segsStr(append([]Seg{{lit: lit.lit[len(p):]}}, s.segs[1:]...))
					}
					break
				}
				n := len(s.segs)
				if lit := s.segs[n-1]; !front && lit.term == nil && len(lit.lit) >= len(p) {
					if strings.HasSuffix(lit.lit, p) {
						has, rest = TTrue, segsStr(append(append([]Seg(nil), s.segs[:n-1]...), Seg{lit: lit.lit[:len(lit.lit)-len(p)]}))
					}
					break
				}
				fallthrough
			case isSym && s.id == nil, !isStr && a[1].(*SymStr).id == nil:
				if isSym && s.id != nil {
					a[0] = x.concStr(st, s)
				}
				if t, ok := a[1].(*SymStr); ok && t.id != nil {
					a[1] = x.concStr(st, t)
				}
				cs, cp := x.chars(st, a[0]), x.chars(st, a[1])
				if len(cs) < len(cp) {
					break
				}
				k := 0
				if !front {
					k = len(cs) - len(cp)
				}
				var conds []*Term
				for i := range cp {
					conds = append(conds, Eq(cs[k+i], cp[i]))
				}
				has = And(conds...)
				if front {
					rest = fromChars(cs[len(cp):])
				} else {
					rest = fromChars(cs[:k])
				}
			default:
				for i := range a {
					a[i] = x.concStr(st, a[i])
				}
				s, p := a[0].(string), a[1].(string)
				x.natives[name] = true
				switch f := nat.(type) {
				case func(string, string) bool:
					return ret(st, f(s, p))
				case func(string, string) string:
					return ret(st, f(s, p))
				}
			}
			if !cut {
				return ret(st, fromTermBool(has))
			}
			if has != TFalse && x.decide(st, has) {
				return ret(st, rest)
			}
			return ret(st, a[0])
		}
	}
	affix("strings.HasPrefix", true, false)
	affix("strings.HasSuffix", false, false)
	affix("strings.TrimPrefix", true, true)
	affix("strings.TrimSuffix", false, true)
	count := func(name string) {
		intrinsics[name] = func(x *Exec, st *State, a []Value) []Outcome {
			s, isSym := a[0].(*SymStr)
			p, isStr := a[1].(string)
			if !isSym || s.id != nil || !isStr || len(p) != 1 || p == "-" || p[0] >= '0' && p[0] <= '9' {
				for i := range a {
					a[i] = x.concStr(st, a[i])
				}
				x.natives[name] = true
				n := strings.Count(a[0].(string), a[1].(string))
				if name == "strings.Contains" {
					return ret(st, n > 0)
				}
				return ret(st, int64(n))
			}
			n := int64(0) // a byte no number has
			for _, g := range s.segs {
				if g.term != nil && (g.term.sort != SInt || p == " ") {
					panic(unsupported("looking for %q in a number", p))
				}
				n += int64(strings.Count(g.lit, p))
			}
			if name == "strings.Contains" {
				return ret(st, n > 0)
			}
			return ret(st, n)
		}
	}
	count("strings.Count")
	count("strings.Contains")

	// ------------------------------------------------------------- math
	fl := func(name string, conc func(float64) float64, sym func(x *Exec, st *State, t *Term) *Term) {
		reg1(name, func(x *Exec, st *State, a []Value) Value {
			if f, ok := a[0].(float64); ok {
				return conc(f)
			}
			return fromTermFloat(sym(x, st, toTerm(a[0])))
		})
	}
	fl("math.Floor", math.Floor, func(x *Exec, st *State, t *Term) *Term { return ffloor(t) })
	fl("math.Ceil", math.Ceil, func(x *Exec, st *State, t *Term) *Term { return Neg(ffloor(Neg(t))) })
	fl("math.Trunc", math.Trunc, func(x *Exec, st *State, t *Term) *Term { return ftrunc(t) })
	fl("math.Round", math.Round, func(x *Exec, st *State, t *Term) *Term {
		half := RatC(big.NewRat(1, 2))
		up := FloorT(Add(t, half))
		dn := Neg(FloorT(Add(Neg(t), half)))
		return Ite(Ge(t, IntC(0)), up, dn)
	})
	fl("math.RoundToEven", math.RoundToEven, func(x *Exec, st *State, t *Term) *Term {
		half := RatC(big.NewRat(1, 2))
		f := FloorT(Add(t, half))
		tie := And(Eq(f, Add(t, half)), Eq(ModFloor(f, big.NewInt(2)), IntC(1)))
		return Ite(tie, AddI(f, -1), f)
	})
	fl("math.Abs", math.Abs, func(x *Exec, st *State, t *Term) *Term {
		if x.nonNeg(st, t) {
			return t
		}
		return AbsT(t)
	})
	fl("math.Sin", math.Sin, func(x *Exec, st *State, t *Term) *Term { return ftrig("sin", t) })
	fl("math.Cos", math.Cos, func(x *Exec, st *State, t *Term) *Term { return ftrig("cos", t) })
	two := func(name string, conc func(a, b float64) float64, less bool) {
		reg1(name, func(x *Exec, st *State, a []Value) Value {
			f, ok1 := a[0].(float64)
			g, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return conc(f, g)
			}
			c := Lt(toTerm(a[0]), toTerm(a[1]))
			if less {
				return fromTermFloat(Ite(c, toTerm(a[0]), toTerm(a[1])))
			}
			return fromTermFloat(Ite(c, toTerm(a[1]), toTerm(a[0])))
		})
	}
	two("math.Min", math.Min, true)
	two("math.Max", math.Max, false)
	reg1("math.Mod", func(x *Exec, st *State, a []Value) Value {
		f, ok1 := a[0].(float64)
		g, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Mod(f, g)
		}
		if !ok2 {
			panic(unsupported("math.Mod with a symbolic divisor"))
		}
		t, k := toTerm(a[0]), RatC(new(big.Rat).Abs(FloatC(g).c0))
		// exact: t - k*trunc(t/k)
		md := func(t *Term) *Term { // t >= 0
			q := FloorT(Scale(new(big.Rat).Inv(k.c0), t))
			return Sub(t, Scale(k.c0, q))
		}
		if x.nonNeg(st, t) {
			return fromTermFloat(md(t))
		}
		return fromTermFloat(Ite(Ge(t, IntC(0)), md(t), Neg(md(Neg(t)))))
	})
	reg1("math.Modf", func(x *Exec, st *State, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			i, fr := math.Modf(f)
			return TupleV{i, fr}
		}
		t := toTerm(a[0])
		i := ftrunc(t)
		return TupleV{fromTermFloat(i), fromTermFloat(fsub(t, i))}
	})

	// zero is taken as +0: a text of the sign of -0 is outside the model
	reg1("math.Signbit", func(x *Exec, st *State, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Signbit(f)
		}
		return fromTermBool(Lt(toTerm(a[0]), IntC(0)))
	})
	reg1("math.Copysign", func(x *Exec, st *State, a []Value) Value {
		f, ok1 := a[0].(float64)
		g, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Copysign(f, g)
		}
		m := AbsT(toTerm(a[0]))
		if ok2 {
			if math.Signbit(g) {
				return fromTermFloat(Neg(m))
			}
			return fromTermFloat(m)
		}
		if x.nonNeg(st, toTerm(a[1])) {
			return fromTermFloat(m)
		}
		return fromTermFloat(Ite(Lt(toTerm(a[1]), IntC(0)), Neg(m), m))
	})

	initTime()
	initHarness()
}

// -------------------------------------------------------------------- time

func tv(x *Exec, st *State, v Value) TimeV {
	switch t := v.(type) {
	case TimeV:
		return t
	case Ptr:
		return x.loadPtr(st, t, nil).(TimeV)
	}
	panic(unsupported("time value %T", v))
}

func ordT(a, b TimeV) (lt, eq *Term) {
	as, bs := toTerm(a.sec), toTerm(b.sec)
	an, bn := toTerm(a.nsec), toTerm(b.nsec)
	eq = And(Eq(as, bs), Eq(an, bn))
	lt = Or(Lt(as, bs), And(Eq(as, bs), Lt(an, bn)))
	return
}

// addDur adds a duration in nanoseconds.
func addDur(st *State, t TimeV, d Value) TimeV {
	if n, ok := d.(int64); ok {
		if g, ok := t.concrete(); ok {
			r := fromGoTime(g.Add(time.Duration(n)))
			r.loc = t.loc
			return r
		}
	}
	tot := Add(toTerm(t.nsec), toTerm(d))
	sec := Add(toTerm(t.sec), DivFloor(tot, bigK(1_000_000_000)))
	return TimeV{sec: fromTermInt(sec), nsec: fromTermInt(ModFloor(tot, bigK(1_000_000_000))), loc: t.loc}
}

func subDur(a, b TimeV) Value {
	return fromTermInt(Add(ScaleI(1_000_000_000, Sub(toTerm(a.sec), toTerm(b.sec))), Sub(toTerm(a.nsec), toTerm(b.nsec))))
}

func initTime() {
	T := "(time.Time)."
	get := func(name string, conc func(time.Time) int64, sym func(c civ, sod *Term, t TimeV, days *Term) *Term) {
		reg1(T+name, func(x *Exec, st *State, a []Value) Value {
			t := tv(x, st, a[0])
			if g, ok := t.concrete(); ok {
				return conc(g)
			}
			days, sod := t.dayAndSec()
			return fromTermInt(sym(civilT(st, days), sod, t, days))
		})
	}
	get("Year", func(t time.Time) int64 { return int64(t.Year()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return c.y })
	get("Month", func(t time.Time) int64 { return int64(t.Month()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return c.m })
	get("Day", func(t time.Time) int64 { return int64(t.Day()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return c.d })
	get("YearDay", func(t time.Time) int64 { return int64(t.YearDay()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return c.doy })
	get("Hour", func(t time.Time) int64 { return int64(t.Hour()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return divI(s, 3600) })
	get("Minute", func(t time.Time) int64 { return int64(t.Minute()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return modI(divI(s, 60), 60) })
	get("Second", func(t time.Time) int64 { return int64(t.Second()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return modI(s, 60) })
	get("Weekday", func(t time.Time) int64 { return int64(t.Weekday()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return modI(AddI(d, 4), 7) })
	get("Unix", func(t time.Time) int64 { return t.Unix() }, func(c civ, s *Term, t TimeV, d *Term) *Term { return toTerm(t.sec) })
	get("UnixMilli", func(t time.Time) int64 { return t.UnixMilli() }, func(c civ, s *Term, t TimeV, d *Term) *Term {
		return Add(ScaleI(1_000, toTerm(t.sec)), divI(toTerm(t.nsec), 1_000_000))
	})
	get("UnixMicro", func(t time.Time) int64 { return t.UnixMicro() }, func(c civ, s *Term, t TimeV, d *Term) *Term {
		return Add(ScaleI(1_000_000, toTerm(t.sec)), divI(toTerm(t.nsec), 1_000))
	})
	reg1(T+"UnixNano", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		if g, ok := t.concrete(); ok {
			return g.UnixNano()
		}
		n := Add(ScaleI(1_000_000_000, toTerm(t.sec)), toTerm(t.nsec))
		lo, hi := st.interval(n, map[*Term][2]*big.Rat{})
		if mx := rat(math.MaxInt64); lo == nil || hi == nil || new(big.Rat).Abs(lo).Cmp(mx) > 0 || hi.Cmp(mx) > 0 {
			panic(unsupported("UnixNano out of its range"))
		}
		return fromTermInt(n)
	})
	get("Nanosecond", func(t time.Time) int64 { return int64(t.Nanosecond()) }, func(c civ, s *Term, t TimeV, d *Term) *Term { return toTerm(t.nsec) })
	reg1(T+"Date", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		if g, ok := t.concrete(); ok {
			y, m, d := g.Date()
			return TupleV{int64(y), int64(m), int64(d)}
		}
		days, _ := t.dayAndSec()
		c := civilT(st, days)
		return TupleV{fromTermInt(c.y), fromTermInt(c.m), fromTermInt(c.d)}
	})
	reg1(T+"Clock", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		_, s := t.dayAndSec()
		return TupleV{fromTermInt(divI(s, 3600)), fromTermInt(modI(divI(s, 60), 60)), fromTermInt(modI(s, 60))}
	})
	reg1(T+"Add", func(x *Exec, st *State, a []Value) Value { return addDur(st, tv(x, st, a[0]), a[1]) })
	reg1(T+"Sub", func(x *Exec, st *State, a []Value) Value {
		p, q := tv(x, st, a[0]), tv(x, st, a[1])
		if g, ok := p.concrete(); ok {
			if h, ok := q.concrete(); ok {
				return int64(g.Sub(h))
			}
		}
		t := toTerm(subDur(p, q))
		lo, hi := st.interval(t, map[*Term][2]*big.Rat{})
		mx := rat(math.MaxInt64)
		if lo == nil || hi == nil || new(big.Rat).Abs(lo).Cmp(mx) > 0 || hi.Cmp(mx) > 0 {
			// saturates
			t = Ite(Gt(t, IntC(math.MaxInt64)), IntC(math.MaxInt64), Ite(Lt(t, IntC(math.MinInt64)), IntC(math.MinInt64), t))
		}
		return fromTermInt(t)
	})
	reg1(T+"AddDate", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		y, ok1 := a[1].(int64)
		m, ok2 := a[2].(int64)
		if ok1 && ok2 && y == 0 && m == 0 {
			return TimeV{sec: fromTermInt(Add(toTerm(t.sec), ScaleI(86400, toTerm(a[3])))), nsec: t.nsec, loc: t.loc}
		}
		days, sod := t.dayAndSec()
		c := civilT(st, days)
		nd := daysFromCivil(Add(c.y, toTerm(a[1])), Add(c.m, toTerm(a[2])), Add(c.d, toTerm(a[3])))
		return TimeV{sec: fromTermInt(AddI(Add(ScaleI(86400, nd), sod), -locOffset(t.loc))), nsec: t.nsec, loc: t.loc}
	})
	cmp := func(name string, f func(lt, eq *Term) *Term) {
		reg1(T+name, func(x *Exec, st *State, a []Value) Value {
			lt, eq := ordT(tv(x, st, a[0]), tv(x, st, a[1]))
			return fromTermBool(f(lt, eq))
		})
	}
	cmp("Before", func(lt, eq *Term) *Term { return lt })
	cmp("Equal", func(lt, eq *Term) *Term { return eq })
	cmp("After", func(lt, eq *Term) *Term { return And(Not(lt), Not(eq)) })
	reg1(T+"Compare", func(x *Exec, st *State, a []Value) Value {
		lt, eq := ordT(tv(x, st, a[0]), tv(x, st, a[1]))
		return fromTermInt(Ite(lt, IntC(-1), Ite(eq, IntC(0), IntC(1))))
	})
	reg1(T+"IsZero", func(x *Exec, st *State, a []Value) Value {
		_, eq := ordT(tv(x, st, a[0]), zeroTime())
		return fromTermBool(eq)
	})
	reg1(T+"UTC", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		t.loc = ""
		return t
	})
	reg1(T+"Local", func(x *Exec, st *State, a []Value) Value { panic(unsupported("Time.Local")) })
	reg1(T+"In", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		l, ok := a[1].(LocV)
		if !ok {
			panic(unsupported("Time.In"))
		}
		t.loc = l.name
		return t
	})
	reg1(T+"Location", func(x *Exec, st *State, a []Value) Value { return LocV{tv(x, st, a[0]).loc} })
	reg1("(*time.Location).String", func(x *Exec, st *State, a []Value) Value {
		l, ok := a[0].(LocV)
		if !ok {
			return "UTC"
		}
		return locName(l.name)
	})
	reg1("time.FixedZone", func(x *Exec, st *State, a []Value) Value {
		off := x.concretize(st, a[1])
		if off == 0 {
			panic(unsupported("zero FixedZone"))
		}
		return LocV{fmt.Sprintf("off:%d:%s", off, x.concStr(st, a[0]))}
	})
	reg1(T+"Format", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		layout := x.concStr(st, a[1])
		if g, ok := t.concrete(); ok {
			return g.Format(layout)
		}
		days, sod := t.dayAndSec()
		c := civilT(st, days)
		var segs []Seg
		for layout != "" {
			switch {
			case strings.HasPrefix(layout, "2006"):
				segs = append(segs, Seg{term: c.y, verb: "%04d"})
				layout = layout[4:]
			case strings.HasPrefix(layout, "01"):
				segs = append(segs, Seg{term: c.m, verb: "%02d"})
				layout = layout[2:]
			case strings.HasPrefix(layout, "02"):
				segs = append(segs, Seg{term: c.d, verb: "%02d"})
				layout = layout[2:]
			case strings.HasPrefix(layout, "15"):
				segs = append(segs, Seg{term: divI(sod, 3600), verb: "%02d"})
				layout = layout[2:]
			case strings.HasPrefix(layout, "04"):
				segs = append(segs, Seg{term: modI(divI(sod, 60), 60), verb: "%02d"})
				layout = layout[2:]
			case strings.HasPrefix(layout, "05"):
				segs = append(segs, Seg{term: modI(sod, 60), verb: "%02d"})
				layout = layout[2:]
			case strings.IndexByte("-/: T", layout[0]) >= 0:
				segs = append(segs, Seg{lit: layout[:1]})
				layout = layout[1:]
			default:
				panic(unsupported("formatting a symbolic time with %q", layout))
			}
		}
		for i := range segs { // constants render now
			if segs[i].term != nil && segs[i].term.isConst() {
				segs[i] = Seg{lit: fmt.Sprintf(segs[i].verb, segs[i].term.c0.Num())}
			}
		}
		return segsStr(segs)
	})
	reg1(T+"String", func(x *Exec, st *State, a []Value) Value {
		if g, ok := tv(x, st, a[0]).concrete(); ok {
			return g.String()
		}
		panic(unsupported("String of a symbolic time"))
	})
	reg1(T+"Truncate", func(x *Exec, st *State, a []Value) Value {
		t := tv(x, st, a[0])
		d := x.concretize(st, a[1])
		if g, ok := t.concrete(); ok {
			r := fromGoTime(g.Truncate(time.Duration(d)))
			r.loc = t.loc
			return r
		}
		const S = 1_000_000_000
		if d > 0 && d%S == 0 && 86400*7%(d/S) == 0 || d == 24*3600*S {
			// truncation is since the zero time, 719162 days before the epoch
			k := d / S
			s := AddI(toTerm(t.sec), 62135596800)
			return TimeV{sec: fromTermInt(AddI(ScaleI(k, divI(s, k)), -62135596800)), nsec: int64(0), loc: t.loc}
		}
		panic(unsupported("Truncate"))
	})
	reg1("time.Date", func(x *Exec, st *State, a []Value) Value {
		l, ok := a[7].(LocV)
		if !ok {
			panic(unsupported("time.Date location"))
		}
		all := true
		var n [7]int64
		for i := 0; i < 7; i++ {
			v, ok := a[i].(int64)
			all = all && ok
			n[i] = v
		}
		if all {
			r := fromGoTime(time.Date(int(n[0]), time.Month(n[1]), int(n[2]), int(n[3]), int(n[4]), int(n[5]), int(n[6]), goLoc(l.name)))
			r.loc = l.name
			return r
		}
		days := daysFromCivil(toTerm(a[0]), toTerm(a[1]), toTerm(a[2]))
		s := Add(ScaleI(86400, days), Add(ScaleI(3600, toTerm(a[3])), Add(ScaleI(60, toTerm(a[4])), toTerm(a[5]))))
		t := TimeV{sec: fromTermInt(AddI(s, -locOffset(l.name))), nsec: int64(0), loc: l.name}
		if ns, ok := a[6].(int64); ok && ns == 0 {
			return t
		}
		return addDur(st, t, a[6])
	})
	reg1("time.Unix", func(x *Exec, st *State, a []Value) Value {
		t := TimeV{sec: a[0], nsec: int64(0)}
		if ns, ok := a[1].(int64); ok && ns == 0 {
			return t
		}
		return addDur(st, t, a[1])
	})
	reg1("time.Now", func(x *Exec, st *State, a []Value) Value {
		x.choiceN++
		return TimeV{sec: NewIntVar(fmt.Sprintf("now!%d", x.choiceN), rat(0), rat(1<<33)), nsec: int64(0)}
	})
	reg1("time.Since", func(x *Exec, st *State, a []Value) Value { panic(unsupported("time.Since")) })
	reg1("time.Parse", func(x *Exec, st *State, a []Value) Value {
		layout := x.concStr(st, a[0])
		if ss, ok := a[1].(*SymStr); ok && ss.id == nil {
			if t, ok := parseSym(layout, ss); ok {
				return TupleV{t, IfaceV{}}
			}
			panic(unsupported("time.Parse of symbolic text"))
		}
		t, err := time.Parse(layout, x.concStr(st, a[1]))
		if err != nil {
			return TupleV{zeroTime(), x.mkErr(err.Error())}
		}
		return TupleV{fromGoTime(t), IfaceV{}}
	})
	D := "(time.Duration)."
	df := func(name string, k int64) {
		reg1(D+name, func(x *Exec, st *State, a []Value) Value {
			if n, ok := a[0].(int64); ok {
				switch name {
				case "Hours":
					return time.Duration(n).Hours()
				case "Minutes":
					return time.Duration(n).Minutes()
				}
				return time.Duration(n).Seconds()
			}
			// whole + fraction, as the library computes it; exact when divisible
			q, r := x.truncDiv(st, toTerm(a[0]), k)
			return fromTermFloat(fadd(q, fdiv(r, IntC(k))))
		})
	}
	df("Hours", 3600*1_000_000_000)
	df("Minutes", 60*1_000_000_000)
	df("Seconds", 1_000_000_000)
	reg1(D+"Milliseconds", func(x *Exec, st *State, a []Value) Value {
		if n, ok := a[0].(int64); ok {
			return time.Duration(n).Milliseconds()
		}
		q, _ := x.truncDiv(st, toTerm(a[0]), 1_000_000)
		return fromTermInt(q)
	})
	reg1(D+"Abs", func(x *Exec, st *State, a []Value) Value {
		if n, ok := a[0].(int64); ok {
			return int64(time.Duration(n).Abs())
		}
		return fromTermInt(AbsT(toTerm(a[0])))
	})
	reg1(D+"Truncate", func(x *Exec, st *State, a []Value) Value {
		m := x.concretize(st, a[1])
		if n, ok := a[0].(int64); ok {
			return int64(time.Duration(n).Truncate(time.Duration(m)))
		}
		if m <= 0 {
			return a[0]
		}
		q, _ := x.truncDiv(st, toTerm(a[0]), m)
		return fromTermInt(ScaleI(m, q))
	})
	reg1(D+"Nanoseconds", func(x *Exec, st *State, a []Value) Value { return a[0] })
	reg1(D+"String", func(x *Exec, st *State, a []Value) Value {
		return time.Duration(x.concretize(st, a[0])).String()
	})
	reg1("(time.Month).String", func(x *Exec, st *State, a []Value) Value {
		return time.Month(x.concretize(st, a[0])).String()
	})
	reg1("(time.Weekday).String", func(x *Exec, st *State, a []Value) Value {
		return time.Weekday(x.concretize(st, a[0])).String()
	})
}

// parseSym: parsing back text made of a formatted date ("2006-01-02" shape).
func parseSym(layout string, s *SymStr) (TimeV, bool) {
	if layout != "2006-01-02" {
		return TimeV{}, false
	}
	// flatten: expect Y - M - D in any mix of literal/terms
	var parts []*Term
	cur := ""
	flush := func() bool {
		if cur == "" {
			return true
		}
		for _, f := range strings.Split(cur, "-") {
			if f == "" {
				continue
			}
			n, err := strconv.ParseInt(f, 10, 64)
			if err != nil {
				return false
			}
			parts = append(parts, IntC(n))
		}
		cur = ""
		return true
	}
	for _, g := range s.segs {
		if g.term == nil {
			cur += g.lit
			continue
		}
		if !flush() || (g.verb != "%02d" && g.verb != "%04d") {
			return TimeV{}, false
		}
		parts = append(parts, g.term)
	}
	if !flush() || len(parts) != 3 {
		return TimeV{}, false
	}
	d := daysFromCivil(parts[0], parts[1], parts[2])
	return TimeV{sec: fromTermInt(ScaleI(86400, d)), nsec: int64(0)}, true
}

var _ = sort.Strings
