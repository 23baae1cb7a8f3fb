package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Files on disk and JSON texts. A file is a name and a text, kept in the
// state. The text of a marshalled value stands for the value: reading it back
// gives what encoding/json would decode.

const (
	diskObj  = -8
	jsonMark = "\x00json:"
)

type fileV struct {
	name string
	flag int64
	at   int64 // writes so far
}

func (x *Exec) disk(st *State) map[string]Value {
	if o, ok := st.load(diskObj); ok {
		return o.(*fsObj).files
	}
	return nil
}

func (x *Exec) putFile(st *State, name string, text Value) {
	fs := map[string]Value{}
	for k, v := range x.disk(st) {
		fs[k] = v
	}
	fs[name] = text
	st.store(diskObj, &fsObj{fs})
}

func (x *Exec) openFile(st *State, name string, flag int64) Value {
	const wronly, rdwr, creat, excl, trunc = 0x1, 0x2, 0x40, 0x80, 0x200
	_, have := x.disk(st)[name]
	switch {
	case have && flag&creat != 0 && flag&excl != 0:
		return TupleV{Ptr{}, x.mkErr("file exists")}
	case !have && flag&creat == 0:
		return TupleV{Ptr{}, x.mkErr("no such file or directory")}
	case !have || flag&trunc != 0 && flag&(wronly|rdwr) != 0:
		x.putFile(st, name, "")
	}
	return TupleV{Ptr{obj: st.alloc(fileV{name, flag, 0})}, IfaceV{}}
}

// writeFile: the first write covers what is there, as far as it reaches; a
// text left behind it is kept.
func (x *Exec) writeFile(st *State, p Ptr, text Value) Value {
	const wronly, rdwr, app = 0x1, 0x2, 0x400
	if p.obj == -2 || p.obj == 0 {
		return TupleV{int64(0), IfaceV{}}
	}
	o, _ := st.load(p.obj)
	f, ok := o.(fileV)
	if !ok {
		panic(unsupported("writing to %T", o))
	}
	if f.flag&(wronly|rdwr) == 0 {
		return TupleV{int64(0), x.mkErr("bad file descriptor")}
	}
	cur := x.disk(st)[f.name]
	if f.at == 0 && f.flag&app == 0 && cur != "" {
		a, ok1 := text.(string)
		b, ok2 := cur.(string)
		if !ok1 || !ok2 {
			panic(unsupported("writing over a symbolic file"))
		}
		if len(b) > len(a) {
			cur = a + b[len(a):]
		} else {
			cur = a
		}
	} else {
		if f.at > 0 && f.flag&app == 0 && f.flag&0x200 == 0 {
			panic(unsupported("writing in the middle of a file"))
		}
		cur = segsStr(append(append([]Seg(nil), strSegs(cur)...), strSegs(text)...))
	}
	x.putFile(st, f.name, cur)
	st.store(p.obj, fileV{f.name, f.flag, f.at + 1})
	return TupleV{int64(0), IfaceV{}}
}

// bytesOf turns a text into a slice of bytes.
func (x *Exec) bytesOf(st *State, v Value) Value {
	s, ok := v.(string)
	if !ok {
		ss := v.(*SymStr)
		if ss.id != nil {
			s = x.concStr(st, ss)
		} else {
			return x.newSlice(st, []Value{ss})
		}
	}
	if d, ok := x.jsonDoc(st, s); ok {
		return x.newSlice(st, []Value{d})
	}
	var es []Value
	for i := 0; i < len(s); i++ {
		es = append(es, int64(s[i]))
	}
	return x.newSlice(st, es)
}

func (x *Exec) jsonDoc(st *State, s string) (DocV, bool) {
	t := strings.TrimSpace(s)
	var o int
	if !strings.HasPrefix(t, jsonMark) {
		return DocV{}, false
	}
	if _, err := fmt.Sscanf(t[len(jsonMark):], "%d.", &o); err != nil || t != fmt.Sprintf("%s%d.", jsonMark, o) {
		return DocV{}, false
	}
	v, _ := st.load(o)
	d, ok := v.(DocV)
	return d, ok
}

func (x *Exec) jsonText(st *State, v Value) string {
	iv := v.(IfaceV)
	if iv.t == nil {
		return "null"
	}
	return fmt.Sprintf("%s%d.", jsonMark, st.alloc(DocV{iv.t, x.deepCopy(st, iv.v)}))
}

// textOfBytes is the text in a slice of bytes.
func (x *Exec) textOfBytes(st *State, v Value) Value {
	return x.convert(st, v, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])
}

func init() {
	open := func(flag int64) func(x *Exec, st *State, a []Value) Value {
		return func(x *Exec, st *State, a []Value) Value { return x.openFile(st, x.textOf(st, a[0]), flag) }
	}
	reg1("os.OpenFile", func(x *Exec, st *State, a []Value) Value {
		return x.openFile(st, x.textOf(st, a[0]), x.concretize(st, a[1]))
	})
	reg1("os.Create", open(0x242))
	reg1("os.Open", open(0))
	read := func(x *Exec, st *State, a []Value) Value {
		t, ok := x.disk(st)[x.textOf(st, a[0])]
		if !ok {
			return TupleV{SliceV{}, x.mkErr("no such file or directory")}
		}
		return TupleV{x.bytesOf(st, t), IfaceV{}}
	}
	write := func(x *Exec, st *State, a []Value) Value {
		x.putFile(st, x.textOf(st, a[0]), x.textOfBytes(st, a[1]))
		return IfaceV{}
	}
	for _, p := range []string{"os.", "io/ioutil."} {
		reg1(p+"ReadFile", read)
		reg1(p+"WriteFile", write)
	}
	reg1("(*os.File).WriteString", func(x *Exec, st *State, a []Value) Value { return x.writeFile(st, a[0].(Ptr), a[1]) })
	reg1("(*os.File).Write", func(x *Exec, st *State, a []Value) Value {
		return x.writeFile(st, a[0].(Ptr), x.textOfBytes(st, a[1]))
	})
	for _, n := range []string{"Close", "Sync"} {
		reg1("(*os.File)."+n, func(x *Exec, st *State, a []Value) Value { return IfaceV{} })
	}
	reg1("io.WriteString", func(x *Exec, st *State, a []Value) Value {
		x.writeTo(st, a[0], a[1])
		return TupleV{int64(0), IfaceV{}}
	})
	marshal := func(x *Exec, st *State, a []Value) Value {
		return TupleV{x.bytesOf(st, x.jsonText(st, a[0])), IfaceV{}}
	}
	reg1("encoding/json.Marshal", marshal)
	reg1("encoding/json.MarshalIndent", marshal)
	reg1("encoding/json.NewEncoder", func(x *Exec, st *State, a []Value) Value {
		return Ptr{obj: st.alloc(StructV{f: []Value{a[0]}})}
	})
	reg1("(*encoding/json.Encoder).Encode", func(x *Exec, st *State, a []Value) Value {
		o, _ := st.load(a[0].(Ptr).obj)
		x.writeTo(st, o.(StructV).f[0], x.jsonText(st, a[1])+"\n")
		return IfaceV{}
	})
	reg1("(*encoding/json.Encoder).SetIndent", func(x *Exec, st *State, a []Value) Value { return nil })
}
