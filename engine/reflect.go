package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// RVal is a reflect.Value; RType a *reflect.rtype. They let the engine execute
// the real CBOR library symbolically.
type RVal struct {
	t    types.Type
	v    Val
	addr *Ptr
	ro   bool
}

type RType struct{ t types.Type }

func (p RVal) same(q RVal) bool {
	if (p.t == nil) != (q.t == nil) || p.ro != q.ro || (p.addr == nil) != (q.addr == nil) {
		return false
	}
	return p.t == nil || types.Identical(p.t, q.t)
}

func (x *Exec) rtypeOf(t types.Type) Val {
	if t == nil {
		return Iface{}
	}
	return Iface{t: types.NewPointer(x.prog.typ("reflect", "rtype")), v: RType{t}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	}
	unsup("kind of %s", t)
	return 0
}

func (x *Exec) rget(st *State, r RVal) Val {
	if r.addr != nil {
		return x.load(st, *r.addr)
	}
	return r.v
}

func (x *Exec) rpanic(msg string) { panic(goPanic{x.rtErr("reflect: " + msg)}) }

func (x *Exec) i64(n int) Val { return x.b.C(64, uint64(n)) }

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) (name, pkg string) {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		if p := n.Obj().Pkg(); p != nil {
			pkg = p.Path()
		}
		return n.Obj().Name(), pkg
	case *types.Basic:
		return n.Name(), ""
	}
	return "", ""
}

func (x *Exec) structField(st *State, s *types.Struct, i int) Val {
	f := s.Field(i)
	pk := ""
	if !f.Exported() && f.Pkg() != nil {
		pk = f.Pkg().Path()
	}
	idx := x.newSlice(st, []Val{x.i64(i)})
	return &Agg{[]Val{Str{s: f.Name()}, Str{s: pk}, x.rtypeOf(f.Type()), Str{s: s.Tag(i)}, x.i64(0), idx, x.b.BoolC(f.Embedded())}}
}

func (x *Exec) argInt(st *State, v Val) int { return x.intVal(st, v.(*Term)) }

func (x *Exec) rtypeMethod(st *State, name string, args []Val) Val {
	t := args[0].(RType).t
	switch name {
	case "Kind":
		return x.b.C(64, uint64(kindOf(t)))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return x.rtypeOf(u.Elem())
		case *types.Slice:
			return x.rtypeOf(u.Elem())
		case *types.Array:
			return x.rtypeOf(u.Elem())
		case *types.Map:
			return x.rtypeOf(u.Elem())
		}
		x.rpanic("Elem of invalid type")
	case "Key":
		return x.rtypeOf(t.Underlying().(*types.Map).Key())
	case "Len":
		return x.i64(int(t.Underlying().(*types.Array).Len()))
	case "Name":
		n, _ := typeName(t)
		return Str{s: n}
	case "PkgPath":
		_, p := typeName(t)
		return Str{s: p}
	case "String":
		return Str{s: typeStr(t)}
	case "NumField":
		return x.i64(t.Underlying().(*types.Struct).NumFields())
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return x.i64(it.NumMethods())
		}
		ms := types.NewMethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return x.i64(n)
	case "Field":
		return x.structField(st, t.Underlying().(*types.Struct), x.argInt(st, args[1]))
	case "FieldByName":
		s := t.Underlying().(*types.Struct)
		want := args[1].(Str).s
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == want {
				return &Agg{[]Val{x.structField(st, s, i), x.b.True}}
			}
		}
		return &Agg{[]Val{x.zero(x.prog.typ("reflect", "StructField")), x.b.False}}
	case "Implements":
		u := args[1].(Iface).v.(RType).t
		return x.b.BoolC(types.Implements(t, u.Underlying().(*types.Interface)))
	case "AssignableTo":
		u := args[1].(Iface).v.(RType).t
		return x.b.BoolC(types.AssignableTo(t, u))
	case "ConvertibleTo":
		u := args[1].(Iface).v.(RType).t
		return x.b.BoolC(types.ConvertibleTo(t, u))
	case "Comparable":
		return x.b.BoolC(types.Comparable(t))
	case "Bits":
		w, _, ok := width(t)
		if ok {
			return x.i64(w)
		}
	}
	unsup("reflect.Type.%s", name)
	return nil
}

func overflowU(x *Exec, t types.Type, v *Term) *Term {
	w, _, _ := width(t)
	if w >= 64 {
		return x.b.False
	}
	return x.b.Not(x.b.Eq(x.b.Extract(63, w, v), x.b.C(64-w, 0)))
}

func overflowS(x *Exec, t types.Type, v *Term) *Term {
	w, _, _ := width(t)
	if w >= 64 {
		return x.b.False
	}
	return x.b.Not(x.b.Eq(x.b.Sext(64, x.b.Extract(w-1, 0, v)), v))
}

func (x *Exec) rset(st *State, r RVal, v Val) {
	if r.addr == nil || r.ro {
		x.rpanic("set of unaddressable or unexported value")
	}
	x.store(st, *r.addr, v)
}

// assign converts v of type from for storage in a location of type to.
func (x *Exec) assign(v Val, from, to types.Type) Val {
	if types.IsInterface(to) {
		if types.IsInterface(from) {
			return v
		}
		return Iface{t: from, v: v}
	}
	return v
}

func init() {
	def := func(name string, f func(x *Exec, st *State, args []Val) Val) {
		intrinsics[name] = func(x *Exec, st *State, args []Val, fn *ssa.Function) (Val, bool) { return f(x, st, args), false }
	}
	def("reflect.TypeOf", func(x *Exec, st *State, a []Val) Val {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return x.rtypeOf(i.t)
	})
	def("reflect.ValueOf", func(x *Exec, st *State, a []Val) Val {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	})
	ptrTo := func(x *Exec, st *State, a []Val) Val {
		return x.rtypeOf(types.NewPointer(a[0].(Iface).v.(RType).t))
	}
	def("reflect.PtrTo", ptrTo)
	def("reflect.PointerTo", ptrTo)
	def("reflect.New", func(x *Exec, st *State, a []Val) Val {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: types.NewPointer(t), v: Ptr{obj: x.alloc(st, x.zero(t))}}
	})
	def("reflect.Zero", func(x *Exec, st *State, a []Val) Val {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: x.zero(t)}
	})
	def("reflect.MakeSlice", func(x *Exec, st *State, a []Val) Val {
		t := a[0].(Iface).v.(RType).t
		n, c := x.argInt(st, a[1]), x.argInt(st, a[2])
		if c > 1<<20 {
			unsup("reflect.MakeSlice of %d", c)
		}
		id := x.alloc(st, fillArr(c, x.zero(t.Underlying().(*types.Slice).Elem())))
		return RVal{t: t, v: Slice{obj: id, len: n, cap: c}}
	})
	def("reflect.MakeMapWithSize", func(x *Exec, st *State, a []Val) Val {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: MapRef{x.alloc(st, &MapVal{})}}
	})
	def("reflect.MakeMap", func(x *Exec, st *State, a []Val) Val {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: MapRef{x.alloc(st, &MapVal{})}}
	})
	m := func(name string, f func(x *Exec, st *State, r RVal, a []Val) Val) {
		def("(reflect.Value)."+name, func(x *Exec, st *State, a []Val) Val {
			r, ok := a[0].(RVal)
			if !ok {
				unsup("reflect.Value receiver %T", a[0])
			}
			if r.t == nil && name != "IsValid" && name != "Kind" {
				x.rpanic("call of " + name + " on zero Value")
			}
			return f(x, st, r, a[1:])
		})
	}
	m("IsValid", func(x *Exec, st *State, r RVal, a []Val) Val { return x.b.BoolC(r.t != nil) })
	m("Kind", func(x *Exec, st *State, r RVal, a []Val) Val {
		if r.t == nil {
			return x.b.C(64, 0)
		}
		return x.b.C(64, uint64(kindOf(r.t)))
	})
	m("Type", func(x *Exec, st *State, r RVal, a []Val) Val { return x.rtypeOf(r.t) })
	m("CanSet", func(x *Exec, st *State, r RVal, a []Val) Val { return x.b.BoolC(r.addr != nil && !r.ro) })
	m("CanAddr", func(x *Exec, st *State, r RVal, a []Val) Val { return x.b.BoolC(r.addr != nil) })
	m("CanInterface", func(x *Exec, st *State, r RVal, a []Val) Val { return x.b.BoolC(!r.ro) })
	m("Addr", func(x *Exec, st *State, r RVal, a []Val) Val {
		if r.addr == nil {
			x.rpanic("Addr of unaddressable value")
		}
		return RVal{t: types.NewPointer(r.t), v: *r.addr, ro: r.ro}
	})
	m("Interface", func(x *Exec, st *State, r RVal, a []Val) Val {
		if r.ro {
			x.rpanic("Interface of unexported field")
		}
		v := x.rget(st, r)
		if types.IsInterface(r.t) {
			return v
		}
		return Iface{t: r.t, v: v}
	})
	m("Elem", func(x *Exec, st *State, r RVal, a []Val) Val {
		v := x.rget(st, r)
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p := v.(Ptr)
			if p.isNil() {
				return RVal{}
			}
			return RVal{t: u.Elem(), addr: &p, ro: r.ro}
		case *types.Interface:
			i := v.(Iface)
			if i.t == nil {
				return RVal{}
			}
			return RVal{t: i.t, v: i.v, ro: r.ro}
		}
		x.rpanic("Elem of " + typeStr(r.t))
		return nil
	})
	m("IsNil", func(x *Exec, st *State, r RVal, a []Val) Val {
		switch v := x.rget(st, r).(type) {
		case Ptr:
			return x.b.BoolC(v.isNil())
		case Slice:
			return x.b.BoolC(v.obj == 0)
		case MapRef:
			return x.b.BoolC(v.obj == 0)
		case Iface:
			return x.b.BoolC(v.t == nil)
		case *Closure:
			return x.b.BoolC(v == nil)
		}
		x.rpanic("IsNil of " + typeStr(r.t))
		return nil
	})
	m("IsZero", func(x *Exec, st *State, r RVal, a []Val) Val {
		return x.eq(st, x.rget(st, r), x.zero(r.t))
	})
	m("Len", func(x *Exec, st *State, r RVal, a []Val) Val {
		switch v := x.rget(st, r).(type) {
		case Slice:
			return x.i64(v.len)
		case *Arr:
			return x.i64(v.n)
		case Str:
			return x.i64(v.Len())
		case MapRef:
			if v.obj == 0 {
				return x.i64(0)
			}
			return x.i64(len(x.obj(st, v.obj).(*MapVal).keys))
		}
		x.rpanic("Len of " + typeStr(r.t))
		return nil
	})
	m("Cap", func(x *Exec, st *State, r RVal, a []Val) Val {
		if v, ok := x.rget(st, r).(Slice); ok {
			return x.i64(v.cap)
		}
		unsup("reflect Cap")
		return nil
	})
	m("SetLen", func(x *Exec, st *State, r RVal, a []Val) Val {
		s := x.rget(st, r).(Slice)
		n := x.argInt(st, a[0])
		if n < 0 || n > s.cap {
			x.rpanic("slice length out of range in SetLen")
		}
		s.len = n
		x.rset(st, r, s)
		return nil
	})
	m("Index", func(x *Exec, st *State, r RVal, a []Val) Val {
		i := x.argInt(st, a[0])
		switch v := x.rget(st, r).(type) {
		case Slice:
			if i < 0 || i >= v.len {
				x.rpanic("slice index out of range")
			}
			p := Ptr{obj: v.obj, path: v.path}.sub(v.off + i)
			return RVal{t: r.t.Underlying().(*types.Slice).Elem(), addr: &p, ro: r.ro}
		case *Arr:
			if i < 0 || i >= v.n {
				x.rpanic("array index out of range")
			}
			et := r.t.Underlying().(*types.Array).Elem()
			if r.addr != nil {
				p := r.addr.sub(i)
				return RVal{t: et, addr: &p, ro: r.ro}
			}
			return RVal{t: et, v: v.get(i), ro: r.ro}
		case Str:
			return RVal{t: types.Typ[types.Uint8], v: x.strBytes(v)[i]}
		}
		unsup("reflect Index of %s", r.t)
		return nil
	})
	m("NumField", func(x *Exec, st *State, r RVal, a []Val) Val {
		return x.i64(r.t.Underlying().(*types.Struct).NumFields())
	})
	m("Field", func(x *Exec, st *State, r RVal, a []Val) Val {
		i := x.argInt(st, a[0])
		s := r.t.Underlying().(*types.Struct)
		ro := r.ro || !s.Field(i).Exported()
		if r.addr != nil {
			p := r.addr.sub(i)
			return RVal{t: s.Field(i).Type(), addr: &p, ro: ro}
		}
		return RVal{t: s.Field(i).Type(), v: child(r.v, i), ro: ro}
	})
	m("Uint", func(x *Exec, st *State, r RVal, a []Val) Val { return x.b.Zext(64, x.rget(st, r).(*Term)) })
	m("Int", func(x *Exec, st *State, r RVal, a []Val) Val { return x.b.Sext(64, x.rget(st, r).(*Term)) })
	m("Bool", func(x *Exec, st *State, r RVal, a []Val) Val { return x.rget(st, r) })
	m("Float", func(x *Exec, st *State, r RVal, a []Val) Val { return x.rget(st, r) })
	m("String", func(x *Exec, st *State, r RVal, a []Val) Val {
		if s, ok := x.rget(st, r).(Str); ok {
			return s
		}
		return Str{s: "<" + typeStr(r.t) + " Value>"}
	})
	m("Bytes", func(x *Exec, st *State, r RVal, a []Val) Val {
		v := x.rget(st, r)
		if s, ok := v.(Slice); ok {
			return s
		}
		if ar, ok := v.(*Arr); ok && r.addr != nil {
			return Slice{obj: r.addr.obj, path: r.addr.path, len: ar.n, cap: ar.n}
		}
		unsup("reflect Bytes")
		return nil
	})
	m("OverflowUint", func(x *Exec, st *State, r RVal, a []Val) Val { return overflowU(x, r.t, a[0].(*Term)) })
	m("OverflowInt", func(x *Exec, st *State, r RVal, a []Val) Val { return overflowS(x, r.t, a[0].(*Term)) })
	m("OverflowFloat", func(x *Exec, st *State, r RVal, a []Val) Val {
		f := float64(a[0].(Flt))
		if kindOf(r.t) == reflect.Float64 {
			return x.b.False
		}
		return x.b.BoolC(f > 3.4028234663852886e38 || f < -3.4028234663852886e38)
	})
	m("SetUint", func(x *Exec, st *State, r RVal, a []Val) Val {
		w, _, _ := width(r.t)
		x.rset(st, r, x.b.Zext(w, a[0].(*Term)))
		return nil
	})
	m("SetInt", func(x *Exec, st *State, r RVal, a []Val) Val {
		w, _, _ := width(r.t)
		x.rset(st, r, x.b.Zext(w, a[0].(*Term)))
		return nil
	})
	m("SetBool", func(x *Exec, st *State, r RVal, a []Val) Val { x.rset(st, r, a[0]); return nil })
	m("SetFloat", func(x *Exec, st *State, r RVal, a []Val) Val { x.rset(st, r, a[0]); return nil })
	m("SetString", func(x *Exec, st *State, r RVal, a []Val) Val { x.rset(st, r, a[0]); return nil })
	m("SetBytes", func(x *Exec, st *State, r RVal, a []Val) Val { x.rset(st, r, a[0]); return nil })
	m("Set", func(x *Exec, st *State, r RVal, a []Val) Val {
		s := a[0].(RVal)
		if s.t == nil || !types.AssignableTo(s.t, r.t) {
			x.rpanic("Set: value not assignable")
		}
		x.rset(st, r, x.assign(x.rget(st, s), s.t, r.t))
		return nil
	})
	m("MapIndex", func(x *Exec, st *State, r RVal, a []Val) Val {
		mt := r.t.Underlying().(*types.Map)
		mr := x.rget(st, r).(MapRef)
		if mr.obj == 0 {
			return RVal{}
		}
		k := a[0].(RVal)
		mv := x.obj(st, mr.obj).(*MapVal)
		j := x.mapFind(st, mv, x.assign(x.rget(st, k), k.t, mt.Key()))
		if j < 0 {
			return RVal{}
		}
		return RVal{t: mt.Elem(), v: mv.vals[j]}
	})
	m("SetMapIndex", func(x *Exec, st *State, r RVal, a []Val) Val {
		mt := r.t.Underlying().(*types.Map)
		mr := x.rget(st, r).(MapRef)
		k, e := a[0].(RVal), a[1].(RVal)
		kv := x.assign(x.rget(st, k), k.t, mt.Key())
		if e.t == nil {
			x.mapDelete(st, mr, kv)
			return nil
		}
		x.mapSet(st, mr, kv, x.assign(x.rget(st, e), e.t, mt.Elem()))
		return nil
	})
	// map iteration: the iterator is an object holding [RVal, pos]
	def("(reflect.Value).MapRange", func(x *Exec, st *State, a []Val) Val {
		n := 0
		if mr := x.rget(st, a[0].(RVal)).(MapRef); mr.obj != 0 {
			n = len(x.obj(st, mr.obj).(*MapVal).keys)
		}
		ord := &Agg{}
		for _, j := range x.mapOrder(st, n) {
			ord.e = append(ord.e, x.i64(j))
		}
		return Ptr{obj: x.alloc(st, &Agg{[]Val{a[0], x.i64(0), ord}})}
	})
	def("(*reflect.MapIter).Next", func(x *Exec, st *State, a []Val) Val {
		p := a[0].(Ptr)
		it := x.obj(st, p.obj).(*Agg)
		mr := x.rget(st, it.e[0].(RVal)).(MapRef)
		n := 0
		if mr.obj != 0 {
			n = len(x.obj(st, mr.obj).(*MapVal).keys)
		}
		pos := int(it.e[1].(*Term).C)
		st.heap.set(p.obj, &Agg{[]Val{it.e[0], x.i64(pos + 1), it.e[2]}})
		return x.b.BoolC(pos < n)
	})
	iterAt := func(key bool) func(x *Exec, st *State, a []Val) Val {
		return func(x *Exec, st *State, a []Val) Val {
			it := x.obj(st, a[0].(Ptr).obj).(*Agg)
			r := it.e[0].(RVal)
			mt := r.t.Underlying().(*types.Map)
			mv := x.obj(st, x.rget(st, r).(MapRef).obj).(*MapVal)
			pos := int(it.e[1].(*Term).C) - 1
			if o := it.e[2].(*Agg).e; pos < len(o) {
				pos = int(o[pos].(*Term).C)
			}
			if key {
				return RVal{t: mt.Key(), v: mv.keys[pos]}
			}
			return RVal{t: mt.Elem(), v: mv.vals[pos]}
		}
	}
	def("(*reflect.MapIter).Key", iterAt(true))
	def("(*reflect.MapIter).Value", iterAt(false))
	m("MapKeys", func(x *Exec, st *State, r RVal, a []Val) Val {
		mt := r.t.Underlying().(*types.Map)
		mr := x.rget(st, r).(MapRef)
		var vs []Val
		if mr.obj != 0 {
			ks := x.obj(st, mr.obj).(*MapVal).keys
			ord := x.mapOrder(st, len(ks))
			for i := range ks {
				j := i
				if ord != nil {
					j = ord[i]
				}
				vs = append(vs, RVal{t: mt.Key(), v: ks[j]})
			}
		}
		return x.newSlice(st, vs)
	})
	def("reflect.Swapper", func(x *Exec, st *State, a []Val) Val {
		s := a[0].(Iface).v.(Slice)
		return &Closure{name: "swapper", nat: func(x *Exec, st *State, b []Val) Val {
			i, j := x.argInt(st, b[0]), x.argInt(st, b[1])
			vs := x.sliceVals(st, s)
			if i < 0 || j < 0 || i >= len(vs) || j >= len(vs) {
				panic(goPanic{x.rtErr("reflect: slice index out of range")})
			}
			x.setSlice(st, s, i, []Val{vs[j]})
			x.setSlice(st, s, j, []Val{vs[i]})
			return nil
		}}
	})
}
