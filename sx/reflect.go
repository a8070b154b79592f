package sx

import (
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RV is a reflect.Value.
type RV struct {
	ti   *TypeInfo
	v    Value
	cell *Value // addressable storage
	ro   bool
}

func (r *RV) get() Value {
	if r.cell != nil {
		return *r.cell
	}
	return r.v
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (m *Machine) rtypeIface(ti *TypeInfo) Value {
	rt := m.P.pkgs["reflect"].Type("rtype").Type()
	return Value{p: &Iface{m.P.types.get(types.NewPointer(rt)), Value{p: ti.rt}}}
}

func (m *Machine) typeOfArg(v Value) *TypeInfo {
	i, ok := v.p.(*Iface)
	if !ok {
		m.runtimePanic("invalid memory address or nil pointer dereference (nil reflect.Type)")
	}
	r, ok := i.v.p.(*RType)
	if !ok {
		m.unsupported("foreign reflect.Type")
	}
	return r.ti
}

func (m *Machine) rv(v Value) *RV {
	r, ok := v.p.(*RV)
	if !ok {
		m.panicVal(m.strIface("reflect: call of method on zero Value"))
	}
	return r
}

func (m *Machine) strIface(s string) Value {
	return Value{p: &Iface{m.P.types.get(types.Typ[types.String]), mkStrC(s)}}
}

func (m *Machine) structField(st *types.Struct, i int, index []int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	ix := make(Slice, len(index))
	for k, n := range index {
		ix[k] = mkInt(n)
	}
	return Value{p: Agg{mkStrC(f.Name()), mkStrC(pkg), m.rtypeIface(m.P.types.get(f.Type())), mkStrC(st.Tag(i)),
		mkInt(i * 8), {p: ix}, mkBool(f.Anonymous())}}
}

// findField is reflect's FieldByName for names promoted through embedded structs.
func findField(t types.Type, name string) []int {
	type ent struct {
		t   types.Type
		idx []int
	}
	cur := []ent{{t, nil}}
	seen := map[types.Type]bool{}
	for len(cur) > 0 {
		var next []ent
		var found []int
		n := 0
		for _, e := range cur {
			st, ok := e.t.Underlying().(*types.Struct)
			if !ok || seen[e.t] {
				continue
			}
			seen[e.t] = true
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				ix := append(append([]int{}, e.idx...), i)
				if f.Name() == name {
					found = ix
					n++
					continue
				}
				if f.Anonymous() {
					ft := f.Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft = p.Elem()
					}
					next = append(next, ent{ft, ix})
				}
			}
		}
		if n == 1 {
			return found
		}
		if n > 1 {
			return nil
		}
		cur = next
	}
	return nil
}

func (m *Machine) rvField(r *RV, i int) *RV {
	st, ok := r.ti.t.Underlying().(*types.Struct)
	if !ok {
		m.panicVal(m.strIface("reflect: call of reflect.Value.Field on non-struct Value"))
	}
	if i < 0 || i >= st.NumFields() {
		m.panicVal(m.strIface("reflect: Field index out of range"))
	}
	f := st.Field(i)
	out := &RV{ti: m.P.types.get(f.Type()), ro: r.ro || (!f.Exported() && !f.Anonymous())}
	if r.cell != nil {
		out.cell = &r.cell.p.(Agg)[i]
	} else {
		out.v = r.v.p.(Agg)[i]
	}
	return out
}

func (m *Machine) rvElem(r *RV) Value {
	switch u := r.ti.t.Underlying().(type) {
	case *types.Pointer:
		v := r.get()
		if v.p == nil {
			return Value{}
		}
		c, ok := v.p.(*Value)
		if !ok {
			m.unsupported("reflect Elem of %T", v.p)
		}
		return Value{p: &RV{ti: m.P.types.get(u.Elem()), cell: c, ro: r.ro}}
	case *types.Interface:
		v := r.get()
		i, ok := v.p.(*Iface)
		if !ok {
			return Value{}
		}
		return Value{p: &RV{ti: i.t, v: i.v, ro: r.ro}}
	}
	m.panicVal(m.strIface("reflect: call of reflect.Value.Elem on " + reflectKind(r.ti.t).String() + " Value"))
	return Value{}
}

// toIface packs a reflect value as an interface value.
func (m *Machine) rvInterface(r *RV) Value {
	v := r.get()
	if _, ok := r.ti.t.Underlying().(*types.Interface); ok {
		return v
	}
	return Value{p: &Iface{r.ti, copyVal(v)}}
}

// assignTo converts v to type t for Set.
func (m *Machine) rvAssign(x *RV, t *TypeInfo) Value {
	v := copyVal(x.get())
	if _, ok := t.t.Underlying().(*types.Interface); ok {
		if _, is := x.ti.t.Underlying().(*types.Interface); is {
			return v
		}
		if !m.implements(x.ti, t) {
			m.panicVal(m.strIface("reflect.Set: value of type " + typeString(x.ti.t) + " is not assignable to type " + typeString(t.t)))
		}
		return Value{p: &Iface{x.ti, v}}
	}
	if x.ti != t && !types.AssignableTo(x.ti.t, t.t) {
		m.panicVal(m.strIface("reflect.Set: value of type " + typeString(x.ti.t) + " is not assignable to type " + typeString(t.t)))
	}
	return v
}

func (m *Machine) rvSet(r *RV, v Value) {
	m.noSpec()
	if r.cell == nil || r.ro {
		m.panicVal(m.strIface("reflect: reflect.Value.Set using unaddressable value"))
	}
	storeInto(r.cell, v)
}

func reflectNatives(N map[string]native) {
	R := "reflect."
	reg := func(name string, f func(m *Machine, fn *ssa.Function, a []Value) Value) {
		N[name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return f(m, fn, a), true }
	}
	reg(R+"TypeOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return Value{}
		}
		return m.rtypeIface(i.t)
	})
	reg(R+"TypeFor", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.rtypeIface(m.P.types.get(fn.TypeArgs()[0]))
	})
	reg(R+"ValueOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return Value{}
		}
		return Value{p: &RV{ti: i.t, v: i.v}}
	})
	reg(R+"New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ti := m.typeOfArg(a[0])
		v := zero(ti.t)
		return Value{p: &RV{ti: m.P.types.get(types.NewPointer(ti.t)), v: Value{p: &v}}}
	})
	reg(R+"Zero", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ti := m.typeOfArg(a[0])
		return Value{p: &RV{ti: ti, v: zero(ti.t)}}
	})
	ptrTo := func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.rtypeIface(m.P.types.get(types.NewPointer(m.typeOfArg(a[0]).t)))
	}
	reg(R+"PointerTo", ptrTo)
	reg(R+"PtrTo", ptrTo)
	reg(R+"Indirect", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := m.rv(a[0])
		if _, ok := r.ti.t.Underlying().(*types.Pointer); !ok {
			return a[0]
		}
		return m.rvElem(r)
	})
	reg(R+"MakeSlice", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ti := m.typeOfArg(a[0])
		n, c := int(m.conc(a[1], 64)), int(m.conc(a[2], 64))
		return Value{p: &RV{ti: ti, v: Value{p: makeSlice(ti.t.Underlying().(*types.Slice).Elem(), n, c)}}}
	})
	mkMap := func(m *Machine, fn *ssa.Function, a []Value) Value {
		ti := m.typeOfArg(a[0])
		return Value{p: &RV{ti: ti, v: Value{p: &MapV{idx: map[string]int{}, kt: ti.t.Underlying().(*types.Map).Key()}}}}
	}
	reg(R+"MakeMap", mkMap)
	reg(R+"MakeMapWithSize", mkMap)
	reg(R+"Append", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := m.rv(a[0])
		el := r.ti.t.Underlying().(*types.Slice).Elem()
		var add []Value
		for _, x := range sliceOf(a[1]) {
			add = append(add, m.rvAssign(m.rv(x), m.P.types.get(el)))
		}
		s := sliceOf(r.get())
		if len(add) == 0 {
			return Value{p: &RV{ti: r.ti, v: r.get()}}
		}
		return Value{p: &RV{ti: r.ti, v: Value{p: m.appendVals(s, el, add)}}}
	})
	reg(R+"TypeAssert", func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := fn.TypeArgs()[0]
		r := m.rv(a[0])
		ti := m.P.types.get(t)
		iv := m.rvInterface(r)
		i, _ := iv.p.(*Iface)
		if _, ok := t.Underlying().(*types.Interface); ok {
			if i != nil && m.implements(i.t, ti) {
				return tuple(iv, mkBool(true))
			}
			return tuple(Value{}, Value{})
		}
		if i != nil && i.t == ti {
			return tuple(i.v, mkBool(true))
		}
		return tuple(zero(t), Value{})
	})
	N[R+"DeepEqual"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		x, _ := a[0].p.(*Iface)
		y, _ := a[1].p.(*Iface)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil), true
		}
		if x.t != y.t {
			return mkBool(false), true
		}
		return fromTerm(m.deepEq(x.v, y.v, x.t.t)), true
	}

	// Type methods
	T := func(name string, f func(m *Machine, t *TypeInfo, a []Value) Value) {
		N["(*reflect.rtype)."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			r, ok := a[0].p.(*RType)
			if !ok {
				m.unsupported("reflect type method on %T", a[0].p)
			}
			return f(m, r.ti, a[1:]), true
		}
	}
	T("Kind", func(m *Machine, t *TypeInfo, a []Value) Value { return mkInt(int(reflectKind(t.t))) })
	T("String", func(m *Machine, t *TypeInfo, a []Value) Value { return mkStrC(typeString(t.t)) })
	T("Name", func(m *Machine, t *TypeInfo, a []Value) Value {
		switch x := types.Unalias(t.t).(type) {
		case *types.Named:
			return mkStrC(x.Obj().Name())
		case *types.Basic:
			return mkStrC(x.Name())
		}
		return Value{}
	})
	T("PkgPath", func(m *Machine, t *TypeInfo, a []Value) Value {
		if x, ok := types.Unalias(t.t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return mkStrC(x.Obj().Pkg().Path())
		}
		return Value{}
	})
	T("Size", func(m *Machine, t *TypeInfo, a []Value) Value { return mkInt(int(m.P.sizes.Sizeof(t.t))) })
	T("Bits", func(m *Machine, t *TypeInfo, a []Value) Value { return mkInt(int(m.P.sizes.Sizeof(t.t)) * 8) })
	T("Elem", func(m *Machine, t *TypeInfo, a []Value) Value {
		switch u := t.t.Underlying().(type) {
		case interface{ Elem() types.Type }:
			return m.rtypeIface(m.P.types.get(u.Elem()))
		}
		m.panicVal(m.strIface("reflect: Elem of invalid type " + typeString(t.t)))
		return Value{}
	})
	T("Key", func(m *Machine, t *TypeInfo, a []Value) Value {
		return m.rtypeIface(m.P.types.get(t.t.Underlying().(*types.Map).Key()))
	})
	T("Len", func(m *Machine, t *TypeInfo, a []Value) Value {
		return mkInt(int(t.t.Underlying().(*types.Array).Len()))
	})
	T("NumField", func(m *Machine, t *TypeInfo, a []Value) Value {
		st, ok := t.t.Underlying().(*types.Struct)
		if !ok {
			m.panicVal(m.strIface("reflect: NumField of non-struct type " + typeString(t.t)))
		}
		return mkInt(st.NumFields())
	})
	T("Field", func(m *Machine, t *TypeInfo, a []Value) Value {
		st, ok := t.t.Underlying().(*types.Struct)
		i := int(int64(m.conc(a[0], 64)))
		if !ok || i < 0 || i >= st.NumFields() {
			m.panicVal(m.strIface("reflect: Field of non-struct type or index out of bounds"))
		}
		return m.structField(st, i, []int{i})
	})
	T("FieldByName", func(m *Machine, t *TypeInfo, a []Value) Value {
		name := m.cstr(a[0])
		ix := findField(t.t, name)
		if ix == nil {
			z := make(Agg, 7)
			return tuple(Value{p: z}, Value{})
		}
		cur := t.t
		for k, i := range ix {
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
			st := cur.Underlying().(*types.Struct)
			if k == len(ix)-1 {
				return tuple(m.structField(st, i, ix), mkBool(true))
			}
			cur = st.Field(i).Type()
		}
		return Value{}
	})
	T("NumMethod", func(m *Machine, t *TypeInfo, a []Value) Value {
		ms := types.NewMethodSet(t.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return mkInt(n)
	})
	T("Implements", func(m *Machine, t *TypeInfo, a []Value) Value {
		return mkBool(m.implements(t, m.typeOfArg(a[0])))
	})
	T("AssignableTo", func(m *Machine, t *TypeInfo, a []Value) Value {
		return mkBool(types.AssignableTo(t.t, m.typeOfArg(a[0]).t))
	})
	T("ConvertibleTo", func(m *Machine, t *TypeInfo, a []Value) Value {
		return mkBool(types.ConvertibleTo(t.t, m.typeOfArg(a[0]).t))
	})
	T("Comparable", func(m *Machine, t *TypeInfo, a []Value) Value { return mkBool(types.Comparable(t.t)) })

	// Value methods
	V := func(name string, f func(m *Machine, r *RV, a []Value) Value) {
		N["(reflect.Value)."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			return f(m, m.rv(a[0]), a[1:]), true
		}
	}
	reg("(reflect.Value).IsValid", func(m *Machine, fn *ssa.Function, a []Value) Value { return mkBool(a[0].p != nil) })
	reg("(reflect.Value).Kind", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return mkInt(int(reflectKind(a[0].p.(*RV).ti.t)))
	})
	V("Type", func(m *Machine, r *RV, a []Value) Value { return m.rtypeIface(r.ti) })
	V("Elem", func(m *Machine, r *RV, a []Value) Value { return m.rvElem(r) })
	V("Field", func(m *Machine, r *RV, a []Value) Value {
		return Value{p: m.rvField(r, int(int64(m.conc(a[0], 64))))}
	})
	byIndex := func(m *Machine, r *RV, ix []int) *RV {
		for k, i := range ix {
			if k > 0 {
				if _, ok := r.ti.t.Underlying().(*types.Pointer); ok {
					e := m.rvElem(r)
					if e.p == nil {
						m.panicVal(m.strIface("reflect: indirection through nil pointer to embedded struct"))
					}
					r = e.p.(*RV)
				}
			}
			r = m.rvField(r, i)
		}
		return r
	}
	V("FieldByIndex", func(m *Machine, r *RV, a []Value) Value {
		var ix []int
		for _, v := range sliceOf(a[0]) {
			ix = append(ix, int(int64(v.n)))
		}
		return Value{p: byIndex(m, r, ix)}
	})
	V("FieldByName", func(m *Machine, r *RV, a []Value) Value {
		ix := findField(r.ti.t, m.cstr(a[0]))
		if ix == nil {
			return Value{}
		}
		return Value{p: byIndex(m, r, ix)}
	})
	V("NumField", func(m *Machine, r *RV, a []Value) Value {
		return mkInt(r.ti.t.Underlying().(*types.Struct).NumFields())
	})
	V("NumMethod", func(m *Machine, r *RV, a []Value) Value {
		if i, ok := r.ti.t.Underlying().(*types.Interface); ok {
			return mkInt(i.NumMethods())
		}
		ms := types.NewMethodSet(r.ti.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return mkInt(n)
	})
	V("Interface", func(m *Machine, r *RV, a []Value) Value {
		if r.ro {
			m.panicVal(m.strIface("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		return m.rvInterface(r)
	})
	V("CanInterface", func(m *Machine, r *RV, a []Value) Value { return mkBool(!r.ro) })
	V("CanSet", func(m *Machine, r *RV, a []Value) Value { return mkBool(r.cell != nil && !r.ro) })
	V("CanAddr", func(m *Machine, r *RV, a []Value) Value { return mkBool(r.cell != nil) })
	V("Addr", func(m *Machine, r *RV, a []Value) Value {
		if r.cell == nil {
			m.panicVal(m.strIface("reflect.Value.Addr of unaddressable value"))
		}
		return Value{p: &RV{ti: m.P.types.get(types.NewPointer(r.ti.t)), v: Value{p: r.cell}, ro: r.ro}}
	})
	V("IsNil", func(m *Machine, r *RV, a []Value) Value { return mkBool(r.get().p == nil) })
	V("IsZero", func(m *Machine, r *RV, a []Value) Value {
		return fromTerm(m.deepEq(r.get(), zero(r.ti.t), r.ti.t))
	})
	V("Len", func(m *Machine, r *RV, a []Value) Value {
		switch x := r.get().p.(type) {
		case nil:
			return Value{}
		case Slice:
			return mkInt(len(x))
		case Agg:
			return mkInt(len(x))
		case *MapV:
			return mkInt(x.n)
		}
		return mkInt(strLen(r.get()))
	})
	V("Cap", func(m *Machine, r *RV, a []Value) Value { return mkInt(cap(sliceOf(r.get()))) })
	V("Index", func(m *Machine, r *RV, a []Value) Value {
		i := int(int64(m.conc(a[0], 64)))
		switch u := r.ti.t.Underlying().(type) {
		case *types.Slice:
			s := sliceOf(r.get())
			if i < 0 || i >= len(s) {
				m.panicVal(m.strIface("reflect: slice index out of range"))
			}
			return Value{p: &RV{ti: m.P.types.get(u.Elem()), cell: &s[i], ro: r.ro}}
		case *types.Array:
			s := r.get().p.(Agg)
			if i < 0 || i >= len(s) {
				m.panicVal(m.strIface("reflect: array index out of range"))
			}
			out := &RV{ti: m.P.types.get(u.Elem()), v: s[i], ro: r.ro}
			if r.cell != nil {
				out.cell = &s[i]
			}
			return Value{p: out}
		}
		return Value{p: &RV{ti: m.P.types.get(types.Typ[types.Uint8]), v: strAt(r.get(), i)}}
	})
	V("Set", func(m *Machine, r *RV, a []Value) Value {
		m.rvSet(r, m.rvAssign(m.rv(a[0]), r.ti))
		return Value{}
	})
	V("SetZero", func(m *Machine, r *RV, a []Value) Value { m.rvSet(r, zero(r.ti.t)); return Value{} })
	V("SetString", func(m *Machine, r *RV, a []Value) Value { m.rvSet(r, a[0]); return Value{} })
	V("SetBool", func(m *Machine, r *RV, a []Value) Value { m.rvSet(r, a[0]); return Value{} })
	V("SetBytes", func(m *Machine, r *RV, a []Value) Value { m.rvSet(r, a[0]); return Value{} })
	setInt := func(m *Machine, r *RV, a []Value) Value {
		k := kindOf(r.ti.t)
		if k.k != kInt {
			m.panicVal(m.strIface("reflect: call of SetInt on non-integer Value"))
		}
		v := a[0]
		if t := v.sym(); t != nil {
			if k.w < 64 {
				v = fromTerm(m.tc.Trunc(t, k.w))
			}
		} else {
			v.n &= mask(k.w)
		}
		m.rvSet(r, v)
		return Value{}
	}
	V("SetInt", setInt)
	V("SetUint", setInt)
	V("SetFloat", func(m *Machine, r *RV, a []Value) Value {
		v := a[0]
		if kindOf(r.ti.t).k == kF32 {
			if v.p != nil {
				m.unsupported("symbolic float32")
			}
			v = Value{n: uint64(math.Float32bits(float32(v.f64())))}
		}
		m.rvSet(r, v)
		return Value{}
	})
	V("SetLen", func(m *Machine, r *RV, a []Value) Value {
		s := sliceOf(r.get())
		n := int(int64(m.conc(a[0], 64)))
		if n < 0 || n > cap(s) {
			m.panicVal(m.strIface("reflect: slice length out of range in SetLen"))
		}
		if s == nil {
			return Value{}
		}
		m.rvSet(r, Value{p: s2(s, n)})
		return Value{}
	})
	V("Grow", func(m *Machine, r *RV, a []Value) Value {
		s := sliceOf(r.get())
		n := int(int64(m.conc(a[0], 64)))
		if len(s)+n > cap(s) {
			el := r.ti.t.Underlying().(*types.Slice).Elem()
			c := growCap(cap(s), len(s)+n, int(m.P.sizes.Sizeof(el)))
			ns := makeSlice(el, c, c)
			for i := range s {
				storeInto(&ns[i], s[i])
			}
			m.rvSet(r, Value{p: s2(ns, len(s))})
		}
		return Value{}
	})
	V("Slice", func(m *Machine, r *RV, a []Value) Value {
		i, j := int(int64(m.conc(a[0], 64))), int(int64(m.conc(a[1], 64)))
		v := r.get()
		if _, ok := r.ti.t.Underlying().(*types.Slice); ok {
			s := sliceOf(v)
			return Value{p: &RV{ti: r.ti, v: Value{p: Slice(s[i:j])}}}
		}
		return Value{p: &RV{ti: r.ti, v: strSub(v, i, j)}}
	})
	V("Bytes", func(m *Machine, r *RV, a []Value) Value { return r.get() })
	reg("(reflect.Value).String", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if a[0].p == nil {
			return mkStrC("<invalid Value>")
		}
		r := m.rv(a[0])
		if kindOf(r.ti.t).k == kStr {
			return r.get()
		}
		return mkStrC("<" + typeString(r.ti.t) + " Value>")
	})
	V("Bool", func(m *Machine, r *RV, a []Value) Value { return r.get() })
	V("Int", func(m *Machine, r *RV, a []Value) Value {
		k := kindOf(r.ti.t)
		v := r.get()
		if t := v.sym(); t != nil {
			return fromTerm(m.tc.Sext(t, 64))
		}
		return Value{n: uint64(sext(v.n, k.w))}
	})
	V("Uint", func(m *Machine, r *RV, a []Value) Value {
		v := r.get()
		if t := v.sym(); t != nil {
			return fromTerm(m.tc.Zext(t, 64))
		}
		return v
	})
	V("Float", func(m *Machine, r *RV, a []Value) Value {
		v := r.get()
		if kindOf(r.ti.t).k == kF32 {
			return mkF64(float64(math.Float32frombits(uint32(v.n))))
		}
		return v
	})
	V("OverflowFloat", func(m *Machine, r *RV, a []Value) Value { return Value{} })
	V("OverflowInt", func(m *Machine, r *RV, a []Value) Value {
		k := kindOf(r.ti.t)
		v := a[0]
		if t := v.sym(); t != nil {
			if k.w >= 64 {
				return Value{}
			}
			return fromTerm(m.tc.Not(m.tc.Eq(m.tc.Sext(m.tc.Trunc(t, k.w), 64), t)))
		}
		return mkBool(sext(v.n&mask(k.w), k.w) != int64(v.n))
	})
	V("OverflowUint", func(m *Machine, r *RV, a []Value) Value {
		k := kindOf(r.ti.t)
		v := Value{n: m.conc(a[0], 64)}
		return mkBool(v.n&mask(k.w) != v.n)
	})
	V("Pointer", func(m *Machine, r *RV, a []Value) Value { return mkInt(1) })
	V("UnsafePointer", func(m *Machine, r *RV, a []Value) Value { return r.get() })
	V("Comparable", func(m *Machine, r *RV, a []Value) Value { return mkBool(types.Comparable(r.ti.t)) })
	V("MapIndex", func(m *Machine, r *RV, a []Value) Value {
		mt := r.ti.t.Underlying().(*types.Map)
		mv, ok := r.get().p.(*MapV)
		if !ok {
			return Value{}
		}
		k := m.rvAssign(m.rv(a[0]), m.P.types.get(mt.Key()))
		if i := m.mapFind(mv, k); i >= 0 {
			return Value{p: &RV{ti: m.P.types.get(mt.Elem()), v: mv.vals[i]}}
		}
		return Value{}
	})
	V("SetMapIndex", func(m *Machine, r *RV, a []Value) Value {
		m.noSpec()
		mt := r.ti.t.Underlying().(*types.Map)
		mv, ok := r.get().p.(*MapV)
		if !ok {
			m.panicVal(m.strIface("assignment to entry in nil map"))
		}
		k := m.rvAssign(m.rv(a[0]), m.P.types.get(mt.Key()))
		if a[1].p == nil {
			m.mapDelete(mv, k)
			return Value{}
		}
		m.mapSet(mv, k, m.rvAssign(m.rv(a[1]), m.P.types.get(mt.Elem())))
		return Value{}
	})
	V("MapKeys", func(m *Machine, r *RV, a []Value) Value {
		mt := r.ti.t.Underlying().(*types.Map)
		out := Slice{}
		if mv, ok := r.get().p.(*MapV); ok {
			for i := range mv.keys {
				if mv.live[i] {
					out = append(out, Value{p: &RV{ti: m.P.types.get(mt.Key()), v: mv.keys[i]}})
				}
			}
		}
		return Value{p: out}
	})
	V("Convert", func(m *Machine, r *RV, a []Value) Value {
		t := m.typeOfArg(a[0])
		return Value{p: &RV{ti: t, v: m.convert(kindOf(r.ti.t), kindOf(t.t), r.ti.t, t.t, r.get())}}
	})
	_ = strings.Index
}

func s2(s Slice, n int) Slice { return s[:n] }

func (m *Machine) deepEq(x, y Value, t types.Type) *Term {
	tc := m.tc
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, b := x.p.(Agg), y.p.(Agg)
		r := tc.True
		for i := range a {
			r = tc.And(r, m.deepEq(a[i], b[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		a, b := x.p.(Agg), y.p.(Agg)
		r := tc.True
		for i := range a {
			r = tc.And(r, m.deepEq(a[i], b[i], u.Elem()))
		}
		return r
	case *types.Slice:
		if (x.p == nil) != (y.p == nil) {
			return tc.False
		}
		a, b := sliceOf(x), sliceOf(y)
		if len(a) != len(b) {
			return tc.False
		}
		r := tc.True
		for i := range a {
			r = tc.And(r, m.deepEq(a[i], b[i], u.Elem()))
		}
		return r
	case *types.Pointer:
		if ptrEq(x, y) {
			return tc.True
		}
		a, ok1 := x.p.(*Value)
		b, ok2 := y.p.(*Value)
		if !ok1 || !ok2 {
			return tc.False
		}
		return m.deepEq(*a, *b, u.Elem())
	case *types.Interface:
		a, _ := x.p.(*Iface)
		b, _ := y.p.(*Iface)
		if a == nil || b == nil {
			return tc.Bool(a == nil && b == nil)
		}
		if a.t != b.t {
			return tc.False
		}
		return m.deepEq(a.v, b.v, a.t.t)
	case *types.Map:
		a, _ := x.p.(*MapV)
		b, _ := y.p.(*MapV)
		if a == nil || b == nil {
			return tc.Bool(a == nil && b == nil)
		}
		if a.n != b.n {
			return tc.False
		}
		r := tc.True
		for i := range a.keys {
			if a.live[i] {
				j := m.mapFind(b, a.keys[i])
				if j < 0 {
					return tc.False
				}
				r = tc.And(r, m.deepEq(a.vals[i], b.vals[j], u.Elem()))
			}
		}
		return r
	case *types.Signature:
		return tc.Bool(x.p == nil && y.p == nil)
	}
	return m.bool1(m.eqTyped(x, y, t))
}
