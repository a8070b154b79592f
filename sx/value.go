package sx

import (
	"fmt"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a run-time value. Concrete scalars live in n (masked to their width); p holds everything else.
//
//	p == nil          concrete scalar, nil pointer/map/slice/func/interface, or ""
//	*Term             symbolic scalar
//	string / *SymStr  strings
//	Agg               struct or array
//	*Value, *SymElem  pointer
//	Slice             non-nil slice
//	*MapV, *Closure, *ssa.Function, *ssa.Builtin, *Iface, Tuple, *RType, *RV, ...
type Value struct {
	n uint64
	p any
}

type Agg []Value
type Slice []Value
type Tuple []Value

type SymStr struct{ b []Value }

type Closure struct {
	fn   *ssa.Function
	free []Value
}

type Iface struct {
	t *TypeInfo
	v Value
}

// SymElem is a pointer to an element selected by a symbolic index.
type SymElem struct {
	s   []Value
	idx *Term
}

// ptrData is the result of unsafe.SliceData / unsafe.StringData.
type ptrData struct {
	s []Value
}

type MapV struct {
	keys []Value
	vals []Value
	live []bool
	n    int
	idx  map[string]int
	sym  bool
	kt   types.Type
}

type mapIter struct {
	m     *MapV
	order []int
	pos   int
	left  []int
}

type strIter struct {
	s   Value
	pos int
}

// nativeFn is a bound native callable usable as a func value.
type nativeFn struct {
	f func(m *Machine, args []Value) Value
}

// TypeInfo is the canonical descriptor of a type.
type TypeInfo struct {
	t       types.Type
	id      int
	rt      *RType
	methods sync.Map // string -> *ssa.Function
}

type RType struct{ ti *TypeInfo }

type typeTable struct {
	mu    sync.Mutex
	byPtr sync.Map // types.Type -> *TypeInfo
	canon typeutil.Map
	n     int
}

func (tt *typeTable) get(t types.Type) *TypeInfo {
	if x, ok := tt.byPtr.Load(t); ok {
		return x.(*TypeInfo)
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if x := tt.canon.At(t); x != nil {
		tt.byPtr.Store(t0, x)
		return x.(*TypeInfo)
	}
	ti := &TypeInfo{t: t, id: tt.n}
	ti.rt = &RType{ti}
	tt.n++
	tt.canon.Set(t, ti)
	tt.byPtr.Store(t, ti)
	tt.byPtr.Store(t0, ti)
	return ti
}

// scalar kinds
type kind uint8

const (
	kOther kind = iota
	kBool
	kInt
	kF64
	kF32
	kStr
	kPtr
	kIface
	kSlice
	kMap
	kStruct
	kArray
	kFunc
	kChan
	kComplex
)

type tk struct {
	k      kind
	w      uint8
	signed bool
}

func kindOf(t types.Type) tk {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tk{kBool, 0, false}
		case types.Int, types.Int64, types.UntypedInt:
			return tk{kInt, 64, true}
		case types.Int8:
			return tk{kInt, 8, true}
		case types.Int16:
			return tk{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tk{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tk{kInt, 64, false}
		case types.Uint8:
			return tk{kInt, 8, false}
		case types.Uint16:
			return tk{kInt, 16, false}
		case types.Uint32:
			return tk{kInt, 32, false}
		case types.Float64, types.UntypedFloat:
			return tk{kF64, 64, true}
		case types.Float32:
			return tk{kF32, 32, true}
		case types.String, types.UntypedString:
			return tk{kStr, 0, false}
		case types.UnsafePointer, types.UntypedNil:
			return tk{kPtr, 0, false}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tk{kComplex, 0, false}
		}
	case *types.Pointer:
		return tk{kPtr, 0, false}
	case *types.Interface:
		return tk{kIface, 0, false}
	case *types.Slice:
		return tk{kSlice, 0, false}
	case *types.Map:
		return tk{kMap, 0, false}
	case *types.Struct:
		return tk{kStruct, 0, false}
	case *types.Array:
		return tk{kArray, 0, false}
	case *types.Signature:
		return tk{kFunc, 0, false}
	case *types.Chan:
		return tk{kChan, 0, false}
	}
	return tk{}
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isReflectValue(t) {
			return Value{}
		}
		a := make(Agg, u.NumFields())
		for i := range a {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				a[i] = zero(ft)
			}
		}
		return Value{p: a}
	case *types.Array:
		n := int(u.Len())
		a := make(Agg, n)
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a {
				a[i] = zero(u.Elem())
			}
		}
		return Value{p: a}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return Value{p: tp}
	}
	return Value{}
}

// copyVal copies aggregates so that registers never alias memory.
func copyVal(v Value) Value {
	if a, ok := v.p.(Agg); ok {
		c := make(Agg, len(a))
		for i := range a {
			if _, ok := a[i].p.(Agg); ok {
				c[i] = copyVal(a[i])
			} else {
				c[i] = a[i]
			}
		}
		return Value{p: c}
	}
	return v
}

// storeInto writes v into cell, in place for aggregates so that interior pointers stay valid.
func storeInto(cell *Value, v Value) {
	if a, ok := v.p.(Agg); ok {
		if d, ok := cell.p.(Agg); ok && len(d) == len(a) {
			if len(a) > 0 && &d[0] == &a[0] {
				return
			}
			for i := range a {
				storeInto(&d[i], a[i])
			}
			return
		}
		*cell = copyVal(v)
		return
	}
	*cell = v
}

func mkBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func mkInt(i int) Value     { return Value{n: uint64(int64(i))} }
func mkF64(f float64) Value { return Value{n: math.Float64bits(f)} }
func mkStrC(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func (v Value) f64() float64 { return math.Float64frombits(v.n) }
func (v Value) sym() *Term {
	t, _ := v.p.(*Term)
	return t
}

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strAt(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.p))
}

func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].p != nil {
			c := make([]Value, len(b))
			copy(c, b)
			return Value{p: &SymStr{c}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return Value{p: string(bs)}
}

func strSub(v Value, lo, hi int) Value {
	switch s := v.p.(type) {
	case nil:
		return Value{}
	case string:
		return mkStrC(s[lo:hi])
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSub")
}

func strCat(a, b Value) Value {
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	switch {
	case a.p == nil:
		return b
	case b.p == nil:
		return a
	case ok1 && ok2:
		return Value{p: x + y}
	}
	xb, yb := strBytes(a), strBytes(b)
	c := make([]Value, 0, len(xb)+len(yb))
	c = append(append(c, xb...), yb...)
	return Value{p: &SymStr{c}}
}

// concStr returns the string if it is concrete.
func concStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}
