package sx

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The JSON codec is modelled structurally: Marshal keeps the value, Unmarshal of what Marshal produced converts
// it according to the types (exported fields, json tags, omitempty is not used by the code under test).
type jsonDoc struct {
	t types.Type
	v Value
}

func jsonNatives(N map[string]native) {
	// the name of an image in the PDF, a hash of its gob encoding; here a different name for every call
	N["github.com/jung-kurt/gofpdf/v2.generateImageID"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		m.ntok++
		return tuple(mkStrC(fmt.Sprintf("%040x", m.ntok)), Value{}), true
	}
	N["crypto/sha1.Sum"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		b, ok := concBytes(sliceOf(a[0]))
		if !ok {
			m.unsupported("hash of symbolic bytes")
		}
		out := Agg{}
		for _, x := range sha1.Sum(b) {
			out = append(out, Value{n: uint64(x)})
		}
		return Value{p: out}, true
	}
	mar := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		i, ok := a[0].p.(*Iface)
		if !ok {
			return tuple(mkBytes([]byte("null")), Value{}), true
		}
		m.jdocs = append(m.jdocs, jsonDoc{i.t.t, m.jsonCopy(i.v, i.t.t, 0)})
		return tuple(mkBytes([]byte(fmt.Sprintf("{\"json-model\": %d}", len(m.jdocs)-1))), Value{}), true
	}
	N["encoding/json.Marshal"], N["encoding/json.MarshalIndent"] = mar, mar
	N["encoding/json.Unmarshal"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		b, ok := concBytes(sliceOf(a[0]))
		k := -1
		if ok {
			fmt.Sscanf(string(b), "{\"json-model\": %d}", &k)
		}
		i, isPtr := a[1].p.(*Iface)
		if !isPtr {
			m.unsupported("json.Unmarshal into nil")
		}
		if k < 0 || k >= len(m.jdocs) {
			pt, isPtr := i.t.t.Underlying().(*types.Pointer)
			if !ok || !isPtr {
				m.unsupported("json.Unmarshal of symbolic text")
			}
			var x any
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			if dec.Decode(&x) != nil || dec.More() {
				m.unsupported("json.Unmarshal of invalid text")
			}
			storeInto(i.v.p.(*Value), m.jsonText(x, *i.v.p.(*Value), pt.Elem()))
			return Value{}, true
		}
		d := m.jdocs[k]
		pt, ok := i.t.t.Underlying().(*types.Pointer)
		if !ok {
			m.unsupported("json.Unmarshal into %v", i.t.t)
		}
		v, ok := m.jsonInto(d.v, d.t, pt.Elem())
		if !ok {
			m.unsupported("json.Unmarshal of %v into %v", d.t, pt.Elem())
		}
		storeInto(i.v.p.(*Value), v)
		return Value{}, true
	}
}

// jsonText makes a value of type t of decoded concrete text; v is the value before.
func (m *Machine) jsonText(x any, v Value, t types.Type) Value {
	bad := func() Value {
		m.unsupported("json.Unmarshal of %T into %v", x, t)
		return Value{}
	}
	if hasMethod(t, "UnmarshalJSON") || hasMethod(t, "UnmarshalText") {
		return bad()
	}
	if x == nil {
		return bad()
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o, ok := x.(map[string]any)
		if !ok {
			return bad()
		}
		out := copyVal(v)
		a := out.p.(Agg)
		for key, e := range o {
			for i := range a {
				fl := u.Field(i)
				if u.Tag(i) != "" || fl.Anonymous() {
					return bad()
				}
				if fl.Exported() && strings.EqualFold(fl.Name(), key) {
					a[i] = m.jsonText(e, a[i], fl.Type())
					break
				}
			}
		}
		return out
	case *types.Slice:
		l, ok := x.([]any)
		if !ok {
			return bad()
		}
		out := make(Slice, len(l))
		for i := range l {
			out[i] = m.jsonText(l[i], zero(u.Elem()), u.Elem())
		}
		return Value{p: out}
	case *types.Basic:
		switch y := x.(type) {
		case string:
			if u.Info()&types.IsString != 0 {
				return mkStrC(y)
			}
		case bool:
			if u.Info()&types.IsBoolean != 0 {
				return mkBool(y)
			}
		case json.Number:
			if u.Kind() == types.Int || u.Kind() == types.Int64 {
				if n, err := y.Int64(); err == nil {
					return mkInt(int(n))
				}
			}
			if u.Kind() == types.Float64 {
				if f, err := y.Float64(); err == nil {
					return mkF64(f)
				}
			}
		}
	}
	return bad()
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

// jsonCopy detaches the value from memory that may change later.
func (m *Machine) jsonCopy(v Value, t types.Type, depth int) Value {
	if depth > 40 {
		m.unsupported("deep json value")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := v.p.(Agg)
		out := make(Agg, len(a))
		for i := range a {
			out[i] = m.jsonCopy(a[i], u.Field(i).Type(), depth+1)
		}
		return Value{p: out}
	case *types.Slice:
		s := sliceOf(v)
		if s == nil {
			return v
		}
		out := make(Slice, len(s))
		for i := range s {
			out[i] = m.jsonCopy(s[i], u.Elem(), depth+1)
		}
		return Value{p: out}
	case *types.Interface:
		if i, ok := v.p.(*Iface); ok {
			return Value{p: &Iface{i.t, m.jsonCopy(i.v, i.t.t, depth+1)}}
		}
	case *types.Pointer:
		if c, ok := v.p.(*Value); ok {
			n := m.jsonCopy(*c, u.Elem(), depth+1)
			return Value{p: &n}
		}
	}
	return copyVal(v)
}

func (m *Machine) jsonInto(v Value, from, to types.Type) (Value, bool) {
	if types.Identical(from, to) {
		return copyVal(v), true
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		return m.jsonAny(v, from), true
	}
	if mt, ok := to.Underlying().(*types.Map); ok {
		if st, ok := from.Underlying().(*types.Struct); ok && kindOf(mt.Key()).k == kStr {
			mv := &MapV{idx: map[string]int{}, kt: mt.Key()}
			m.jsonFields(v, st, func(name string, x Value, t types.Type) {
				e, ok := m.jsonInto(x, t, mt.Elem())
				if !ok {
					m.unsupported("json map element")
				}
				m.mapSet(mv, mkStrC(name), e)
			})
			return Value{p: mv}, true
		}
	}
	return Value{}, false
}

func (m *Machine) jsonFields(v Value, st *types.Struct, f func(name string, x Value, t types.Type)) {
	a := v.p.(Agg)
	for i := range a {
		fl := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if opts != "" {
			m.unsupported("json tag options")
		}
		if fl.Anonymous() && name == "" {
			t := fl.Type()
			x := a[i]
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if x.p == nil {
					continue
				}
				t, x = p.Elem(), *x.p.(*Value)
			}
			if s, ok := t.Underlying().(*types.Struct); ok {
				m.jsonFields(x, s, f)
				continue
			}
		}
		if !fl.Exported() {
			continue
		}
		if name == "" {
			name = fl.Name()
		}
		f(name, a[i], fl.Type())
	}
}

// jsonAny converts to what decoding into an empty interface yields.
func (m *Machine) jsonAny(v Value, t types.Type) Value {
	anyT := types.NewInterfaceType(nil, nil)
	mk := func(t types.Type, v Value) Value { return Value{p: &Iface{m.P.types.get(t), v}} }
	switch u := t.Underlying().(type) {
	case *types.Struct:
		mv := &MapV{idx: map[string]int{}, kt: types.Typ[types.String]}
		m.jsonFields(v, u, func(name string, x Value, t types.Type) { m.mapSet(mv, mkStrC(name), m.jsonAny(x, t)) })
		return mk(types.NewMap(types.Typ[types.String], anyT), Value{p: mv})
	case *types.Slice:
		if v.p == nil {
			return Value{}
		}
		var out Slice
		for _, x := range sliceOf(v) {
			out = append(out, m.jsonAny(x, u.Elem()))
		}
		return mk(types.NewSlice(anyT), Value{p: out})
	case *types.Pointer:
		if v.p == nil {
			return Value{}
		}
		return m.jsonAny(*v.p.(*Value), u.Elem())
	case *types.Interface:
		if i, ok := v.p.(*Iface); ok {
			return m.jsonAny(i.v, i.t.t)
		}
		return Value{}
	}
	k := kindOf(t)
	switch k.k {
	case kBool:
		return mk(types.Typ[types.Bool], v)
	case kStr:
		return mk(types.Typ[types.String], v)
	case kF64:
		return mk(types.Typ[types.Float64], v)
	case kInt:
		var r Value
		if x := v.sym(); x != nil {
			if rt := m.bvToReal(x); rt != nil && !(k.signed && x.uhi > mask(k.w)>>1) {
				r = fromTerm(rt)
			} else {
				r = m.convert(k, tk{kF64, 64, true}, t, types.Typ[types.Float64], v)
			}
		} else {
			r = m.convert(k, tk{kF64, 64, true}, t, types.Typ[types.Float64], v)
		}
		return mk(types.Typ[types.Float64], r)
	}
	m.unsupported("json of %v", t)
	return Value{}
}
