package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sigRecv(fn *ssa.Function) types.Type { return fn.Signature.Recv().Type() }

// RType is a reflect.Type of a known type, RVal a reflect.Value.
type RType struct{ t types.Type }

type RVal struct {
	t    types.Type
	addr *Ptr // the value is the content of this cell
	v    Val
	ro   int // obtained by an unexported field (1) or an embedded unexported field (2)
}

func (r RType) key() string { return "rtype:" + types.TypeString(r.t, nil) }
func (r RVal) key() string {
	if r.addr != nil {
		return "rval@" + r.addr.key()
	}
	return "rval:" + r.v.key()
}

func (r RVal) load(st *State) Val {
	if r.addr != nil {
		return st.load(*r.addr)
	}
	return r.v
}

func rtype(t types.Type) Iface {
	return Iface{dyn: types.Typ[types.UnsafePointer], v: RType{t}}
}

func kindOf(t types.Type) Val {
	k := reflect.Invalid
	switch u := t.Underlying().(type) {
	case *types.Basic:
		for i := reflect.Bool; i <= reflect.UnsafePointer; i++ {
			if i.String() == u.Name() {
				k = i
			}
		}
	case *types.Struct:
		k = reflect.Struct
	case *types.Pointer:
		k = reflect.Ptr
	case *types.Slice:
		k = reflect.Slice
	case *types.Map:
		k = reflect.Map
	case *types.Interface:
		k = reflect.Interface
	case *types.Signature:
		k = reflect.Func
	case *types.Array:
		k = reflect.Array
	}
	return num(int64(k))
}

// structField is the reflect.StructField of a field, sf its type.
func structField(sf types.Type, s *types.Struct, i int) Val {
	r := StructV{}
	for _, f := range structFields(sf) {
		v := zeroVal(f.Type())
		switch f.Name() {
		case "Name":
			v = constStr(s.Field(i).Name())
		case "PkgPath":
			if !s.Field(i).Exported() {
				v = constStr(s.Field(i).Pkg().Path())
			}
		case "Type":
			v = rtype(s.Field(i).Type())
		case "Tag":
			v = constStr(s.Tag(i))
		case "Anonymous":
			v = kBool(s.Field(i).Embedded())
		}
		r.f = append(r.f, v)
	}
	return r
}

func constInt(v Val) (int, bool) {
	n, ok := v.(Num)
	if !ok || !n.l.isConst() {
		return 0, false
	}
	return int(n.l.c), true
}

func constString(v Val) (string, bool) {
	s, ok := v.(Str)
	if !ok {
		return "", false
	}
	return s.constVal()
}

// reflectType models the methods of reflect.Type for known types.
func (in *Interp) reflectType(t types.Type, m *types.Func, args []Val, st *State, site string) []Outcome {
	one := func(v ...Val) []Outcome { return []Outcome{{st: st, rets: v}} }
	bad := func(why string) []Outcome { return []Outcome{{st: st, panic: site + ": reflect: " + why}} }
	s, isS := t.Underlying().(*types.Struct)
	sig := m.Type().(*types.Signature)
	switch m.Name() {
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return one(rtype(u.Elem()))
		case *types.Slice:
			return one(rtype(u.Elem()))
		}
		return bad("Elem of " + t.String())
	case "NumField":
		if !isS {
			return bad("NumField of " + t.String())
		}
		return one(num(int64(s.NumFields())))
	case "Field":
		if i, ok := constInt(args[0]); ok && isS {
			if i < 0 || i >= s.NumFields() {
				return bad("field index out of range")
			}
			return one(structField(sig.Results().At(0).Type(), s, i))
		}
	case "FieldByName":
		if n, ok := constString(args[0]); ok && isS {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					return one(structField(sig.Results().At(0).Type(), s, i), kBool(true))
				}
			}
			return one(zeroVal(sig.Results().At(0).Type()), kBool(false))
		}
	case "Kind":
		return one(kindOf(t))
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return one(constStr(n.Obj().Name()))
		}
		return one(constStr(""))
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return one(constStr(n.Obj().Pkg().Path()))
		}
		return one(constStr(""))
	case "String":
		return one(constStr(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
	}
	st.note("call of reflect.Type.%s", m.Name())
	return one(in.freshSig(sig)...)
}

// reflectFunc models functions of package reflect, nil if it does not know the arguments.
func (in *Interp) reflectFunc(fn *ssa.Function, args []Val, st *State, site string) []Outcome {
	name := fn.String()
	one := func(v ...Val) []Outcome { return []Outcome{{st: st, rets: v}} }
	bad := func(why string) []Outcome { return []Outcome{{st: st, panic: site + ": reflect: " + why}} }
	if len(args) == 0 {
		return nil
	}
	switch name {
	case "reflect.TypeOf":
		if i, ok := args[0].(Iface); ok && i.dyn != nil {
			return one(rtype(i.dyn))
		}
		return nil
	case "reflect.ValueOf":
		if i, ok := args[0].(Iface); ok && i.dyn != nil {
			return one(RVal{t: i.dyn, v: i.v})
		}
		return nil
	case "(reflect.StructField).IsExported":
		if s, ok := args[0].(StructV); ok {
			for i, f := range structFields(sigRecv(fn)) {
				if p, ok := s.f[i].(Str); ok && f.Name() == "PkgPath" {
					return one(eqB(p.length()))
				}
			}
		}
		return nil
	case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup":
		tag, ok1 := constString(args[0])
		k, ok2 := constString(args[1])
		if !ok1 || !ok2 {
			return nil
		}
		v, ok := reflect.StructTag(tag).Lookup(k)
		if strings.HasSuffix(name, "Get") {
			return one(constStr(v))
		}
		return one(constStr(v), kBool(ok))
	}
	v, ok := args[0].(RVal)
	if !ok {
		return nil
	}
	s, isS := v.t.Underlying().(*types.Struct)
	field := func(i int) (r RVal) {
		defer func() {
			if v.ro == 1 {
				r.ro = 1
			} else if f := s.Field(i); !f.Exported() {
				r.ro = 1
				if f.Embedded() {
					r.ro = 2
				}
			}
		}()
		if v.addr != nil {
			p := *v.addr
			if p.idx != nil {
				p.sub = fmt.Sprintf("%s.%d", p.sub, i)
			} else {
				p.path = fmt.Sprintf("%s.%d", p.path, i)
			}
			return RVal{t: s.Field(i).Type(), addr: &p}
		}
		if x, ok := v.v.(StructV); ok && i < len(x.f) {
			return RVal{t: s.Field(i).Type(), v: x.f[i]}
		}
		return RVal{t: s.Field(i).Type(), v: freshVal("field", s.Field(i).Type())}
	}
	switch name {
	case "reflect.Indirect", "(reflect.Value).Elem":
		switch u := v.t.Underlying().(type) {
		case *types.Pointer:
			if p, ok := v.load(st).(Ptr); ok {
				return one(RVal{t: u.Elem(), addr: &p, ro: v.ro})
			}
		case *types.Interface:
			if i, ok := v.load(st).(Iface); ok && i.dyn != nil {
				return one(RVal{t: i.dyn, v: i.v, ro: v.ro})
			}
		default:
			if name == "reflect.Indirect" {
				return one(v)
			}
			return bad("Elem of " + v.t.String())
		}
	case "(reflect.Value).NumField":
		if !isS {
			return bad("NumField of " + v.t.String())
		}
		return one(num(int64(s.NumFields())))
	case "(reflect.Value).Field":
		if i, ok := constInt(args[1]); ok && isS {
			if i < 0 || i >= s.NumFields() {
				return bad("field index out of range")
			}
			return one(field(i))
		}
	case "(reflect.Value).FieldByName":
		if n, ok := constString(args[1]); ok && isS {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					return one(field(i))
				}
			}
			return one(RVal{t: types.Typ[types.Invalid], v: NilV{}})
		}
	case "(reflect.Value).Type":
		return one(rtype(v.t))
	case "(reflect.Value).Kind":
		return one(kindOf(v.t))
	case "(reflect.Value).Addr":
		if v.addr == nil {
			return bad("Addr of unaddressable value")
		}
		return one(RVal{t: types.NewPointer(v.t), v: *v.addr, ro: v.ro})
	case "(reflect.Value).Interface":
		if v.ro != 0 {
			return bad("Interface of a value obtained from an unexported field")
		}
		x := v.load(st)
		if i, ok := x.(Iface); ok {
			return one(i)
		}
		return one(Iface{dyn: v.t, v: x})
	case "(reflect.Value).CanSet":
		return one(kBool(v.addr != nil && v.ro == 0))
	case "(reflect.Value).CanAddr":
		return one(kBool(v.addr != nil))
	case "(reflect.Value).CanInterface":
		if v.t == types.Typ[types.Invalid] {
			return bad("CanInterface of the zero Value")
		}
		return one(kBool(v.ro == 0))
	case "(reflect.Value).IsValid":
		return one(kBool(v.t != types.Typ[types.Invalid]))
	case "(reflect.Value).IsNil":
		switch x := v.load(st).(type) {
		case Iface:
			return one(ifaceNil(x))
		case NilV:
			return one(kBool(true))
		case Ptr:
			return one(kBool(false))
		}
	case "(reflect.Value).String":
		if x, ok := v.load(st).(Str); ok {
			return one(x)
		}
	case "(reflect.Value).SetString":
		if v.addr == nil || v.ro != 0 {
			return bad("set of a value that cannot be set")
		}
		in.storeHook(st, *v.addr, args[1], site)
		return one()
	case "(reflect.Value).Set":
		x, ok := args[1].(RVal)
		if !ok {
			return nil
		}
		if v.addr == nil || v.ro != 0 || x.ro != 0 {
			return bad("set of a value that cannot be set")
		}
		y := x.load(st)
		if _, isI := v.t.Underlying().(*types.Interface); isI {
			if _, ok := y.(Iface); !ok {
				y = Iface{dyn: x.t, v: y}
			}
		} else if !types.Identical(v.t, x.t) {
			return bad("set with a value of type " + x.t.String())
		}
		in.storeHook(st, *v.addr, y, site)
		return one()
	}
	return nil
}
