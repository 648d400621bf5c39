package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{ key() string }

// Num is an integer or rune.
type Num struct{ l Lin }

// BoolV is a condition. Kinds: constant, linear (l <= 0 or l == 0), atom, conjunction; possibly negated.
type BoolV struct {
	kind byte // 'c' const, 'l' l<=0, 'e' l==0, 'a' atom, '&' conjunction
	c    bool
	l    Lin
	atom *Atom
	sub  []BoolV
	neg  bool
}

// Atom is an uninterpreted predicate over values.
type Atom struct {
	name string
	args []Val
}

func (a *Atom) key() string { return a.name + "(" + keys(a.args) + ")" }

// StrBase is an abstract string content, symbolic or constant.
type StrBase struct {
	id      int
	name    string
	isK     bool
	konst   string
	len     Lin
	parts   []Str // concatenation
	itoa    *Lin  // the integer it is the decimal form of
	loopAny string
	key     string // interning key of a symbolic string
	runes   []Val  // the runes, if their number is fixed
	widths  []Lin
}

// Str is base[lo:hi].
type Str struct {
	b      *StrBase
	lo, hi Lin
}

// ObjID names an abstract heap object.
type ObjID int

// Ptr points to a cell (or sub structure) of an object.
type Ptr struct {
	obj  ObjID
	path string
	idx  *Lin // element pointer: index into an array object
	sub  string
}

// SliceV is a window of an array object.
type SliceV struct {
	arr    ObjID
	lo, hi Lin
	nilS   bool
}

// Iface is an interface value: known nil, known dynamic type, or symbolic.
type Iface struct {
	isNil bool
	dyn   types.Type
	v     Val
	sym   string // symbolic identity
	nn    bool   // symbolic but known to be non-nil
	kind  string // "reader": implements Reader, "other": neither rune, string nor reader
	txt   *Str   // text of a formatted error
}

// FuncV is a function value, known or symbolic.
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	sym   string
	isNil bool
	typ   types.Type
}

// StructV is a struct value, one Val per field.
type StructV struct{ f []Val }

// TupleV is a multi value.
type TupleV struct{ f []Val }

// NilPtr is a nil pointer, slice, map.
type NilV struct{}

// Opaque is an unmodelled value with an identity.
type Opaque struct{ id string }

// IterV is a range iterator over a string, its offset lives in the heap.
type IterV struct {
	obj ObjID
	str Str
}

func (v Num) key() string { return v.l.String() }
func (v Str) key() string { return "s" + v.b.name + v.lo.String() + v.hi.String() }
func (v Ptr) key() string {
	if v.idx != nil {
		return fmt.Sprintf("p%d[%s]%s", v.obj, v.idx.String(), v.sub)
	}
	return fmt.Sprintf("p%d%s", v.obj, v.path)
}
func (v SliceV) key() string {
	if v.nilS {
		return "nilslice"
	}
	return fmt.Sprintf("sl%d%s%s", v.arr, v.lo, v.hi)
}
func (v Iface) key() string {
	if v.isNil {
		return "nil"
	}
	if v.dyn != nil {
		return "i(" + types.TypeString(v.dyn, nil) + ":" + v.v.key() + ")"
	}
	return "i:" + v.sym
}
func (v FuncV) key() string {
	if v.isNil {
		return "nilfunc"
	}
	if v.fn != nil {
		k := []string{}
		for _, b := range v.binds {
			k = append(k, b.key())
		}
		return "f:" + v.fn.String() + "(" + strings.Join(k, ",") + ")"
	}
	return "f:" + v.sym
}
func keys(vs []Val) string {
	k := make([]string, len(vs))
	for i, v := range vs {
		if v == nil {
			k[i] = "?"
		} else {
			k[i] = v.key()
		}
	}
	return strings.Join(k, ",")
}
func (v StructV) key() string { return "{" + keys(v.f) + "}" }
func (v TupleV) key() string  { return "(" + keys(v.f) + ")" }
func (v NilV) key() string    { return "nil" }
func (v Opaque) key() string  { return "o:" + v.id }
func (v IterV) key() string   { return fmt.Sprintf("it%d:%s", v.obj, v.str.key()) }
func (v BoolV) key() string {
	n := ""
	if v.neg {
		n = "!"
	}
	switch v.kind {
	case 'c':
		return fmt.Sprint(v.c != v.neg)
	case 'l':
		return n + v.l.String() + "<=0"
	case 'e':
		return n + v.l.String() + "==0"
	case 'a':
		return n + v.atom.key()
	}
	k := []string{}
	for _, s := range v.sub {
		k = append(k, s.key())
	}
	return n + "&(" + strings.Join(k, ",") + ")"
}

func kBool(b bool) BoolV { return BoolV{kind: 'c', c: b} }
func atomB(name string, args ...Val) BoolV {
	return BoolV{kind: 'a', atom: &Atom{name, args}}
}
func leB(l Lin) BoolV         { return BoolV{kind: 'l', l: l} }
func eqB(l Lin) BoolV         { return BoolV{kind: 'e', l: l} }
func (v BoolV) not() BoolV    { v.neg = !v.neg; return v }
func andB(bs ...BoolV) BoolV  { return BoolV{kind: '&', sub: bs} }
func num(k int64) Num         { return Num{konst(k)} }
func (s Str) length() Lin     { return s.hi.sub(s.lo) }
func (s *StrBase) whole() Str { return Str{s, konst(0), s.len} }

var strBases []*StrBase
var constBases = map[string]*StrBase{}

func newStrBase(name string, ln Lin) *StrBase {
	b := &StrBase{id: len(strBases), name: fmt.Sprintf("%s#%d", name, len(strBases)), len: ln}
	strBases = append(strBases, b)
	return b
}

func constStr(s string) Str {
	b, ok := constBases[s]
	if !ok {
		b = &StrBase{id: len(strBases), name: fmt.Sprintf("%q", s), isK: true, konst: s, len: konst(int64(len(s)))}
		strBases = append(strBases, b)
		constBases[s] = b
	}
	return b.whole()
}

func (s Str) constVal() (string, bool) {
	if s.b.isK && s.lo.isConst() && s.hi.isConst() && 0 <= s.lo.c && s.lo.c <= s.hi.c && s.hi.c <= int64(len(s.b.konst)) {
		return s.b.konst[s.lo.c:s.hi.c], true
	}
	return "", false
}

// Obj is an abstract heap object. Cells are keyed by field path (".0.1") or, for arrays, "[<lin>]path".
// A missing cell of a symbolic object has the value it had at the beginning (interned).
type Obj struct {
	id     ObjID
	typ    types.Type
	fresh  bool // allocated during the analysis (zero valued)
	local  bool // never escapes to opaque code
	name   string
	cells  map[string]Val
	elems  []elemCell
	parent *SliceV // array made by append: the first elements are those of parent
	plen   Lin
	havoc  int     // generation of the initial values
	any    bool    // anything may have been written: every load gives a new value
	tail   *SliceV // appended slice of unknown length
}

type elemCell struct {
	idx Lin
	sub string
	v   Val
}

func (o *Obj) clone() *Obj {
	n := *o
	n.elems = append([]elemCell(nil), o.elems...)
	n.cells = make(map[string]Val, len(o.cells))
	for k, v := range o.cells {
		n.cells[k] = v
	}
	return &n
}

func constVal(c *ssa.Const) Val {
	t := c.Type().Underlying()
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch b := t.(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return kBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return constStr(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			const lim = 1 << 60
			if i, ok := constant.Int64Val(v); ok && i <= lim && i >= -lim {
				return num(i)
			}
			return Num{bigLin(v)}
		}
	}
	return Opaque{"const:" + c.String()}
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return kBool(false)
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Info()&types.IsInteger != 0:
			return num(0)
		case u.Kind() == types.UntypedNil:
			return Iface{isNil: true}
		}
		return Opaque{"zero:" + u.String()}
	case *types.Interface:
		return Iface{isNil: true}
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 64 {
			s := StructV{}
			for i := int64(0); i < u.Len(); i++ {
				s.f = append(s.f, zeroVal(u.Elem()))
			}
			return s
		}
		return Opaque{"zero:" + u.String()}
	case *types.Slice:
		return SliceV{nilS: true, lo: konst(0), hi: konst(0), arr: -1}
	case *types.Signature:
		return FuncV{isNil: true, typ: t}
	case *types.Tuple:
		s := TupleV{}
		for i := 0; i < u.Len(); i++ {
			s.f = append(s.f, zeroVal(u.At(i).Type()))
		}
		return s
	}
	return NilV{}
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
