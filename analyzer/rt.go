package main

// Models of the driver run-time package.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// havocBytes replaces byte slices inside v.
func (in *Interp) havocBytes(st *State, v Val, n *int) Val {
	switch x := v.(type) {
	case Slice:
		if x.elem != nil && isByteT(x.elem) {
			*n++
			name := "prefix"
			if *n > 1 {
				name = "prefix" + K(int64(*n)).String()
			}
			s := st.symVal(types.NewSlice(byteType), name).(Slice)
			s.nilq = BConst(false)
			return s
		}
	case Struct:
		s := Struct{typ: x.typ}
		for _, f := range x.f {
			s.f = append(s.f, in.havocBytes(st, f, n))
		}
		return s
	case Ptr:
		if x.path == "" && x.idx == nil {
			o := st.wobj(x.obj)
			if !o.isq && o.kind == "" {
				o.val = in.havocBytes(st, o.val, n)
			}
		}
	}
	return v
}

// dirty makes every byte slice and error inside v arbitrary.
func (in *Interp) dirty(st *State, v Val, t types.Type, n *int) Val {
	if types.Identical(t, errorType) {
		return st.symVal(t, st.fresh("earlier"))
	}
	switch x := v.(type) {
	case Slice:
		if x.elem != nil && isByteT(x.elem) {
			*n++
			c := VarB(st.fresh("oldcap"), big0, maxLen)
			l := VarB(st.fresh("oldlen"), big0, maxLen)
			st.facts.assumeGe0(Sub(c, l))
			id := st.newObj(&Obj{isq: true, typ: x.elem, seq: []Seg{segJunk(c)}})
			return Slice{obj: id, off: K(0), len: l, cap: c, nilq: BConst(false), elem: x.elem}
		}
	case Struct:
		s := Struct{typ: x.typ}
		u := x.typ.Underlying().(*types.Struct)
		for i, f := range x.f {
			s.f = append(s.f, in.dirty(st, f, u.Field(i).Type(), n))
		}
		return s
	case Ptr:
		if x.path == "" && x.idx == nil {
			o := st.wobj(x.obj)
			if !o.isq && o.kind == "" {
				o.val = in.dirty(st, o.val, o.typ, n)
			}
		}
	}
	return v
}

func init() {
	intrinsics["xtadrv/rt.Dirty"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		n := 0
		v := a[0]
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		in.dirty(st, v, types.Typ[types.Invalid], &n)
		if n == 0 {
			undec("no byte buffer found in the builder")
		}
		return one(st), true
	}
	intrinsics["xtadrv/rt.Havoc"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		n := 0
		v := a[0]
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		in.havocBytes(st, v, &n)
		if n == 0 {
			undec("no byte buffer found in the builder")
		}
		return one(st), true
	}
	intrinsics["xtadrv/rt.Event"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		name, ok := st.litOf(a[0].(Str).seq)
		if !ok {
			undec("event name")
		}
		var args []Val
		for _, v := range variadic(st, a[1]) {
			if i, ok := v.(Iface); ok && !(name == "result" && keepIface(i)) {
				v = i.v
			}
			args = append(args, v)
		}
		e := st.event(name, args...)
		e.pos = in.pos(pos)
		return one(st), true
	}
	intrinsics["xtadrv/rt.Err"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		name, _ := st.litOf(a[0].(Str).seq)
		return one(st, SymV{name: "!err:" + name, typ: errorType}), true
	}
	intrinsics["xtadrv/rt.Out"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		b := a[0].(Slice)
		e := st.event("out", b)
		e.seq = st.compact(st.content(b))
		return one(st), true
	}
	intrinsics["xtadrv/rt.sinkSend"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		b := a[1].(Slice)
		q := st.content(b)
		e := st.event("sent", a[0], b)
		e.seq = st.compact(q)
		sig := fn.Signature
		return one(st, st.symVal(sig.Results().At(0).Type(), "responses"), SymV{name: "sinkerr", typ: errorType}), true
	}
}

// keepIface: results whose dynamic type matters.
func keepIface(i Iface) bool {
	_, ptr := i.v.(Ptr)
	return ptr || types.Implements(i.typ, errorType.Underlying().(*types.Interface))
}
