package main

// Symbolic values of Go types, and what facts about them imply.

import (
	"go/types"
	"math/big"
	"strings"
)

// Model is a reference to a modelled external object.
type Model struct {
	kind string
	obj  int
	typ  types.Type
}

var idxMax = pow2(40)

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// opaqueStruct: struct types treated as one opaque value.
func opaqueStruct(t types.Type) bool {
	if isTime(t) {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if p == "reflect" {
		return true
	}
	return false
}

// symVal makes "any value of type t", named.
func (st *State) symVal(t types.Type, name string) Val {
	if opaqueStruct(t) {
		return SymV{name: name, typ: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BAtom(name)
		case u.Info()&types.IsInteger != 0:
			lo, hi := typeRange(t)
			return VarB(name, lo, hi)
		case u.Info()&types.IsString != 0:
			n := lenVar(name)
			s := mkSym(name, n, nil)
			return Str{[]Seg{segSrc(s, K(0), n)}}
		case u.Info()&types.IsFloat != 0:
			return Float{name: name}
		}
		return SymV{name: name, typ: t}
	case *types.Slice:
		n := lenVar(name)
		c := VarB("cap("+name+")", big0, pow2(31))
		st.facts.assumeGe0(Sub(c, n))
		var el types.Type
		if !isByteT(u.Elem()) {
			el = u.Elem()
		}
		key := "slice:" + name
		var id int
		if g, ok := st.ghost[key]; ok {
			id = g.(Ptr).obj
		} else {
			s := mkSym(name, n, el)
			id = st.newObj(&Obj{isq: true, typ: u.Elem(), name: name, seq: []Seg{segSrc(s, K(0), n), segJunk(Sub(c, n))}})
			st.ghost[key] = Ptr{obj: id}
		}
		return Slice{obj: id, off: K(0), len: n, cap: c, nilq: BAtom("nil:" + name), elem: u.Elem()}
	case *types.Struct:
		s := Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, st.symVal(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Array:
		var el types.Type
		if !isByteT(u.Elem()) {
			el = u.Elem()
		}
		s := mkSym(name, K(u.Len()), el)
		return ArrV{seq: []Seg{segSrc(s, K(0), K(u.Len()))}, typ: t}
	case *types.Pointer:
		key := "ptr:" + name
		if g, ok := st.ghost[key]; ok {
			return g
		}
		o := &Obj{kind: "lazy", typ: u.Elem(), name: name}
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			av := st.symVal(u.Elem(), "*"+name).(ArrV)
			o = &Obj{isq: true, typ: at.Elem(), seq: av.seq, name: name}
			id := st.newObj(o)
			v := Ptr{obj: id, typ: t, path: "@", nilq: BAtom("nil:" + name)}
			st.ghost[key] = v
			return v
		}
		id := st.newObj(o)
		v := Ptr{obj: id, typ: t, nilq: BAtom("nil:" + name)}
		st.ghost[key] = v
		return v
	case *types.Map:
		key := "map:" + name
		if g, ok := st.ghost[key]; ok {
			return g
		}
		id := st.newObj(&Obj{kind: "symmap", typ: t, name: name, x: map[string]Val{}})
		v := MapV{id}
		st.ghost[key] = v
		return v
	case *types.Tuple:
		tu := Tuple{}
		for i := 0; i < u.Len(); i++ {
			tu.f = append(tu.f, st.symVal(u.At(i).Type(), name+"."+K(int64(i)).String()))
		}
		return tu
	}
	return SymV{name: name, typ: t}
}

// symElem is element off of a symbolic list.
func (st *State) symElem(s *Sym, off *Lin) Val {
	return st.symVal(s.elem, elemName(s, off))
}

func elemName(s *Sym, off *Lin) string { return s.name + "[" + off.String() + "]" }

func (in *Interp) materialise(st *State, id int) {
	o := st.obj(id)
	v := st.symVal(o.typ, "*"+o.name)
	w := st.wobj(id)
	w.kind = ""
	w.val = v
}

// boolHook derives consequences of a newly assumed atomic condition.
func (st *State) boolHook(key string, val bool) bool {
	switch {
	case strings.HasPrefix(key, "nil:"):
		name := key[4:]
		if val {
			if tf := st.types[name]; tf != nil && tf.is != nil {
				return false
			}
			if a, ok := atomTab["len("+name+")"]; ok {
				if !st.facts.assumeEq0(linAtom(a)) {
					return false
				}
				if c, ok := atomTab["cap("+name+")"]; ok {
					return st.facts.assumeEq0(linAtom(c))
				}
			}
		}
	case strings.HasPrefix(key, "dyn:"):
		rest := key[4:]
		i := strings.LastIndex(rest, "|")
		name, tn := rest[:i], rest[i+1:]
		old := st.types[name]
		nt := &typeFact{}
		if old != nil {
			*nt = *old
		}
		if val {
			if old != nil && old.is != nil {
				return old.is.String() == tn
			}
			nt.is = typeByName[tn]
			if nt.is == nil {
				undec("type %s not registered", tn)
			}
			if v, ok := st.bools["nil:"+name]; ok && v {
				return false
			}
		}
		st.types[name] = nt
	}
	return true
}

// finiteEq compares two values by enumerating one small-range atom they both depend on.
func (st *State) finiteEq(a, b *Lin) bool {
	ats := map[*Atom]bool{}
	leaves(a, ats)
	leaves(b, ats)
	var free []*Atom
	for x := range ats {
		iv := st.facts.atomItv(x)
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
			continue
		}
		free = append(free, x)
	}
	if len(free) != 1 {
		return false
	}
	x := free[0]
	iv := st.facts.atomItv(x)
	if iv.lo == nil || iv.hi == nil || new(big.Int).Sub(iv.hi, iv.lo).Cmp(bi(4096)) > 0 {
		return false
	}
	for v := new(big.Int).Set(iv.lo); v.Cmp(iv.hi) <= 0; v = new(big.Int).Add(v, big1) {
		p, ok1 := st.evalLin(a, x, v)
		q, ok2 := st.evalLin(b, x, v)
		if !ok1 || !ok2 {
			return false
		}
		if p.Cmp(q) != 0 {
			return false
		}
	}
	return true
}

// leaves collects the atoms a value depends on, treating mod atoms and free symbols as leaves.
func leaves(l *Lin, m map[*Atom]bool) { leaves1(l, m, map[*Atom]bool{}) }

func leaves1(l *Lin, m, seen map[*Atom]bool) {
	for _, t := range l.t {
		a := t.a
		if seen[a] {
			continue
		}
		seen[a] = true
		switch {
		case a.kind == ATable, a.kind == ADiv, a.kind == ABitLen:
			leaves1(a.args[0], m, seen)
		case a.kind == ABV:
			for _, b := range a.bits {
				for _, x := range b.xs {
					leaves1(x.l, m, seen)
				}
			}
		default:
			m[a] = true
		}
	}
}

// evalLin evaluates l with x = v; all other leaves must be constant under the facts.
func (st *State) evalLin(l *Lin, x *Atom, v *big.Int) (*big.Int, bool) {
	r := new(big.Int).Set(l.c)
	for _, t := range l.t {
		y, ok := st.evalAtom(t.a, x, v)
		if !ok {
			return nil, false
		}
		r.Add(r, new(big.Int).Mul(t.c, y))
	}
	return r, true
}

func (st *State) evalAtom(a, x *Atom, v *big.Int) (*big.Int, bool) {
	if a == x {
		return v, true
	}
	switch a.kind {
	case ATable:
		i, ok := st.evalLin(a.args[0], x, v)
		if !ok || i.Sign() < 0 || i.Cmp(bi(int64(len(a.str)))) >= 0 {
			return nil, false
		}
		return bi(int64(a.str[i.Int64()])), true
	case ADiv:
		i, ok := st.evalLin(a.args[0], x, v)
		if !ok {
			return nil, false
		}
		return new(big.Int).Quo(i, a.k), true
	case ABitLen:
		i, ok := st.evalLin(a.args[0], x, v)
		if !ok || i.Sign() < 0 {
			return nil, false
		}
		return bi(int64(i.BitLen())), true
	case ABV:
		r := new(big.Int)
		for k, b := range a.bits {
			w := b.c
			for _, ref := range b.xs {
				i, ok := st.evalLin(ref.l, x, v)
				if !ok {
					return nil, false
				}
				if i.Sign() < 0 {
					i = new(big.Int).Add(i, pow2(i.BitLen()+ref.i+2))
				}
				w ^= uint8(i.Bit(ref.i))
			}
			r.SetBit(r, k, uint(w))
		}
		return r, true
	}
	iv := st.facts.atomItv(a)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
		return iv.lo, true
	}
	return nil, false
}
