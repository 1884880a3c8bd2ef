package main

// Values of single instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	default:
		return 64, false, true
	}
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	w, s, _ := intInfo(t)
	if s {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)
	}
	return big0, new(big.Int).Sub(pow2(w), big1)
}

// fit reduces a mathematical result to the type, splitting on overflow.
func (st *State) fit(l *Lin, t types.Type) *Lin {
	lo, hi := typeRange(t)
	iv := st.facts.bound(l)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return l
	}
	w, signed, _ := intInfo(t)
	if iv.lo != nil && iv.hi != nil {
		m := pow2(w)
		// at most one wrap to either side
		if iv.lo.Cmp(new(big.Int).Sub(lo, m)) >= 0 && iv.hi.Cmp(new(big.Int).Add(hi, m)) <= 0 {
			if iv.hi.Cmp(hi) > 0 {
				if st.decide(BGe(addScaled(l, KB(new(big.Int).Add(hi, big1)), bi(-1)))) {
					return Sub(l, KB(m))
				}
			}
			if iv.lo.Cmp(lo) < 0 {
				if !st.decide(BGe(addScaled(l, KB(lo), bi(-1)))) {
					return Add(l, KB(m))
				}
			}
			return l
		}
	}
	return fromBits(bitsOf(l, w), signed)
}

// fromBits builds the value of a w-bit vector.
func fromBits(bits []Bit, signed bool) *Lin {
	if !signed {
		return mkBV(bits)
	}
	w := len(bits)
	top := bits[w-1]
	if top.isConst() && top.c == 0 {
		return mkBV(bits)
	}
	// all bits equal to the sign: -b
	same := true
	for _, b := range bits {
		if b.key() != top.key() {
			same = false
			break
		}
	}
	if same {
		return Neg(mkBV([]Bit{top}))
	}
	// bits of one signed source
	if b := bits[0]; b.c == 0 && len(b.xs) == 1 && b.xs[0].i == 0 {
		l := b.xs[0].l
		lo, hi := staticBounds(l)
		if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(pow2(w-1))) >= 0 && hi.Cmp(pow2(w-1)) < 0 {
			ok := true
			for i := range bits {
				if bits[i].key() != bitOf(l, i).key() {
					ok = false
					break
				}
			}
			if ok {
				return l
			}
		}
	}
	if top.isConst() {
		return Sub(mkBV(bits), KB(pow2(w)))
	}
	return addScaled(mkBV(bits), mkBV([]Bit{top}), new(big.Int).Neg(pow2(w)))
}

func (st *State) convInt(l *Lin, to types.Type) *Lin {
	lo, hi := typeRange(to)
	iv := st.facts.bound(l)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return l
	}
	w, s, _ := intInfo(to)
	return fromBits(bitsOf(l, w), s)
}

func (st *State) asLin(v Val) *Lin {
	switch x := v.(type) {
	case *Lin:
		return x
	case zeroUnit:
		return K(0)
	case junkUnit:
		return VarB(st.fresh("junk"), big0, bi(255))
	case opqUnit:
		return VarB("opq("+x.o.ident()+"@"+x.off.key+")", big0, bi(255))
	case Top:
		lo, hi := typeRange(x.typ)
		return VarB(st.fresh("top"), lo, hi)
	}
	undec("not an integer: %s", valStr(v))
	return nil
}

func (in *Interp) binop(st *State, op token.Token, x, y Val, xt, t types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		b := in.equal(st, x, y)
		if op == token.NEQ {
			return b.Not()
		}
		return b
	}
	if b, ok := x.(Bool); ok {
		c := y.(Bool)
		switch op {
		case token.AND, token.LAND:
			if st.decide(b) {
				return c
			}
			return BConst(false)
		case token.OR, token.LOR:
			if st.decide(b) {
				return BConst(true)
			}
			return c
		}
	}
	if s, ok := x.(Str); ok {
		u, ok := y.(Str)
		if !ok {
			return Top{t}
		}
		switch op {
		case token.ADD:
			return Str{st.compact(append(append([]Seg{}, s.seq...), u.seq...))}
		default:
			a, o1 := st.litOf(s.seq)
			b, o2 := st.litOf(u.seq)
			if o1 && o2 {
				switch op {
				case token.LSS:
					return BConst(a < b)
				case token.LEQ:
					return BConst(a <= b)
				case token.GTR:
					return BConst(a > b)
				case token.GEQ:
					return BConst(a >= b)
				}
			}
			return BAtom("strcmp:" + op.String() + valKey(x) + "|" + valKey(y))
		}
	}
	if _, _, ok := intInfo(xt); !ok {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return BAtom("cmp:" + op.String() + valKey(x) + "|" + valKey(y))
		}
		return Float{name: "(" + valKey(x) + op.String() + valKey(y) + ")"}
	}
	a, b := st.asLin(x), st.asLin(y)
	switch op {
	case token.LSS:
		return BGe(AddK(Sub(b, a), -1))
	case token.LEQ:
		return BGe(Sub(b, a))
	case token.GTR:
		return BGe(AddK(Sub(a, b), -1))
	case token.GEQ:
		return BGe(Sub(a, b))
	case token.ADD:
		return st.fit(Add(a, b), t)
	case token.SUB:
		return st.fit(Sub(a, b), t)
	case token.MUL:
		return st.fit(st.mul(a, b), t)
	case token.QUO, token.REM:
		return st.fit(st.quorem(a, b, op == token.REM), t)
	case token.SHL, token.SHR:
		return st.shift(a, b, op == token.SHL, t)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return st.bitop(op, a, b, t)
	}
	undec("binop %s", op)
	return nil
}

func (st *State) mul(a, b *Lin) *Lin {
	if c := st.facts.constOf(b); c != nil {
		return MulK(a, c)
	}
	if c := st.facts.constOf(a); c != nil {
		return MulK(b, c)
	}
	return mulAtom(st, a, b)
}

// mulAtom expands a product of linear forms into atom products.
func mulAtom(st *State, a, b *Lin) *Lin {
	r := K(0)
	r = addScaled(r, b, a.c)
	for _, t := range a.t {
		if b.c.Sign() != 0 {
			r = addScaled(r, linAtom(t.a), new(big.Int).Mul(t.c, b.c))
		}
		for _, u := range b.t {
			x, y := linAtom(t.a), linAtom(u.a)
			if y.key < x.key {
				x, y = y, x
			}
			// static bounds only: the atom is shared by all paths
			ix, iy := x.t[0].a, y.t[0].a
			var lo, hi *big.Int
			if ix.lo != nil && iy.lo != nil && ix.lo.Sign() >= 0 && iy.lo.Sign() >= 0 {
				lo = big0
				if ix.hi != nil && iy.hi != nil {
					hi = new(big.Int).Mul(ix.hi, iy.hi)
				}
			}
			m := fnAtom("mul", lo, hi, x, y)
			r = addScaled(r, m, new(big.Int).Mul(t.c, u.c))
		}
	}
	return r
}

// asMod recognises x - k*div(x,k).
func asMod(l *Lin) *Lin {
	for _, t := range l.t {
		if t.a.kind == ADiv && t.c.Sign() < 0 && new(big.Int).Neg(t.c).Cmp(t.a.k) == 0 {
			rest := addScaled(l, linAtom(t.a), new(big.Int).Neg(t.c))
			if rest == t.a.args[0] {
				return modAtom(rest, t.a.k)
			}
		}
	}
	return l
}

func modAtom(l *Lin, k *big.Int) *Lin {
	return fnAtom("mod", big0, new(big.Int).Sub(k, big1), l, KB(k))
}

func (st *State) quorem(a, b *Lin, rem bool) *Lin {
	k := st.facts.constOf(b)
	if k == nil {
		if y, n := st.facts.isEq0(b); y || !n {
			if st.decide(BEq(b)) {
				panic(goPanic{msg: "integer divide by zero"})
			}
		}
		name := "quo"
		if rem {
			name = "rem"
		}
		return fnAtom(name, nil, nil, a, b)
	}
	if k.Sign() == 0 {
		panic(goPanic{msg: "integer divide by zero"})
	}
	if k.Sign() < 0 {
		if rem {
			return st.quorem(a, KB(new(big.Int).Neg(k)), true)
		}
		return Neg(st.quorem(a, KB(new(big.Int).Neg(k)), false))
	}
	if c := st.facts.constOf(a); c != nil {
		q, r := new(big.Int).QuoRem(c, k, new(big.Int))
		if rem {
			return KB(r)
		}
		return KB(q)
	}
	// sign of the dividend
	if !st.decide(BGe(a)) {
		// trunc(-x/k) = -trunc(x/k)
		return Neg(st.quorem(Neg(a), b, rem))
	}
	a = asMod(a)
	iv := st.facts.bound(a)
	if iv.hi != nil && iv.hi.Cmp(k) < 0 {
		if rem {
			return a
		}
		return K(0)
	}
	// power of two on a plain bit source
	if k.Cmp(big1) == 0 {
		if rem {
			return K(0)
		}
		return a
	}
	if pw := k.BitLen() - 1; pow2(pw).Cmp(k) == 0 && iv.hi != nil && iv.hi.BitLen() <= 64 && !hasBitLen(a) {
		w := 64
		bits := bitsOf(a, w)
		if rem {
			return mkBV(bits[:pw])
		}
		return mkBV(bits[pw:])
	}
	at := a.single()
	if rem {
		// mod(mod(x, k*m), k) = mod(x, k)
		if at != nil && at.kind == AFn && at.str == "mod" && new(big.Int).Rem(at.args[1].c, k).Sign() == 0 {
			return st.quorem(at.args[0], b, true)
		}
		return modAtom(a, k)
	}
	if at != nil && at.kind == ADiv {
		return divAtom(at.args[0], new(big.Int).Mul(at.k, k))
	}
	if at != nil && at.kind == AFn && at.str == "mod" {
		m := at.args[1].c
		if q, r := new(big.Int).QuoRem(m, k, new(big.Int)); r.Sign() == 0 {
			return st.quorem(divAtom(at.args[0], k), KB(q), true)
		}
	}
	// (k*x + c)/k
	return divAtom(a, k)
}

func hasBitLen(l *Lin) bool {
	for _, t := range l.t {
		if t.a.kind == ABitLen {
			return true
		}
	}
	return false
}

func (st *State) shift(a, b *Lin, left bool, t types.Type) *Lin {
	w, signed, _ := intInfo(t)
	c := st.facts.constOf(b)
	if c == nil {
		iv := st.facts.bound(b)
		if iv.lo != nil && iv.hi != nil && len(b.t) == 1 && new(big.Int).Sub(iv.hi, iv.lo).Cmp(bi(80)) <= 0 {
			k := b.t[0].a
			kv := st.facts.bound(linAtom(k))
			panic(enumReq{k, kv.lo.Int64(), kv.hi.Int64()})
		}
		lo, hi := typeRange(t)
		return fnAtom(map[bool]string{true: "shl", false: "shr"}[left], lo, hi, a, b)
	}
	if c.Sign() < 0 {
		panic(goPanic{msg: "negative shift amount"})
	}
	k := w
	if c.Cmp(bi(int64(w))) < 0 {
		k = int(c.Int64())
	}
	iv := st.facts.bound(a)
	lo, hi := typeRange(t)
	if left {
		if iv.lo != nil && iv.hi != nil && new(big.Int).Lsh(iv.lo, uint(k)).Cmp(lo) >= 0 && new(big.Int).Lsh(iv.hi, uint(k)).Cmp(hi) <= 0 {
			return MulK(a, pow2(k))
		}
		bits := make([]Bit, w)
		for i := k; i < w; i++ {
			bits[i] = bitOf(a, i-k)
		}
		return fromBits(bits, signed)
	}
	if hasBitLen(a) && k < w {
		return st.quorem(a, KB(pow2(k)), false)
	}
	bits := make([]Bit, w)
	for i := range bits {
		j := i + k
		if j >= w {
			if signed {
				j = w - 1
			} else {
				continue
			}
		}
		bits[i] = bitOf(a, j)
	}
	return fromBits(bits, signed)
}

func (st *State) bitop(op token.Token, a, b *Lin, t types.Type) *Lin {
	w, signed, _ := intInfo(t)
	x, y := bitsOf(a, w), bitsOf(b, w)
	r := make([]Bit, w)
	for i := range r {
		switch op {
		case token.AND:
			r[i] = andBit(x[i], y[i])
		case token.OR:
			r[i] = orBit(x[i], y[i])
		case token.XOR:
			r[i] = xorBit(x[i], y[i])
		case token.AND_NOT:
			r[i] = andBit(x[i], notBit(y[i]))
		}
	}
	return fromBits(r, signed)
}

// equal compares two values of the same (or interface) type.
func (in *Interp) equal(st *State, x, y Val) Bool {
	switch a := x.(type) {
	case *Lin:
		return BEq(Sub(a, st.asLin(y)))
	case Bool:
		b := y.(Bool)
		v := st.decide(a)
		if v {
			return b
		}
		return b.Not()
	case Str:
		b, ok := y.(Str)
		if !ok {
			break
		}
		return in.strEq(st, a.seq, b.seq)
	case ArrV:
		b := y.(ArrV)
		return in.strEq(st, a.seq, b.seq)
	case Slice:
		if _, ok := y.(Slice); ok || isNil(y) {
			if s, ok := y.(Slice); ok && !(s.nilq.op == 0 && s.nilq.v) {
				return s.nilq
			}
			return a.nilq
		}
	case Struct:
		b := y.(Struct)
		for i := range a.f {
			if !st.decide(in.equal(st, a.f[i], b.f[i])) {
				return BConst(false)
			}
		}
		return BConst(true)
	case Float:
		if f, ok := y.(Float); ok && f.name == a.name {
			return BConst(true)
		}
		return BAtom("feq:" + a.name + "|" + valKey(y))
	}
	// pointers, interfaces, funcs
	if isNil(x) {
		x, y = y, x
	}
	if isNil(y) {
		return st.nilTest(x)
	}
	switch a := x.(type) {
	case Ptr:
		if b, ok := y.(Ptr); ok {
			same := a.obj == b.obj && a.path == b.path && (a.idx == nil) == (b.idx == nil)
			if same && a.idx != nil {
				return BEq(Sub(a.idx, b.idx))
			}
			return BConst(same)
		}
	case ChanV:
		if b, ok := y.(ChanV); ok {
			return BConst(a.obj == b.obj)
		}
	case Iface:
		if b, ok := y.(Iface); ok {
			if !types.Identical(a.typ, b.typ) {
				return BConst(false)
			}
			return in.equal(st, a.v, b.v)
		}
		if b, ok := y.(SymV); ok {
			if strings.HasPrefix(b.name, "!") {
				return BConst(false)
			}
			return BAtom("ieq:" + valKey(a) + "|" + b.name)
		}
	case SymV:
		if b, ok := y.(SymV); ok {
			if a.name == b.name {
				return BConst(true)
			}
			if strings.HasPrefix(a.name, "!") && strings.HasPrefix(b.name, "!") {
				return BConst(false)
			}
			n, m := a.name, b.name
			if m < n {
				n, m = m, n
			}
			return BAtom("ieq:" + n + "|" + m)
		}
		if _, ok := y.(Iface); ok {
			return in.equal(st, y, x)
		}
	}
	return BAtom("eq:" + valKey(x) + "|" + valKey(y))
}

func isNil(v Val) bool {
	switch x := v.(type) {
	case Nil:
		return true
	case Slice:
		return x.nilq.op == 0 && x.nilq.v
	}
	return false
}

func (st *State) nilTest(x Val) Bool {
	switch a := x.(type) {
	case Nil:
		return BConst(true)
	case Ptr:
		return a.nilq
	case Slice:
		return a.nilq
	case Iface, Closure, ChanV, MapV, Model:
		return BConst(false)
	case SymV:
		if strings.HasPrefix(a.name, "!") {
			return BConst(false)
		}
		if tf := st.types[a.name]; tf != nil && tf.is != nil {
			return BConst(false)
		}
		return BAtom("nil:" + a.name)
	}
	return BAtom("nil:" + valKey(x))
}

func (in *Interp) strEq(st *State, a, b []Seg) Bool {
	x, o1 := st.litOf(a)
	y, o2 := st.litOf(b)
	if o1 && o2 {
		return BConst(x == y)
	}
	la, lb := seqLen(a), seqLen(b)
	d := Sub(la, lb)
	if _, n := st.facts.isEq0(d); n {
		return BConst(false)
	}
	if st.sameSeq(a, b) {
		return BConst(true)
	}
	// comparing with the empty string is a length test
	if o1 && x == "" {
		return BEq(lb)
	}
	if o2 && y == "" {
		return BEq(la)
	}
	// small constant strings: compare byte by byte
	return BAtom("streq:" + seqKey(a) + "|" + seqKey(b))
}

func (in *Interp) unop(p *Path, x *ssa.UnOp) Val {
	v := in.val(p, x.X)
	switch x.Op {
	case token.MUL:
		if in.pool != nil {
			if ptr, ok := v.(Ptr); ok {
				in.pool.onAccess(in, p.st, ptr, false, in.pos(x.Pos()))
			}
		}
		return in.load(p.st, v)
	case token.NOT:
		return v.(Bool).Not()
	case token.SUB:
		if f, ok := v.(Float); ok {
			return Float{name: "-" + f.name}
		}
		return p.st.fit(Neg(p.st.asLin(v)), x.Type())
	case token.XOR:
		w, s, _ := intInfo(x.Type())
		b := bitsOf(p.st.asLin(v), w)
		for i := range b {
			b[i] = notBit(b[i])
		}
		return fromBits(b, s)
	}
	undec("unop %s", x.Op)
	return nil
}

// value computes the remaining value instructions.
func (in *Interp) value(p *Path, v ssa.Value) Val {
	st := p.st
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return in.alloc(st, t, x.Comment)
	case *ssa.BinOp:
		return in.binop(st, x.Op, in.val(p, x.X), in.val(p, x.Y), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		return retype(in.val(p, x.X), x.Type())
	case *ssa.ChangeInterface:
		return in.val(p, x.X)
	case *ssa.Convert:
		return in.convert(st, in.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return in.convert(st, in.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t, ok := in.val(p, x.Tuple).(Tuple)
		if !ok || x.Index >= len(t.f) {
			undec("extract from %s", valStr(in.val(p, x.Tuple)))
		}
		return t.f[x.Index]
	case *ssa.Field:
		return in.field(st, in.val(p, x.X), x.Field)
	case *ssa.FieldAddr:
		return in.fieldAddr(st, in.val(p, x.X), x.Field, x.Type())
	case *ssa.Index:
		return in.index(st, in.val(p, x.X), st.asLin(in.val(p, x.Index)), x.Type())
	case *ssa.IndexAddr:
		return in.indexAddr(st, in.val(p, x.X), st.asLin(in.val(p, x.Index)), x.Type())
	case *ssa.Lookup:
		return in.lookup(st, in.val(p, x.X), in.val(p, x.Index), x.CommaOk, x.Type())
	case *ssa.MakeChan:
		n := st.asLin(in.val(p, x.Size))
		o := &Obj{kind: "chan", typ: x.Type(), x: map[string]Val{"cap": n, "closed": BConst(false)}}
		id := st.newObj(o)
		return ChanV{id}
	case *ssa.MakeClosure:
		c := Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.b = append(c.b, in.val(p, b))
		}
		return c
	case *ssa.MakeInterface:
		return Iface{typ: x.X.Type(), v: in.val(p, x.X)}
	case *ssa.MakeMap:
		id := st.newObj(&Obj{kind: "map", typ: x.Type(), x: map[string]Val{}})
		return MapV{id}
	case *ssa.MakeSlice:
		return in.makeSlice(st, x.Type(), st.asLin(in.val(p, x.Len)), st.asLin(in.val(p, x.Cap)))
	case *ssa.Range:
		return in.rangeIter(st, in.val(p, x.X), x.X.Type())
	case *ssa.Next:
		return in.next(st, in.val(p, x.Iter), x)
	case *ssa.Slice:
		opt := func(v ssa.Value) *Lin {
			if v == nil {
				return nil
			}
			return st.asLin(in.val(p, v))
		}
		return in.slice(st, in.val(p, x.X), opt(x.Low), opt(x.High), opt(x.Max), x.Type())
	case *ssa.SliceToArrayPointer:
		s := in.val(p, x.X).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !st.ge(s.len, K(n)) {
			panic(goPanic{msg: "slice to array pointer: slice too short"})
		}
		return Ptr{obj: s.obj, idx: s.off, typ: x.Type(), nilq: BConst(false)}
	case *ssa.TypeAssert:
		return in.typeAssert(st, in.val(p, x.X), x.AssertedType, x.CommaOk)
	}
	undec("unsupported value %T", v)
	return nil
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case Struct:
		x.typ = t
		return x
	case Nil:
		x.typ = t
		return x
	case Ptr:
		x.typ = t
		return x
	case SymV:
		x.typ = t
		return x
	}
	return v
}

func (in *Interp) alloc(st *State, t types.Type, name string) Val {
	o := &Obj{typ: t, name: name}
	if a, ok := t.Underlying().(*types.Array); ok {
		o.isq = true
		o.typ = a.Elem()
		o.seq = []Seg{segZero(K(a.Len()))}
		id := st.newObj(o)
		return Ptr{obj: id, typ: types.NewPointer(t), idx: nil, path: "@", nilq: BConst(false)}
	}
	o.val = st.zero(t)
	id := st.newObj(o)
	return Ptr{obj: id, typ: types.NewPointer(t), nilq: BConst(false)}
}

func (st *State) deref(v Val) Ptr {
	switch p := v.(type) {
	case Ptr:
		if st.decide(p.nilq) {
			panic(goPanic{msg: "nil pointer dereference"})
		}
		return p
	case Nil:
		panic(goPanic{msg: "nil pointer dereference"})
	}
	undec("not a pointer: %s", valStr(v))
	return Ptr{}
}

// getPath follows a field path in a value.
func getPath(v Val, path string) Val {
	for _, f := range strings.Split(strings.Trim(path, "/"), "/") {
		if f == "" {
			continue
		}
		var i int
		fmt.Sscan(f, &i)
		s, ok := v.(Struct)
		if !ok {
			undec("field of %s", valStr(v))
		}
		v = s.f[i]
	}
	return v
}

func setPath(v Val, path string, nv Val) Val {
	path = strings.Trim(path, "/")
	if path == "" {
		return nv
	}
	f, rest, _ := strings.Cut(path, "/")
	var i int
	fmt.Sscan(f, &i)
	s, ok := v.(Struct)
	if !ok {
		undec("field of %s", valStr(v))
	}
	n := Struct{typ: s.typ, f: append([]Val{}, s.f...)}
	n.f[i] = setPath(s.f[i], rest, nv)
	return n
}

// unit2val converts a sequence unit to a value of the element type.
func (st *State) unit2val(u Val, t types.Type) Val {
	switch u.(type) {
	case zeroUnit:
		return st.zero(t)
	case junkUnit:
		return st.symVal(t, st.fresh("junk"))
	case opqUnit:
		return st.asLin(u)
	}
	return u
}

func (in *Interp) load(st *State, v Val) Val {
	p := st.deref(v)
	o := st.obj(p.obj)
	if o.isq {
		if p.idx == nil { // whole array
			return ArrV{seq: o.seq, typ: p.typ.Underlying().(*types.Pointer).Elem()}
		}
		if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && p.path == "" && !types.Identical(o.typ, pt.Elem()) {
				return ArrV{seq: st.readSeq(o.seq, p.idx, K(at.Len())), typ: pt.Elem()}
			}
		}
		return getPath(st.unit2val(st.readAt(o, o.seq, p.idx), o.typ), p.path)
	}
	if o.kind == "lazy" {
		in.materialise(st, p.obj)
		o = st.obj(p.obj)
	}
	return getPath(o.val, p.path)
}

func (in *Interp) store(st *State, addr, v Val) {
	p := st.deref(addr)
	o := st.obj(p.obj)
	if o.isq {
		if p.idx == nil {
			a, ok := v.(ArrV)
			if !ok {
				undec("array store of %s", valStr(v))
			}
			st.wobj(p.obj).seq = a.seq
			return
		}
		if a, ok := v.(ArrV); ok && p.path == "" {
			st.writeObj(p.obj, p.idx, a.seq)
			return
		}
		if p.path != "" {
			cur := st.unit2val(st.readAt(o, o.seq, p.idx), o.typ)
			v = setPath(cur, p.path, v)
		}
		st.writeObj(p.obj, p.idx, []Seg{segByte(v)})
		return
	}
	if o.kind == "lazy" {
		in.materialise(st, p.obj)
		o = st.obj(p.obj)
	}
	nv := setPath(o.val, p.path, v)
	st.wobj(p.obj).val = nv
}

// writeObj overwrites part of a sequence object and clobbers possible aliases.
func (st *State) writeObj(id int, off *Lin, data []Seg) {
	o := st.obj(id)
	n := seqLen(data)
	seq := st.writeSeq(o.seq, off, data)
	type upd struct {
		id  int
		seq []Seg
	}
	var ups []upd
	for _, a := range o.al {
		other, ok := st.heap[a.obj]
		if !ok {
			continue
		}
		// shared positions [from, upto): clobber the overlap with [off, off+n)
		lo, hi := off, Add(off, n)
		if v, k := st.evalB(BGe(Sub(lo, a.upto))); k && v {
			continue
		}
		if v, k := st.evalB(BGe(Sub(a.from, hi))); k && v {
			continue
		}
		exact := true
		if v, k := st.evalB(BGe(Sub(lo, a.from))); !k || !v {
			exact = exact && k
			lo = a.from
		}
		if v, k := st.evalB(BGe(Sub(hi, a.upto))); k && v {
			hi = a.upto
		} else if !k {
			exact = false
		}
		cnt := Sub(hi, lo)
		if v, k := st.evalB(BGe(AddK(cnt, -1))); !k {
			exact = false
		} else if !v {
			continue
		}
		pos := Add(lo, a.delta)
		// nothing to lose where the other memory is unspecified (or ends) anyway
		js, tl := K(0), K(0)
		for _, sg := range other.seq {
			tl = Add(tl, sg.n)
			if sg.k != SJunk {
				js = tl
			}
		}
		if v, k := st.evalB(BGe(Sub(pos, js))); k && v {
			continue
		}
		if v, k := st.evalB(BGe(Sub(tl, Add(pos, cnt)))); !k || !v {
			if k {
				cnt = Sub(tl, pos)
				if v, k := st.evalB(BGe(AddK(cnt, -1))); !k {
					exact = false
				} else if !v {
					continue
				}
			} else {
				exact = false
			}
		}
		if !exact {
			// the overlap is not known exactly: forget everything from a boundary before it
			c, cum, keep := K(0), K(0), 0
			for i, sg := range other.seq {
				cum = Add(cum, sg.n)
				if v, k := st.evalB(BGe(Sub(pos, cum))); k && v {
					c, keep = cum, i+1
				}
			}
			ups = append(ups, upd{a.obj, st.compact(append(other.seq[:keep:keep], segJunk(Sub(tl, c))))})
			continue
		}
		// only if the other object really differs there
		old := st.readSeq(other.seq, pos, cnt)
		nw := st.readSeq(seq, lo, cnt)
		if st.sameSeq(old, nw) {
			continue
		}
		ups = append(ups, upd{a.obj, st.writeSeq(other.seq, pos, []Seg{segJunk(cnt)})})
	}
	st.wobj(id).seq = seq
	for _, u := range ups {
		st.wobj(u.id).seq = u.seq
	}
}

func (in *Interp) field(st *State, v Val, i int) Val {
	s, ok := v.(Struct)
	if !ok {
		undec("field of %s", valStr(v))
	}
	return s.f[i]
}

func (in *Interp) fieldAddr(st *State, v Val, i int, t types.Type) Val {
	p := st.deref(v)
	p.path = fmt.Sprintf("%s/%d", p.path, i)
	p.typ = t
	return p
}

// checkIndex panics (as a Go panic) unless 0 <= i < n.
func (st *State) checkIndex(i, n *Lin) {
	if !st.decideC(BGe(i)) || !st.decideC(BGe(AddK(Sub(n, i), -1))) {
		panic(goPanic{msg: fmt.Sprintf("index out of range [%s] with length %s", i, n)})
	}
}

func (in *Interp) index(st *State, v Val, i *Lin, t types.Type) Val {
	if s, ok := v.(Str); ok {
		if _, lit := st.litOf(s.seq); lit {
			st.checkIndex(i, seqLen(s.seq))
			return st.asLin(st.readAt(nil, s.seq, i))
		}
	}
	i = st.concr(i)
	switch s := v.(type) {
	case Str:
		st.checkIndex(i, seqLen(s.seq))
		return st.asLin(st.readAt(nil, s.seq, i))
	case ArrV:
		st.checkIndex(i, seqLen(s.seq))
		return st.unit2val(st.readAt(nil, s.seq, i), t)
	}
	undec("index of %s", valStr(v))
	return nil
}

func (in *Interp) indexAddr(st *State, v Val, i *Lin, t types.Type) Val {
	i = st.concr(i)
	switch s := v.(type) {
	case Slice:
		st.checkIndex(i, s.len)
		return Ptr{obj: s.obj, idx: Add(s.off, i), typ: t, nilq: BConst(false)}
	case Ptr:
		p := st.deref(v)
		at := p.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		st.checkIndex(i, K(at.Len()))
		o := st.obj(p.obj)
		if !o.isq {
			undec("array inside a struct")
		}
		base := K(0)
		if p.idx != nil {
			base = p.idx
		}
		return Ptr{obj: p.obj, idx: Add(base, i), typ: t, nilq: BConst(false)}
	case Nil:
		panic(goPanic{msg: "nil pointer dereference"})
	}
	undec("indexAddr of %s", valStr(v))
	return nil
}

func (in *Interp) makeSlice(st *State, t types.Type, n, c *Lin) Val {
	n, c = st.concr(n), st.concr(c)
	if !st.decide(BGe(n)) || !st.decide(BGe(Sub(c, n))) {
		panic(goPanic{msg: "makeslice: len or cap out of range"})
	}
	el := t.Underlying().(*types.Slice).Elem()
	id := st.newObj(&Obj{isq: true, typ: el, seq: st.compact([]Seg{segZero(c)})})
	return Slice{obj: id, off: K(0), len: n, cap: c, nilq: BConst(false), elem: el}
}

func (in *Interp) slice(st *State, v Val, lo, hi, max *Lin, t types.Type) Val {
	if lo == nil {
		lo = K(0)
	}
	lo = st.concr(lo)
	if hi != nil {
		hi = st.concr(hi)
	}
	switch s := v.(type) {
	case Str:
		n := seqLen(s.seq)
		if hi == nil {
			hi = n
		}
		if !st.decideC(BGe(lo)) || !st.decideC(BGe(Sub(hi, lo))) || !st.decideC(BGe(Sub(n, hi))) {
			panic(goPanic{msg: fmt.Sprintf("slice bounds out of range [%s:%s] with length %s", lo, hi, n)})
		}
		return Str{st.readSeq(s.seq, lo, Sub(hi, lo))}
	case Slice:
		if hi == nil {
			hi = s.len
		}
		c := s.cap
		if max != nil {
			max = st.concr(max)
			if !st.decide(BGe(Sub(s.cap, max))) || !st.decide(BGe(Sub(max, hi))) {
				panic(goPanic{msg: "slice bounds out of range (cap)"})
			}
			c = max
		}
		if !st.decideC(BGe(lo)) || !st.decideC(BGe(Sub(hi, lo))) || !st.decideC(BGe(Sub(s.cap, hi))) {
			panic(goPanic{msg: fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %s", lo, hi, s.cap)})
		}
		return Slice{obj: s.obj, off: Add(s.off, lo), len: Sub(hi, lo), cap: Sub(c, lo), nilq: s.nilq, elem: s.elem}
	case Ptr:
		p := st.deref(v)
		at := p.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := K(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if max != nil {
			c = max
		}
		if !st.decideC(BGe(lo)) || !st.decideC(BGe(Sub(hi, lo))) || !st.decideC(BGe(Sub(n, hi))) {
			panic(goPanic{msg: "slice bounds out of range"})
		}
		if !st.obj(p.obj).isq {
			undec("slicing an array inside a struct")
		}
		base := K(0)
		if p.idx != nil {
			base = p.idx
		}
		return Slice{obj: p.obj, off: Add(base, lo), len: Sub(hi, lo), cap: Sub(c, lo), nilq: BConst(false), elem: at.Elem()}
	case Nil:
		panic(goPanic{msg: "nil pointer dereference"})
	}
	undec("slice of %s", valStr(v))
	return nil
}

// content returns the visible units of a slice.
func (st *State) content(s Slice) []Seg {
	if s.obj == 0 || st.isZero(s.len) {
		return nil
	}
	return st.readSeq(st.obj(s.obj).seq, s.off, s.len)
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			switch {
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				return st.convInt(st.asLin(v), to)
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return v
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				l := st.asLin(v)
				if c := st.facts.constOf(l); c != nil {
					return mkStr(string(rune(c.Int64())))
				}
				iv := st.facts.bound(l)
				if iv.lo != nil && iv.lo.Sign() >= 0 && iv.hi != nil && iv.hi.Cmp(bi(127)) <= 0 {
					return Str{[]Seg{segByte(l)}}
				}
				return Top{to}
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
				return Float{name: "float(" + st.asLin(v).key + ")"}
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
				lo, hi := typeRange(to)
				return VarB("int("+valKey(v)+")", lo, hi)
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
				if types.Identical(fb, tb) || (fb.Kind() == types.Float32 && tb.Kind() == types.Float64) {
					if f, ok := v.(Float); ok {
						if types.Identical(fb, tb) {
							return f
						}
						return Float{name: "f64(" + f.name + ")"}
					}
				}
				return Float{name: tb.Name() + "(" + valKey(v) + ")"}
			}
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			s := v.(Str)
			n := seqLen(s.seq)
			if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return st.newBytes(s.seq, n)
			}
		}
	}
	if _, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return Str{st.content(v.(Slice))}
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return retype(v, to)
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	return v
}

var byteType = types.Typ[types.Uint8]

// newBytes allocates a byte slice with the given content and exact capacity.
func (st *State) newBytes(q []Seg, n *Lin) Slice {
	id := st.newObj(&Obj{isq: true, typ: byteType, seq: st.compact(q)})
	return Slice{obj: id, off: K(0), len: n, cap: n, nilq: BConst(false), elem: byteType}
}

// appendTo models append(s, data...).
func (st *State) appendTo(s Slice, data []Seg, n *Lin) Slice {
	n = st.facts.simp(n)
	if st.isZero(n) {
		return s
	}
	nl := Add(s.len, n)
	room := Sub(s.cap, nl)
	if v, k := st.evalB(BGe(room)); k {
		if v {
			st.writeObj(s.obj, Add(s.off, s.len), data)
			return Slice{obj: s.obj, off: s.off, len: nl, cap: s.cap, nilq: BConst(false), elem: s.elem}
		}
		return st.growTo(s, data, nl, false)
	}
	return st.growTo(s, data, nl, true)
}

// growTo makes the result of an append as a new object; maybe: it may be the old memory.
func (st *State) growTo(s Slice, data []Seg, nl *Lin, maybe bool) Slice {
	var q []Seg
	if s.obj != 0 {
		_, b := st.softSplit(st.obj(s.obj).seq, s.off)
		c, _ := st.softSplit(b, s.len)
		q = append(q, st.compact(c)...)
	}
	q = append(q, data...)
	if maybe {
		// the tail of the old memory may be overwritten in place
		if s.obj == 0 || st.isZero(s.cap) {
			maybe = false
		} else {
			st.writeObj(s.obj, Add(s.off, s.len), []Seg{segJunk(Sub(s.cap, s.len))})
		}
	}
	nc := VarB(st.fresh("cap"), big0, pow2(40))
	st.facts.assumeGe0(Sub(nc, nl))
	q = append(q, segJunk(Sub(nc, nl)))
	o := &Obj{isq: true, typ: s.elem, seq: st.compact(q)}
	id := st.newObj(o)
	if maybe {
		st.linkAlias(id, s.obj, s.off, nl)
	}
	return Slice{obj: id, off: K(0), len: nl, cap: nc, nilq: BConst(false), elem: s.elem}
}

func (in *Interp) typeAssert(st *State, v Val, t types.Type, commaOk bool) Val {
	fail := func() Val {
		if commaOk {
			return Tuple{[]Val{st.zero(t), BConst(false)}}
		}
		panic(goPanic{msg: "interface conversion: not " + t.String()})
	}
	okv := func(x Val) Val {
		if commaOk {
			return Tuple{[]Val{x, BConst(true)}}
		}
		return x
	}
	_, toIface := t.Underlying().(*types.Interface)
	switch x := v.(type) {
	case Nil:
		return fail()
	case Iface:
		if toIface {
			if types.Implements(x.typ, t.Underlying().(*types.Interface)) {
				return okv(x)
			}
			return fail()
		}
		if types.Identical(x.typ, t) {
			return okv(x.v)
		}
		return fail()
	case SymV:
		if st.decide(st.nilTest(x)) {
			return fail()
		}
		if tf := st.types[x.name]; tf != nil && tf.is != nil {
			dv := st.symVal(tf.is, dynName(x.name, tf.is))
			return in.typeAssert(st, Iface{typ: tf.is, v: dv}, t, commaOk)
		}
		if toIface {
			if x.typ != nil {
				if xi, ok := x.typ.Underlying().(*types.Interface); ok && types.Implements(x.typ, t.Underlying().(*types.Interface)) {
					_ = xi
					return okv(x)
				}
			}
			if st.decide(BAtom("impl:" + x.name + "|" + t.String())) {
				return okv(SymV{name: x.name, typ: t})
			}
			return fail()
		}
		if strings.HasPrefix(x.name, "!") && isErrorT(x.typ) && strings.Contains(t.String(), modPath) {
			return fail() // the libraries' errors are not of the repository's types
		}
		regType(t)
		if st.decide(BAtom("dyn:" + x.name + "|" + t.String())) {
			return okv(st.symVal(t, dynName(x.name, t)))
		}
		return fail()
	case Model:
		if toIface {
			return okv(x)
		}
		if x.typ != nil && types.Identical(x.typ, t) {
			return okv(x)
		}
		return fail()
	}
	undec("type assertion on %s", valStr(v))
	return nil
}

// dynName names the dynamic value of an opaque interface value.
func dynName(name string, t types.Type) string {
	return name + ".(" + types.TypeString(t, shortQual) + ")"
}

var typeByName = map[string]types.Type{}

func regType(t types.Type) { typeByName[t.String()] = t }
