package main

// Values: C06 (bind arguments), C07 (literals and wrappers).

import (
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

const (
	mAny    = "Mysqlx.Datatypes.Any"
	mScalar = "Mysqlx.Datatypes.Scalar"
	mSStr   = "Mysqlx.Datatypes.Scalar.String"
	mSOct   = "Mysqlx.Datatypes.Scalar.Octets"
	mOper   = "Mysqlx.Expr.Operator"
	mFunc   = "Mysqlx.Expr.FunctionCall"
	mIdent  = "Mysqlx.Expr.Identifier"
)

// valCtx is a place where a value is used.
type valCtx struct {
	code  string
	arg   bool // an argument (Any) rather than an expression
	frame string
	path  []string // message.field
	more  int      // further messages
}

var valCtxs = []valCtx{
	{"S", true, mStmt, []string{mStmt + ".args"}, 0},
	{"E", true, mExec, []string{mExec + ".args"}, 0},
	{"R", false, mInsert, []string{mInsert + ".row", mRow + ".field"}, 0},
	{"I", false, mInsert, []string{mInsert + ".row", mRow + ".field"}, 0},
	{"W", false, mInsert, []string{mInsert + ".row", mRow + ".field"}, 1},
	{"U", false, mUpdate, []string{mUpdate + ".operation", mUpOp + ".value"}, 0},
	{"M", false, mUpdate, []string{mUpdate + ".operation", mUpOp + ".value"}, 0},
	{"O", false, mDelete, []string{mDelete + ".criteria", mExpr + ".operator", mOper + ".param"}, 0},
	{"F", false, mDelete, []string{mDelete + ".criteria", mExpr + ".function_call", mFunc + ".param"}, 0},
}

// wantVal says how a value has to be transmitted in state st, or that it has to be refused.
type wantVal struct {
	null   bool
	refuse bool
	kind   string // scalar type
	m      MSpec  // the scalar's other fields
	user   Val    // the value's own encoding
}

func nilKnown(st *State, v Val) (isNil, known bool) { return st.evalB(st.nilTest(v)) }

func octets(q func(st *State) []Seg, m FM, ct string) MSpec {
	val := m
	if val == nil {
		val = Bytes(q)
	}
	n := int64(0)
	if ct != "" {
		n = contentType(ct)
	}
	return MSpec{One(fno(mScalar, "v_octets"), Msg(MSpec{
		One(fno(mSOct, "value"), val),
		OneOr(fno(mSOct, "content_type"), NumK(n), func(*State) bool { return n == 0 }),
	}))}
}

func contentType(name string) int64 {
	e := theSchema.enums["Mysqlx.Resultset.ContentType_BYTES"]
	if e == nil {
		panic(undecided("no enum ContentType_BYTES"))
	}
	v, ok := e.vals[name]
	if !ok {
		panic(undecided("no content type " + name))
	}
	return int64(v)
}

func strScalar(q func(st *State) []Seg, coll func(st *State) *Lin) MSpec {
	return MSpec{One(fno(mScalar, "v_string"), Msg(MSpec{
		One(fno(mSStr, "value"), Bytes(q)),
		OneOr(fno(mSStr, "collation"), Num(coll), func(st *State) bool {
			y, _ := st.facts.isEq0(coll(st))
			return y
		}),
	}))}
}

// zigzag of the 64 bit number with the given bits.
func zigzag(bs []Bit) *Lin {
	out := make([]Bit, 64)
	out[0] = bs[63]
	for i := 1; i < 64; i++ {
		out[i] = xorBit(bs[i-1], bs[63])
	}
	return mkBV(out)
}

// bothWays checks a condition under each value of an undetermined boolean.
func bothWays(st *State, b Bool, f func(st *State, v bool) error) error {
	if v, k := st.evalB(b); k {
		return f(st, v)
	}
	for _, v := range []bool{true, false} {
		s := st.clone()
		if !s.assumeB(b, v) {
			continue
		}
		if err := f(s, v); err != nil {
			return err
		}
	}
	return nil
}

// wantOf gives the transmission of v of type t.
func wantOf(st *State, t types.Type, v Val) wantVal {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		switch n.Obj().Name() {
		case "Time":
			return wantVal{kind: "V_OCTETS", m: octets(nil, timeText(v), "")}
		case "Duration":
			return wantVal{kind: "V_OCTETS", m: octets(nil, durationText(v.(*Lin)), "")}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return wantVal{kind: "V_BOOL", m: MSpec{One(fno(mScalar, "v_bool"), func(st *State, f DField) error {
				return bothWays(st, v.(Bool), func(st *State, b bool) error {
					w := int64(0)
					if b {
						w = 1
					}
					return NumK(w)(st, f)
				})
			})}}
		case u.Info()&types.IsUnsigned != 0:
			return wantVal{kind: "V_UINT", m: MSpec{One(fno(mScalar, "v_unsigned_int"), Num(func(*State) *Lin { return v.(*Lin) }))}}
		case u.Info()&types.IsInteger != 0:
			return wantVal{kind: "V_SINT", m: MSpec{One(fno(mScalar, "v_signed_int"), func(st *State, f DField) error {
				if st.linEq(f.lin, zigzag(bitsOf(v.(*Lin), 64))) {
					return nil
				}
				return bothWays(st, BGe(v.(*Lin)), func(st *State, pos bool) error {
					l := v.(*Lin)
					if st.linEq(f.lin, zigzag(st.bitsVal(l, 64))) {
						return nil
					}
					w := MulK(l, bi(2))
					if !pos {
						w = AddK(MulK(l, bi(-2)), -1)
					}
					if st.linEq(f.lin, w) {
						return nil
					}
					return merr("field %s is %s, expected the zigzag encoding of %s", f.fd.name, clip(f.lin.String()), clip(l.String()))
				})
			})}}
		case u.Kind() == types.Float64:
			return wantVal{kind: "V_DOUBLE", m: MSpec{One(fno(mScalar, "v_double"), Num(func(*State) *Lin {
				return VarB("f64bits("+valKey(v)+")", big0, new(big.Int).Sub(pow2(64), big1))
			}))}}
		case u.Kind() == types.Float32:
			return wantVal{kind: "V_FLOAT", m: MSpec{One(fno(mScalar, "v_float"), Num(func(*State) *Lin {
				return VarB("f32bits("+valKey(v)+")", big0, new(big.Int).Sub(pow2(32), big1))
			}))}}
		case u.Info()&types.IsString != 0:
			return wantVal{kind: "V_STRING", m: strScalar(func(*State) []Seg { return v.(Str).seq }, func(*State) *Lin { return K(0) })}
		}
	case *types.Slice:
		return bytesVal(st, v.(Slice), "")
	}
	panic(undecided("no transmission specified for " + t.String()))
}

func bytesVal(st *State, s Slice, ct string) wantVal {
	if isNil, k := nilKnown(st, s); k && isNil {
		return wantVal{null: true}
	} else if !k {
		// transmitted as content only if known not to be nil
		return wantVal{kind: "V_OCTETS", m: MSpec{One(fno(mScalar, "v_octets"), func(st *State, f DField) error {
			return merr("a nil byte slice is transmitted like an empty one")
		})}}
	}
	return wantVal{kind: "V_OCTETS", m: octets(func(st *State) []Seg { return st.content(s) }, nil, ct)}
}

var timeLayouts = map[string]bool{"2006-01-02 15:04:05.000000000": true, "2006-01-02 15:04:05.999999999": true}

func timeText(v Val) FM {
	return func(st *State, f DField) error {
		q := st.compact(f.seq)
		if len(q) != 1 || q[0].k != SOpq || q[0].o.kind != "time" || !q[0].full() {
			return merr("field %s is %s, expected the formatted time", f.fd.name, clip(seqStr(q)))
		}
		if valKey(q[0].o.v) != valKey(v) {
			return merr("another time is formatted: %s", valStr(q[0].o.v))
		}
		if !timeLayouts[q[0].o.layout] {
			return merr("the layout %q does not keep date, time of day and nanoseconds", q[0].o.layout)
		}
		return nil
	}
}

// durationText wants [-]H...:MM:SS of the whole seconds of d.
func durationText(d *Lin) FM {
	return func(st *State, f DField) error {
		return bothWays(st, BGe(d), func(st *State, pos bool) error {
			q := st.compact(f.seq)
			u := d
			if !pos {
				u = Neg(d)
				b, rest := st.takeByte(q)
				if !st.linEq(b, K('-')) {
					return merr("a negative duration does not start with '-': %s", clip(seqStr(q)))
				}
				q = st.compact(rest)
			}
			h := newHMS(st, u)
			if len(q) == 0 || q[0].k != SOpq || q[0].o.kind != "dec" || !q[0].full() {
				return merr("no hours in %s", clip(seqStr(q)))
			}
			if l := h.rw(q[0].o.l); l != h.h {
				return merr("the hours are %s", clip(l.String()))
			}
			q = st.compact(q[1:])
			for _, part := range []struct {
				name string
				v    *Lin
			}{{"minutes", h.m}, {"seconds", h.s}} {
				b, rest := st.takeByte(q)
				if !st.linEq(b, K(':')) {
					return merr("no ':' before the %s", part.name)
				}
				d1, rest := st.takeByte(rest)
				d2, rest := st.takeByte(rest)
				q = st.compact(rest)
				for i, d := range []*Lin{d1, d2} {
					d = h.rw(d)
					w := divAtom(part.v, bi(10))
					if i == 1 {
						w = Sub(part.v, MulK(w, bi(10)))
					}
					if !st.finiteEq(d, AddK(w, '0')) {
						return merr("digit %d of the %s is %s", i+1, part.name, clip(d.String()))
					}
				}
			}
			if len(q) > 0 {
				return merr("unexpected text after the duration: %s", clip(seqStr(q)))
			}
			return nil
		})
	}
}

// HMS writes a magnitude u as 3600e9*h + 60e9*m + 1e9*s + n, so that quotients and remainders become exact.
type HMS struct {
	st            *State
	u, h, m, s, n *Lin
	sum           *Lin
}

func newHMS(st *State, u *Lin) *HMS {
	v := func(n string, hi int64) *Lin { return VarB("hms."+n, big0, bi(hi)) }
	x := &HMS{st: st, u: u, h: v("h", 1<<63-1), m: v("m", 59), s: v("s", 59), n: v("n", 1e9-1)}
	x.sum = Add(Add(MulK(x.h, bi(3600e9)), MulK(x.m, bi(60e9))), Add(MulK(x.s, bi(1e9)), x.n))
	return x
}

func (x *HMS) rw(l *Lin) *Lin {
	if l.isConst() {
		return l
	}
	if x.st.sameMag(l, x.u) {
		return x.sum
	}
	if x.st.sameMag(Neg(l), x.u) {
		return Neg(x.sum)
	}
	r := KB(l.c)
	for _, t := range l.t {
		r = Add(r, MulK(x.rwAtom(t.a), t.c))
	}
	return r
}

func (x *HMS) rwAtom(a *Atom) *Lin {
	self := linAtom(a)
	if x.st.sameMag(self, x.u) {
		return x.sum
	}
	switch {
	case a.kind == ADiv:
		return divRest(x.rw(a.args[0]), a.k, false)
	case a.kind == AFn && a.str == "mod" && len(a.args) == 2 && a.args[1].isConst():
		return divRest(x.rw(a.args[0]), a.args[1].c, true)
	case a.kind == ATable:
		return tableAtom(a.str, x.rw(a.args[0]))
	case a.kind == ABV:
		if l, s, n := contiguous(a.bits); l != nil && s == 0 {
			w := x.rw(l)
			if lo, hi := staticBounds(w); lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= n {
				return w
			}
		}
	}
	return self
}

// divRest divides l by k (quotient, or remainder when mod), exactly if it can.
func divRest(l *Lin, k *big.Int, mod bool) *Lin {
	if hi, lo := l, K(0); l != nil {
		hi, lo = K(0), K(0)
		for _, t := range l.t {
			q, r := new(big.Int).QuoRem(t.c, k, new(big.Int))
			if r.Sign() != 0 {
				q = big0
				lo = Add(lo, MulK(linAtom(t.a), t.c))
			}
			hi = Add(hi, MulK(linAtom(t.a), q))
		}
		lo = Add(lo, KB(l.c))
		a, b := staticBounds(lo)
		ga, _ := staticBounds(hi)
		gl, gh := staticBounds(Neg(hi))
		_ = gl
		switch {
		case a != nil && a.Sign() >= 0 && b != nil && b.Cmp(k) < 0 && ga != nil && ga.Sign() >= 0:
			if mod {
				return lo
			}
			return hi
		case a != nil && a.Sign() >= 0 && ga != nil && ga.Sign() >= 0 && len(hi.t) > 0:
			// (k*hi + lo) / k = hi + lo/k
			if mod {
				return Sub(lo, MulK(divAtom(lo, k), k))
			}
			return Add(hi, divAtom(lo, k))
		case a != nil && b != nil && b.Sign() <= 0 && new(big.Int).Neg(a).Cmp(k) < 0 && gh != nil && gl != nil && gl.Sign() >= 0:
			// both parts are at most zero: truncation is symmetric
			if mod {
				return lo
			}
			return hi
		}
	}
	if mod {
		return fnAtom("mod", big0, k, l, KB(k))
	}
	return divAtom(l, k)
}

// sameMag: l equals u as a 64 bit unsigned number.
func (st *State) sameMag(l, u *Lin) bool {
	if st.linEq(l, u) {
		return true
	}
	// l and u agree modulo 2^64, and both are in 0..2^64-1
	iv, iu := st.facts.bound(l), st.facts.bound(u)
	top := new(big.Int).Sub(pow2(64), big1)
	if iv.lo == nil || iv.lo.Sign() < 0 || iv.hi == nil || iv.hi.Cmp(top) > 0 || iu.lo == nil || iu.lo.Sign() < 0 || iu.hi == nil || iu.hi.Cmp(top) > 0 {
		return false
	}
	return st.modSame(l, u, 64)
}

// modSame: l and u agree modulo 2^w.
func (st *State) modSame(l, u *Lin, w int) bool {
	m := pow2(w)
	d := Sub(unwrap(l, w), unwrap(u, w))
	if new(big.Int).Mod(d.c, m).Sign() != 0 {
		return false
	}
	for _, t := range d.t {
		if new(big.Int).Mod(t.c, m).Sign() != 0 {
			return false
		}
	}
	return true
}

// unwrap replaces truncations to at least w bits by what they truncate.
func unwrap(l *Lin, w int) *Lin {
	r := KB(l.c)
	for _, t := range l.t {
		x := linAtom(t.a)
		if t.a.kind == ABV {
			if src, s, n := contiguous(t.a.bits); src != nil && s == 0 && n >= w {
				x = unwrap(src, w)
			}
		}
		r = Add(r, MulK(x, t.c))
	}
	return r
}

// ---- running ----

type valCase struct {
	name   string // part of the driver's name
	ctxs   string
	want   func(c *Ctx, st *State, p *Params) wantVal
	mayRef bool // refusals are allowed (and required where want says so)
}

func basicCase(name string) valCase {
	return valCase{name: name, ctxs: "SERIWUMOF", want: func(c *Ctx, st *State, p *Params) wantVal {
		return wantOf(st, p.types["v"], p.val(st, "v"))
	}}
}

// ptrCase: pointers to the type, depth levels.
func ptrCase(name, ctxs string) valCase {
	return valCase{name: name, ctxs: ctxs, want: func(c *Ctx, st *State, p *Params) wantVal {
		t, v, n := p.types["v"], p.val(st, "v"), "v"
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			isNil, known := nilKnown(st, v)
			if isNil && known {
				return wantVal{null: true}
			}
			t, n = pt.Elem(), "*"+n
			v = st.symVal(t, n)
		}
		return wantOf(st, t, v)
	}}
}

func valCases() []valCase {
	var r []valCase
	for _, t := range []string{"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Float32", "Float64", "String", "Bytes", "Time", "Duration"} {
		r = append(r, basicCase(t), ptrCase("Ptr"+t, "SE"), ptrCase("PtrPtr"+t, "S"))
	}
	r = append(r, valCase{name: "Nil", ctxs: "SERIWUMOF", want: func(*Ctx, *State, *Params) wantVal { return wantVal{null: true} }})
	w := func(name string, f func(st *State, p *Params) wantVal) {
		r = append(r, valCase{name: "W" + name, ctxs: "SERUOF", want: func(c *Ctx, st *State, p *Params) wantVal { return f(st, p) }})
	}
	w("String", func(st *State, p *Params) wantVal {
		return wantVal{kind: "V_STRING", m: strScalar(p.str("s"), p.num("c"))}
	})
	for _, n := range []string{"XML", "JSON", "Geometry"} {
		ct := strings.ToUpper(n)
		w(n, func(st *State, p *Params) wantVal { return bytesVal(st, p.val(st, "b").(Slice), ct) })
		if n != "Geometry" {
			w(n+"String", func(st *State, p *Params) wantVal {
				return wantVal{kind: "V_OCTETS", m: octets(p.str("s"), nil, ct)}
			})
		}
	}
	r = append(r, valCase{name: "PtrWString", ctxs: "SERIWUMO", want: func(c *Ctx, st *State, p *Params) wantVal {
		v := p.val(st, "p")
		if n, k := nilKnown(st, v); k && n {
			return wantVal{null: true}
		}
		s := st.symVal(p.types["p"].Underlying().(*types.Pointer).Elem(), "*p").(Struct)
		return wantVal{kind: "V_STRING", m: strScalar(func(*State) []Seg { return s.f[0].(Str).seq }, func(*State) *Lin { return s.f[1].(*Lin) })}
	}})
	r = append(r, valCase{name: "Expr", ctxs: "RIWUMOF", want: func(c *Ctx, st *State, p *Params) wantVal {
		v := p.val(st, "e")
		if n, k := nilKnown(st, v); k && n {
			return wantVal{refuse: true}
		}
		return wantVal{user: v}
	}})
	return r
}

// whole is the message of the context with value v in it: nothing around the value is disturbed.
func (cx valCtx) whole(v FM) MSpec {
	p := &Params{}
	coll := MSpec(nil)
	switch cx.frame {
	case mInsert, mUpdate, mDelete:
		coll = collSpec(cx.frame, p, "=t")
	}
	switch cx.code {
	case "S":
		return MSpec{One(fno(mStmt, "stmt"), LitB("s")), One(fno(mStmt, "args"), v)}
	case "E":
		return MSpec{One(fno(mExec, "stmt_id"), NumK(7)), One(fno(mExec, "args"), v)}
	case "R", "W", "I":
		if cx.code == "I" {
			coll = append(coll, One(fno(mInsert, "projection"), Msg(MSpec{One(fno(mColumn, "name"), LitB("c"))})))
		}
		return append(coll, One(fno(mInsert, "row"), Msg(MSpec{One(fno(mRow, "field"), v)})))
	case "U", "M":
		return append(coll, One(fno(mUpdate, "operation"), Msg(MSpec{
			One(fno(mUpOp, "source"), Msg(MSpec{One(fno(mColID, "name"), LitB("c"))})),
			One(fno(mUpOp, "operation"), NumK(enumVal(mUpOp, "operation", "SET"))),
			One(fno(mUpOp, "value"), v)})))
	case "O", "F":
		return append(coll, One(fno(mDelete, "criteria"), func(*State, DField) error { return nil }))
	}
	panic(undecided("unknown context " + cx.code))
}

func anyField(*State, DField) error { return nil }

// valueField walks to the transmitted value.
func (c *Ctx) valueField(cx valCtx, st *State, sent *Event) DField {
	q := st.expand(sent.seq)
	_, rest := st.cut(q, lenVar("prefix"))
	d := &Decoder{sc: c.w.schema}
	fs := d.framesOf(st, rest, true)
	c.Frames += d.frames
	c.Fields += d.fields
	if len(fs) != 1+cx.more || fs[0].def.name != cx.frame {
		derr("not the expected message %s", cx.frame)
	}
	m := fs[0].msg
	if err := cx.whole(anyField).match(st, m); err != nil {
		derr("around the value: %v", err)
	}
	var f DField
	for i, step := range cx.path {
		k := strings.LastIndex(step, ".")
		num := fno(step[:k], step[k+1:])
		n := 0
		for _, g := range m.f {
			if g.star != nil {
				derr("repeated values")
			}
			if g.num == num {
				f = g
				n++
			}
		}
		if n != 1 {
			derr("%d values of %s instead of one", n, step)
		}
		if i+1 < len(cx.path) {
			if f.msg == nil {
				derr("%s is not built in place", step)
			}
			m = f.msg
		}
	}
	return f
}

func scalarSpec(arg bool, kind string, m MSpec) MSpec {
	s := append(MSpec{One(fno(mScalar, "type"), NumK(enumVal(mScalar, "type", kind)))}, m...)
	if arg {
		return MSpec{One(fno(mAny, "type"), NumK(enumVal(mAny, "type", "SCALAR"))), One(fno(mAny, "scalar"), Msg(s))}
	}
	return MSpec{One(fno(mExpr, "type"), NumK(enumVal(mExpr, "type", "LITERAL"))), One(fno(mExpr, "literal"), Msg(s))}
}

func (c *Ctx) runVal(vc valCase, cx valCtx) {
	driver := "Val" + cx.code + vc.name
	r := c.drive(driver, func(in *Interp, st *State) { in.noEnc = true })
	p := c.params(driver)
	wh := "value " + vc.name + " in " + strings.Join(cx.path, "/")
	if c.id != "C06" && c.id != "C07" {
		c.valueForm(r, cx, wh)
		return
	}
	nsent := 0
	for i := range r.outs {
		o := &r.outs[i]
		if o.panic {
			c.fail(o.st.pan.pos, "no value makes the encoder panic", "%s: %s", wh, o.st.pan.msg)
			c.pathOf(o.st)
			continue
		}
		sent, res, enc := sentOf(o.st)
		w := vc.want(c, o.st, p)
		if len(sent) == 0 {
			ok := w.refuse || w.user != nil && enc != nil
			c.ok(ok && res != nil && r.in.knownNonNil(o.st, res.args[1]), wh, "a supported value is transmitted", "refused")
			c.pathOf(o.st)
			continue
		}
		nsent++
		if !c.ok(!w.refuse, wh, "an unsupported value is refused", "transmitted") {
			c.pathOf(o.st)
			continue
		}
		var err error
		if e := try(func() {
			f := c.valueField(cx, o.st, sent[0])
			switch {
			case w.user != nil:
				err = ValOf(func(*State) Val { return w.user })(o.st, f)
			case w.null:
				err = Msg(scalarSpec(cx.arg, "V_NULL", nil))(o.st, f)
			default:
				err = Msg(scalarSpec(cx.arg, w.kind, w.m))(o.st, f)
			}
		}); e != nil {
			err = e
		}
		c.ok(err == nil, wh, "transmitted as the same value", "%v", err)
		c.pathOf(o.st)
		if len(c.Samples) < 2 {
			c.sample(driver + ": " + seqStr(sent[0].seq))
		}
	}
	c.ok(nsent > 0, wh, "the value can be transmitted", "no path transmits it")
}

// valueForm checks what properties other than the value's own ask of a message with the value in it.
func (c *Ctx) valueForm(r *Run, cx valCtx, wh string) {
	n := 0
	for i := range r.outs {
		o := &r.outs[i]
		st := o.st
		if o.panic {
			if c.id == "C09" {
				c.fail(st.pan.pos, "no value makes an operation panic", "%s: %s", wh, st.pan.msg)
				c.pathOf(st)
			}
			continue
		}
		sent, res, _ := sentOf(st)
		if len(sent) == 0 {
			if c.id == "C09" {
				n++
				c.ok(res != nil && r.in.knownNonNil(st, res.args[1]), wh, "Send reports the failure", "nothing is sent, and no error reported")
				c.pathOf(st)
			}
			continue
		}
		n++
		rule := map[string]string{"C01": "complete frames of the right types in call order", "C02": "earlier bytes are preserved", "C03": "bodies decode as their message",
			"C04": "text, id and arguments as given", "C05": "table, columns and assignments as given"}[c.id]
		if rule == "" {
			continue
		}
		err := try(func() {
			pre := []Seg{segSrc(mkSym("prefix", lenVar("prefix"), nil), K(0), lenVar("prefix"))}
			a, rest := st.cut(st.expand(sent[0].seq), seqLen(pre))
			if !st.sameSeq(a, pre) {
				derr("the bytes already built changed: %s", clip(seqStr(a)))
			}
			if c.id == "C02" {
				return
			}
			d := &Decoder{sc: c.w.schema}
			fs := d.framesOf(st, rest, c.id != "C01")
			c.Frames += d.frames
			c.Fields += d.fields
			if len(fs) != 1+cx.more || fs[0].def.name != cx.frame {
				derr("not the expected message %s", cx.frame)
			}
			if c.id == "C04" || c.id == "C05" {
				if err := cx.whole(anyField).match(st, fs[0].msg); err != nil {
					derr("%v", err)
				}
			}
		})
		c.ok(err == nil, wh, rule, "%v", err)
		c.pathOf(st)
	}
	c.ok(n > 0, wh, "the value can be transmitted", "no path transmits it")
}

// withSome adds to the builder cases one message per kind of value and context.
func withSome(jobs func(tier string) []Job, codes string) func(tier string) []Job {
	return func(tier string) []Job {
		return append(jobs(tier), valJobs(func(vc valCase, cx valCtx) bool { return strings.Contains(codes, cx.code) })(tier)...)
	}
}

// withValues adds to the builder cases one message per kind of value.
func withValues(jobs func(tier string) []Job) func(tier string) []Job {
	return func(tier string) []Job {
		js := jobs(tier)
		js = append(js, valJobs(func(vc valCase, cx valCtx) bool { return tier == "thorough" || strings.Contains("SRU", cx.code) })(tier)...)
		for _, i := range []int{0, 2, 7} {
			cx := valCtxs[i]
			js = append(js, Job{"Val" + cx.code + "Any", 5, func(c *Ctx) { c.runAny(cx) }})
		}
		return js
	}
}

func valJobs(sel func(vc valCase, cx valCtx) bool, more ...Job) func(tier string) []Job {
	return func(tier string) []Job {
		var js []Job
		for _, vc := range valCases() {
			for _, cx := range valCtxs {
				vc, cx := vc, cx
				if !strings.Contains(vc.ctxs, cx.code) || !sel(vc, cx) {
					continue
				}
				js = append(js, Job{"Val" + cx.code + vc.name, 1, func(c *Ctx) { c.runVal(vc, cx) }})
			}
		}
		return append(js, more...)
	}
}

func init() {
	wrapper := func(vc valCase) bool { return strings.Contains(vc.name, "W") }
	register(&Check{id: "C06", level: "other", technique: technique + ": bit-precise provenance of encoded scalars", needWorld: true, min: 200, assume: baseAssume,
		explain: "For every supported Go type the argument encoder is interpreted abstractly on an arbitrary value through StmtExecute and Execute; on every abstract path the transmitted Any is parsed symbolically and compared with the value: zigzag and varint bits, float bits, text bytes, the quotients and remainders of a duration, NULL exactly for nil. For a value of unknown dynamic type every path that transmits has established a type of the supported list.",
		jobs: valJobs(func(vc valCase, cx valCtx) bool { return cx.arg && !wrapper(vc) },
			Job{"ValSAny", 5, func(c *Ctx) { c.runAny(valCtxs[0]) }}, Job{"ValEAny", 5, func(c *Ctx) { c.runAny(valCtxs[1]) }})})
	register(&Check{id: "C07", level: "other", technique: technique + ": bit-precise provenance of encoded scalars", needWorld: true, min: 300, assume: baseAssume,
		explain: "For every supported Go type the expression encoder is interpreted abstractly on an arbitrary value used as inserted value, assigned value, operator and function operand; on every abstract path the transmitted literal is parsed symbolically and compared with the value. The wrapper types are checked the same way as argument and as expression, with their collation or content type.",
		jobs: valJobs(func(vc valCase, cx valCtx) bool { return !cx.arg || wrapper(vc) },
			Job{"ValOAny", 5, func(c *Ctx) { c.runAny(valCtxs[7]) }}, Job{"ValRAny", 5, func(c *Ctx) { c.runAny(valCtxs[2]) }})})
}

// scalar kinds a value of a supported type may be transmitted as
func kindFor(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && (n.Obj().Name() == "Time" || n.Obj().Name() == "Duration") {
			return "V_OCTETS"
		}
		return ""
	}
	switch u := t.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Uintptr:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return "V_BOOL"
		case u.Info()&types.IsUnsigned != 0:
			return "V_UINT"
		case u.Info()&types.IsInteger != 0:
			return "V_SINT"
		case u.Kind() == types.Float64:
			return "V_DOUBLE"
		case u.Kind() == types.Float32:
			return "V_FLOAT"
		case u.Kind() == types.String:
			return "V_STRING"
		}
	case *types.Slice:
		if isByteT(u.Elem()) && types.Identical(u.Elem(), byteType) {
			return "V_OCTETS"
		}
	}
	return ""
}

// runAny: a value of unknown dynamic type is transmitted only where its type has been found to be a supported one.
func (c *Ctx) runAny(cx valCtx) {
	driver := "Val" + cx.code + "Any"
	r := c.drive(driver, func(in *Interp, st *State) { in.noEnc = true })
	wh := "value of unknown type in " + strings.Join(cx.path, "/")
	if c.id != "C06" && c.id != "C07" {
		c.valueForm(r, cx, wh)
		return
	}
	nsent, nref := 0, 0
	for i := range r.outs {
		o := &r.outs[i]
		st := o.st
		if o.panic {
			c.fail(st.pan.pos, "no value makes the encoder panic", "%s: %s", wh, st.pan.msg)
			c.pathOf(st)
			continue
		}
		sent, res, _ := sentOf(st)
		if len(sent) == 0 {
			nref++
			c.ok(res != nil && r.in.knownNonNil(st, res.args[1]), wh, "an unsupported value is refused with an error", "nothing is sent, and no error reported")
			c.pathOf(st)
			continue
		}
		nsent++
		var err error
		if e := try(func() { err = c.anyOutcome(cx, st, sent[0]) }); e != nil {
			err = e
		}
		c.ok(err == nil, wh, "only values of supported types are transmitted", "%v", err)
		c.pathOf(st)
	}
	c.ok(nsent > 0, wh, "values can be transmitted", "no path transmits")
	c.ok(nref > 0, wh, "other values are refused", "no path refuses")
	c.count("dynamic_types_transmitted", nsent)
}

func (c *Ctx) anyOutcome(cx valCtx, st *State, sent *Event) error {
	f := c.valueField(cx, st, sent)
	if f.opq != nil {
		// the value's own encoding
		if n := opqName(f.opq.v); n != "v" && !ptrTo(n, "v") {
			return merr("encodes %s instead of the value", valStr(f.opq.v))
		}
		return nil
	}
	var kind string
	for _, k := range []string{"V_NULL", "V_SINT", "V_UINT", "V_OCTETS", "V_DOUBLE", "V_FLOAT", "V_BOOL", "V_STRING"} {
		if kindOnly(st, f, cx.arg, k) {
			kind = k
		}
	}
	if kind == "" {
		return merr("not a scalar of a known kind")
	}
	var is []string
	for _, n := range sortedKeys(st.types) {
		tf := st.types[n]
		if tf.is == nil || n != "v" && !ptrTo(n, "v") {
			continue
		}
		is = append(is, tf.is.String())
		want := kindFor(tf.is)
		if want == "" && implementsEnc(tf.is) {
			continue
		}
		if want == "" {
			if _, ok := tf.is.Underlying().(*types.Pointer); ok && cx.arg {
				continue
			}
			return merr("a value of type %s is transmitted", tf.is)
		}
		if kind == want || kind == "V_NULL" && want == "V_OCTETS" {
			return nil
		}
		return merr("a value of type %s is transmitted as %s", tf.is, kind)
	}
	if kind == "V_NULL" {
		// nil, or a nil pointer
		for _, k := range sortedKeys(st.bools) {
			if !st.bools[k] || !strings.HasPrefix(k, "nil:") {
				continue
			}
			if n := strings.TrimPrefix(k, "nil:"); n == "v" || strings.HasPrefix(n, "any#") {
				return nil
			} else if m := strings.TrimPrefix(n, "value of "); m != n {
				// only a pointer may be nil here
				if l := st.facts.constOf(VarB("kind("+m+")", big1, bi(26))); l != nil && l.Int64() == int64(reflect.Ptr) {
					return nil
				}
				return merr("NULL is transmitted for a nil value that need not be a pointer")
			}
		}
		return merr("NULL is transmitted for a value not known to be nil")
	}
	return merr("transmitted as %s without its type having been established (%v)", kind, sortedKeys(st.types))
}

func opqName(v Val) string {
	switch x := v.(type) {
	case SymV:
		return x.name
	case Iface:
		return opqName(x.v)
	}
	return valStr(v)
}

// ptrTo: name denotes what v, a pointer, leads to.
func ptrTo(name, v string) bool {
	name = strings.TrimSuffix(name, ".(xproto.AppendExprFunc)")
	if name == v || strings.HasPrefix(name, "any#") {
		return true // the loop over pointers generalises the value; typed pointers are checked on their own
	}
	for strings.HasPrefix(name, "elem(") && strings.HasSuffix(name, ")") {
		name = name[5 : len(name)-1]
		if name == v {
			return true
		}
	}
	return false
}

func implementsEnc(t types.Type) bool {
	for _, m := range []string{"AppendAny", "AppendExpr"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			return true
		}
	}
	return types.TypeString(t, nil) == modPath+"/xproto.AppendExprFunc"
}

func kindOnly(st *State, f DField, arg bool, kind string) bool {
	if f.msg == nil {
		return false
	}
	sf := "literal"
	msg := mExpr
	if arg {
		sf, msg = "scalar", mAny
	}
	for _, g := range f.msg.f {
		if g.num == fno(msg, sf) && g.msg != nil {
			for _, h := range g.msg.f {
				if h.num == fno(mScalar, "type") && h.lin != nil && st.linEq(h.lin, K(enumVal(mScalar, "type", kind))) {
					return true
				}
			}
		}
	}
	return false
}
