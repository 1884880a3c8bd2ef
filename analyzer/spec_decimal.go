package main

// C22: packed decimals.
//
// Decompose is interpreted with its 256-bit accumulator abstracted to the sequence of factors and addends it is
// extended with; String with the segment domain of its text. Both loops become repetition segments, whose body
// (the digits of one byte) and exits (the sign nibble) are compared with the packed format. That extending the
// accumulator is value*factor+addend, and that its bytes are its value, are checked on Uint256 itself.

import (
	"fmt"
	"go/token"
	"math/big"
	"sync"
)

// w64 holds the definitions of the words produced by the bits.Mul64 and bits.Add64 models.
var (
	w64   = map[*Atom]*Lin{}
	w64mu sync.Mutex
)

var max64 = new(big.Int).Sub(pow2(64), big1)

func word(name string, hi, def *Lin) *Lin {
	if c := def; c.isConst() {
		return c
	}
	l := VarB(name, big0, hi.c)
	w64mu.Lock()
	w64[l.single()] = def
	w64mu.Unlock()
	return l
}

func product(a, b *Lin) *Lin {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		return MulK(a, b.c)
	}
	if a.key > b.key {
		a, b = b, a
	}
	return fnAtom("mul", big0, new(big.Int).Mul(max64, max64), a, b)
}

func init() {
	intrinsics["math/bits.Mul64"] = multi(func(in *Interp, st *State, a []Val) []Outcome {
		p := product(st.asLin(a[0]), st.asLin(a[1]))
		if p.isConst() {
			return one(st, KB(new(big.Int).Rsh(p.c, 64)), KB(new(big.Int).And(p.c, max64)))
		}
		hi := VarB("hi64("+p.key+")", big0, new(big.Int).Sub(max64, big1))
		return one(st, hi, word("lo64("+p.key+")", KB(max64), Sub(p, MulK(hi, pow2(64)))))
	})
	intrinsics["math/bits.Add64"] = multi(func(in *Interp, st *State, a []Val) []Outcome {
		s := Add(Add(st.asLin(a[0]), st.asLin(a[1])), st.asLin(a[2]))
		if s.isConst() {
			return one(st, KB(new(big.Int).And(s.c, max64)), KB(new(big.Int).Rsh(s.c, 64)))
		}
		c := VarB("carry64("+s.key+")", big0, big1)
		return one(st, word("sum64("+s.key+")", KB(max64), Sub(s, MulK(c, pow2(64)))), c)
	})
}

// unfold replaces words by their definitions.
func unfold(l *Lin) *Lin {
	for n := 0; n < 1000; n++ {
		done := true
		for _, t := range l.t {
			if d := w64[t.a]; d != nil {
				l = Add(Sub(l, MulK(linAtom(t.a), t.c)), MulK(d, t.c))
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	return l
}

func lastEvent(o Outcome) *Event {
	var ev *Event
	for _, e := range o.st.events() {
		if e.name == "r" {
			ev = e
		}
	}
	return ev
}

func c22muladd(c *Ctx) {
	r := c.drive("Uint256MulAdd", nil)
	p := c.params("Uint256MulAdd")
	for _, o := range r.outs {
		where := "Uint256.MulAdd"
		if o.panic {
			c.fail(where, "no panic", "%s at %s", o.st.pan.msg, o.st.pan.pos)
			continue
		}
		ev := lastEvent(o)
		v := func(n string) *Lin { return p.num(n)(o.st) }
		t := K(0)
		for i, n := range []string{"a", "b", "c", "e"} {
			t = Add(t, MulK(Sub(ev.args[i].(*Lin), product(v(n), v("y"))), pow2(64*i)))
		}
		t = unfold(Sub(t, v("z")))
		ok := new(big.Int).And(t.c, new(big.Int).Sub(pow2(256), big1)).Sign() == 0
		for _, m := range t.t {
			ok = ok && new(big.Int).And(m.c, new(big.Int).Sub(pow2(256), big1)).Sign() == 0
		}
		c.ok(ok, where, "x becomes x*y+z modulo 2^256", "the difference is %s", clip(t.String()))
		c.pathOf(o.st)
	}
}

func c22bytes(c *Ctx) {
	r := c.drive("Uint256Append", func(in *Interp, st *State) { in.opts = map[string]bool{"deep": true} })
	p := c.params("Uint256Append")
	for _, o := range r.outs {
		where := "Uint256.AppendBytes"
		if o.panic {
			c.fail(where, "no panic", "%s at %s", o.st.pan.msg, o.st.pan.pos)
			continue
		}
		st := o.st
		var want []*Lin
		for _, n := range []string{"e", "c", "b", "a"} {
			bits := bitsOf(p.num(n)(st), 64)
			for i := 7; i >= 0; i-- {
				want = append(want, mkBV(bits[8*i:8*i+8]))
			}
		}
		bad := ""
		q := st.content(lastEvent(o).args[0].(Slice))
		func() {
			defer func() {
				if x := recover(); x != nil {
					bad = fmt.Sprint("undecided: ", x)
				}
			}()
			head := p.str("buf")(st)
			if !st.isZero(seqLen(head)) {
				a, b := st.splitAt(q, seqLen(head))
				if !st.sameSeq(a, head) {
					bad = "the given prefix is not kept"
				}
				q = b
			}
			var got []*Lin
			for _, s := range st.expand(q) {
				n := st.facts.constOf(s.n)
				if n == nil {
					bad = "unknown bytes " + seqStr(q)
					return
				}
				rest := []Seg{s}
				for k := int64(0); k < n.Int64(); k++ {
					var b *Lin
					b, rest = st.takeByte(rest)
					got = append(got, b)
				}
			}
			for i, w := range want {
				switch j := i - (len(want) - len(got)); {
				case len(got) > len(want):
					bad = "more than 32 bytes"
				case j < 0 && !st.linEq(w, K(0)):
					bad = fmt.Sprintf("byte %d is left out but may not be zero", i)
				case j >= 0 && !st.linEq(w, got[j]):
					bad = fmt.Sprintf("byte %d is %s", i, clip(got[j].String()))
				}
			}
		}()
		c.ok(bad == "", where, "the bytes are the number in big endian order", "%s", bad)
		c.pathOf(st)
	}
}


// may: a copy of st in which b is v, nil if that cannot be.
func (st *State) may(b Bool, v bool) *State {
	n := st.clone()
	if !n.assumeB(b, v) {
		return nil
	}
	g, dead := n.facts.tighten()
	if dead {
		return nil
	}
	n.facts = g
	return n
}

// packedSym is the source of the packed decimal's bytes.
func packedSym(p *Params) *Sym { return mkSym("d", lenVar("d"), nil) }

func nibbles(p *Params, i *Lin) (hi, lo *Lin) {
	b := bitsOf(byteAtom(packedSym(p), AddK(i, 1)), 8)
	return mkBV(b[4:]), mkBV(b[:4])
}

// digitOf undoes the conversion of a digit to text.
func digitOf(l *Lin) *Lin {
	if a := l.single(); a != nil && a.kind == ATable && len(a.str) >= 10 && a.str[:10] == "0123456789" {
		return a.args[0]
	}
	return AddK(l, -48)
}

// groups reads factor and addend pairs; text has factor ten.
func groups(st *State, q []Seg, text bool) (f []int64, v []*Lin, err string) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Sprint("undecided: ", x)
		}
	}()
	for len(q) > 0 {
		n := st.facts.constOf(q[0].n)
		if q[0].k == SOpq || n == nil {
			return nil, nil, "unexpected " + seqStr(q)
		}
		if n.Sign() == 0 {
			q = q[1:]
			continue
		}
		var b *Lin
		b, q = st.takeByte(q)
		if text {
			f, v = append(f, 10), append(v, digitOf(b))
			continue
		}
		k := st.facts.constOf(b)
		if k == nil || len(q) == 0 {
			return nil, nil, "the factor is " + b.String()
		}
		b, q = st.takeByte(q)
		f, v = append(f, k.Int64()), append(v, b)
	}
	return
}

// sameDigits compares factor and addend pairs with the expected digits.
func sameDigits(st *State, q []Seg, text bool, want ...*Lin) string {
	f, v, err := groups(st, q, text)
	if err != "" {
		return err
	}
	for i := range f {
		w := K(0)
		for k := f[i]; k > 1; k /= 10 {
			if k%10 != 0 || len(want) == 0 {
				return fmt.Sprintf("an extra digit or factor %d", f[i])
			}
			w = Add(MulK(w, bi(10)), want[0])
			want = want[1:]
		}
		if !st.linEq(v[i], w) {
			return fmt.Sprintf("digit %s, expected %s", clip(v[i].String()), clip(w.String()))
		}
	}
	if len(want) > 0 {
		return "a digit is missing"
	}
	return ""
}

// packed compares the digits and sign of one path with the packed form.
func (c *Ctx) packed(where string, p *Params, st *State, q []Seg, text bool, neg func(st *State) (bool, bool)) {
	count := K(0)
	tail := q
	if len(q) > 0 && q[0].k == SOpq && q[0].o.kind == "star" {
		if !q[0].full() {
			c.fail(where, "digits in order", "part of the digits: %s", seqStr(q))
			return
		}
		s := q[0].o.star
		count, tail = s.count, q[1:]
		c.ok(len(s.alts) > 0, where, "digits in order", "no digits are kept")
		for _, a := range s.alts {
			hi, lo := nibbles(p, s.iv)
			err := sameDigits(a.st, a.segs, text, hi, lo)
			c.ok(err == "", where, "each byte contributes its high and then its low nibble", "%s", err)
			c.ok(a.st.may(BGe(AddK(hi, -10)), true) == nil && a.st.may(BGe(AddK(lo, -10)), true) == nil, where, "a sign nibble ends the number", "reading goes on after one")
		}
	}
	// the byte the loop ended at
	st = st.may(BGe(Sub(lenVar("d"), AddK(count, 2))), true)
	if st == nil {
		return // no sign nibble
	}
	hi, lo := nibbles(p, count)
	sign := func(s *State, nib *Lin, what string) {
		if s == nil {
			return
		}
		for k := int64(10); k < 16; k++ {
			t := s.may(BEq(AddK(nib, -k)), true)
			if t == nil {
				continue
			}
			n, known := neg(t)
			c.ok(known && n == (k == 11 || k == 13), where, "the sign nibble decides the sign", "wrong sign for %s nibble %X", what, k)
		}
	}
	if s := st.may(BGe(AddK(hi, -10)), true); s != nil {
		err := sameDigits(s, tail, text)
		c.ok(err == "", where, "digits stop at the sign nibble", "high nibble: %s", err)
		sign(s, hi, "high")
	}
	if s := st.may(BGe(AddK(hi, -10)), false); s != nil {
		if t := s.may(BGe(AddK(lo, -10)), true); t != nil {
			err := sameDigits(t, tail, text, hi)
			c.ok(err == "", where, "digits stop at the sign nibble", "low nibble: %s", err)
			sign(t, lo, "low")
		}
		c.ok(s.may(BGe(AddK(lo, -10)), false) == nil, where, "digits stop only at the sign nibble", "reading stops at a byte of two digits")
	}
	c.pathOf(st)
}

func atLeast(name string, n int64) func(in *Interp, st *State) {
	return func(in *Interp, st *State) { st.facts.assumeGe0(AddK(lenVar(name), -n)) }
}

func c22text(c *Ctx) {
	r := c.drive("DecimalString", atLeast("d", 2))
	p := c.params("DecimalString")
	where := "Decimal.String"
	for _, o := range r.outs {
		if o.panic {
			c.fail(where, "no panic", "%s at %s", o.st.pan.msg, o.st.pan.pos)
			continue
		}
		st := o.st
		q := st.expand(lastEvent(o).args[0].(Str).seq)
		isByte := func(s Seg, k int64) bool {
			b, ok := s.v.(*Lin)
			return s.k == SByte && ok && st.linEq(b, K(k))
		}
		// the point; a scale of more digits than there are is not well formed
		var digits []Seg
		neg := false
		var after *Lin
		for i, s := range q {
			switch {
			case i == 0 && isByte(s, '-'):
				neg = true
			case after == nil && isByte(s, '.'):
				after = K(0)
			default:
				if after != nil {
					after = Add(after, s.n)
				}
				digits = append(digits, s)
			}
		}
		digits = st.joinStar(digits)
		scale := byteAtom(packedSym(p), K(0))
		nd := K(0)
		for _, s := range digits {
			if !isByte(s, '-') {
				nd = Add(nd, s.n)
			}
		}
		w := st.may(BGe(Sub(nd, scale)), true)
		if w == nil {
			continue
		}
		if len(digits) > 0 && isByte(digits[0], '-') {
			c.fail(where, "the sign comes first", "%s", seqStr(q))
			continue
		}
		if after == nil {
			c.ok(w.may(BGe(AddK(scale, -1)), true) == nil, where, "the point has scale digits after it", "no point")
		} else {
			c.ok(w.linEq(after, scale), where, "the point has scale digits after it", "%s digits", after)
		}
		c.packed(where, p, w, digits, true, func(*State) (bool, bool) { return neg, true })
	}
}

// joinStar joins adjacent parts of one repetition.
func (st *State) joinStar(q []Seg) []Seg {
	var r []Seg
	for _, s := range q {
		if st.isZero(s.n) {
			continue
		}
		if n := len(r); n > 0 && s.k == SOpq && r[n-1].k == SOpq && s.o == r[n-1].o && st.linEq(s.off, Add(r[n-1].off, r[n-1].n)) {
			l := Add(r[n-1].n, s.n)
			if st.linEq(l, s.o.n) {
				l = s.o.n
			}
			r[n-1] = Seg{k: SOpq, n: l, o: s.o, off: r[n-1].off}
			continue
		}
		r = append(r, s)
	}
	return r
}

func c22parts(c *Ctx) {
	const u = "(*github.com/renthraysk/xtorm/types.Uint256)."
	coef := mkSym("coefficient", lenVar("coefficient"), nil)
	r := c.drive("DecimalDigits", func(in *Interp, st *State) {
		atLeast("d", 2)(in, st)
		in.hookFn = func(in *Interp, st *State, f Closure, a []Val, pos token.Pos) ([]Outcome, bool) {
			n := f.fn.String()
			if n != u+"MulAdd" && n != u+"AppendBytes" {
				return nil, false
			}
			if p, ok := a[0].(Ptr); ok {
				// the number is only ever changed through MulAdd
				v := in.load(st, p)
				ok := false
				if arr, isArr := v.(ArrV); isArr {
					ok = true
					for _, e := range arr.seq {
						l, isLin := e.v.(*Lin)
						ok = ok && (e.k == SZero || e.k == SByte && isLin && st.isZero(l))
					}
				}
				if !ok {
					undec("the accumulator starts as or is changed to %s", valStr(v))
				}
			}
			if n == u+"MulAdd" {
				os := in.callFn(st, c.w.drv.Func("GhostMulAdd"), a[1:], nil)
				for i := range os {
					os[i].vals = []Val{VarB(os[i].st.fresh("overflow"), big0, max64)}
				}
				return os, true
			}
			q := []Seg{segSrc(coef, K(0), lenVar("coefficient"))}
			return one(st, st.appendTo(a[1].(Slice), q, lenVar("coefficient"))), true
		}
	})
	p := c.params("DecimalDigits")
	where := "Decimal.Decompose"
	for _, o := range r.outs {
		if o.panic {
			c.fail(where, "no panic", "%s at %s", o.st.pan.msg, o.st.pan.pos)
			continue
		}
		st := o.st
		ev := lastEvent(o)
		form := st.asLin(ev.args[0])
		c.ok(st.isZero(form), where, "the form is finite", "%s", form)
		exp := st.asLin(ev.args[3])
		c.ok(st.linEq(Neg(exp), byteAtom(packedSym(p), K(0))), where, "the exponent is minus the scale", "%s", exp)
		cq := st.expand(st.content(ev.args[2].(Slice)))
		c.ok(len(cq) == 1 && cq[0].k == SSrc && cq[0].sym == coef && st.isZero(cq[0].off), where, "the coefficient is the accumulated number", "%s", seqStr(cq))
		var dq []Seg
		if s, ok := ev.args[4].(Slice); ok {
			dq = st.joinStar(st.expand(st.content(s)))
		}
		c.packed(where, p, st, dq, false, func(t *State) (bool, bool) {
			b, ok := ev.args[1].(Bool)
			if !ok {
				return false, false
			}
			return t.evalB(b)
		})
	}
}

func init() {
	register(&Check{id: "C22", level: "other", technique: "abstract interpretation of go/ssa: repetition segments for the digit loops, linear identities for the 256-bit arithmetic", needWorld: true, min: 60,
		assume:  []string{"the models of math/bits.Mul64, math/bits.Add64 and encoding/binary are faithful", "a well-formed packed decimal has a sign nibble and at least as many digits as its scale"},
		explain: "String and Decompose are interpreted abstractly on a packed decimal of any length; the digits they keep become a repetition segment whose body must be the high and then the low nibble of the byte of that iteration, and every exit is checked for every sign nibble. Decompose is interpreted with its accumulator abstracted to the list of extensions made with MulAdd; MulAdd is checked to be x*y+z modulo 2^256 by a linear identity over its carries, AppendBytes byte by byte.",
		jobs: func(string) []Job {
			return []Job{{"text", 2, c22text}, {"parts", 2, c22parts}, {"muladd", 1, c22muladd}, {"bytes", 1, c22bytes}}
		}})
}
