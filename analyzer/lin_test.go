package main

// Randomised soundness test of the integer domain against concrete arithmetic (a test of the analyzer itself).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"testing"
)

type env map[string]*big.Int

var evalMemo = map[*Atom]*big.Int{}

func (e env) atom(a *Atom) *big.Int {
	if v := evalMemo[a]; v != nil {
		return v
	}
	v := e.atom1(a)
	evalMemo[a] = v
	return v
}

func (e env) atom1(a *Atom) *big.Int {
	switch a.kind {
	case AVar:
		v := e[a.key]
		if v == nil {
			panic("no value for " + a.key)
		}
		return v
	case ABV:
		r := new(big.Int)
		for i, b := range a.bits {
			r.SetBit(r, i, uint(e.bit(b)))
		}
		return r
	case ADiv:
		return new(big.Int).Quo(e.lin(a.args[0]), a.k)
	case ABitLen:
		return bi(int64(e.lin(a.args[0]).BitLen()))
	case AFn:
		x, y := e.lin(a.args[0]), e.lin(a.args[1])
		switch a.str {
		case "and":
			return new(big.Int).And(x, y)
		case "mul":
			return new(big.Int).Mul(x, y)
		case "mod":
			return new(big.Int).Rem(x, y)
		case "quo":
			return new(big.Int).Quo(x, y)
		case "rem":
			return new(big.Int).Rem(x, y)
		}
	}
	panic("eval " + a.String())
}

func (e env) bit(b Bit) uint8 {
	r := b.c
	for _, x := range b.xs {
		v := e.lin(x.l)
		if v.Sign() < 0 {
			v = new(big.Int).Add(v, pow2(v.BitLen()+x.i+2))
		}
		r ^= uint8(v.Bit(x.i))
	}
	return r
}

func (e env) lin(l *Lin) *big.Int {
	r := new(big.Int).Set(l.c)
	for _, t := range l.t {
		r.Add(r, new(big.Int).Mul(t.c, e.atom(t.a)))
	}
	return r
}

func (e env) cond(b Bool) bool {
	v := false
	switch b.op {
	case 0:
		v = b.v
	case 1:
		v = e.lin(b.l).Sign() >= 0
	case 2:
		v = e.lin(b.l).Sign() == 0
	default:
		panic("cond")
	}
	return v != b.neg
}

func wrap(v *big.Int, t types.Type) *big.Int {
	w, signed, _ := intInfo(t)
	r := new(big.Int).And(v, new(big.Int).Sub(pow2(w), big1))
	if signed && r.Bit(w-1) == 1 {
		r.Sub(r, pow2(w))
	}
	return r
}

var intTypes = []types.Type{types.Typ[types.Int8], types.Typ[types.Int16], types.Typ[types.Int32], types.Typ[types.Int64], types.Typ[types.Int], types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.Uint32], types.Typ[types.Uint64]}

func rndVal(r *rand.Rand, t types.Type) *big.Int {
	w, _, _ := intInfo(t)
	v := new(big.Int).Rand(r, pow2(1+r.Intn(w)))
	if r.Intn(3) == 0 {
		v.Sub(pow2(r.Intn(w+1)), bi(int64(r.Intn(3))))
	}
	if r.Intn(2) == 0 {
		v.Neg(v)
	}
	return wrap(v, t)
}

// run f, following the concrete branch at each case split.
func follow(st *State, e env, f func() Val) (v Val, pan bool) {
	for n := 0; ; n++ {
		if n > 200 {
			panic("splits")
		}
		var req interface{}
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case splitReq, enumReq, goPanic:
					req = x
				default:
					panic(x)
				}
			}()
			v = f()
		}()
		switch x := req.(type) {
		case nil:
			return v, false
		case goPanic:
			return nil, true
		case splitReq:
			if !st.assumeB(x.b, e.cond(x.b)) {
				panic(fmt.Sprintf("split %s (%v) is contradictory", x.b, e.cond(x.b)))
			}
		case enumReq:
			k := e.atom(x.a)
			if k.Cmp(bi(x.lo)) < 0 || k.Cmp(bi(x.hi)) > 0 {
				panic("enum misses a value")
			}
			if !st.assumeB(BEq(Sub(linAtom(x.a), KB(k))), true) {
				panic("enum contradictory")
			}
		}
	}
}

func TestArithmetic(t *testing.T) {
	seeds := int64(2000)
	if s := os.Getenv("SEEDS"); s != "" {
		fmt.Sscan(s, &seeds)
	}
	in := &Interp{}
	ops := []token.Token{token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT}
	for seed := int64(0); seed < seeds; seed++ {
		r := rand.New(rand.NewSource(seed))
		e := env{}
		evalMemo = map[*Atom]*big.Int{}
		atomTab, atomList, linTab, dependents = map[string]*Atom{}, nil, map[string]*Lin{}, map[*Atom][]*Atom{}
		st := newState()
		type tv struct {
			l *Lin
			v *big.Int
			t types.Type
		}
		var vs []tv
		trace := ""
		func() {
			defer func() {
				if x := recover(); x != nil {
					t.Fatalf("seed %d: %v\n%s %v", seed, x, trace, e)
				}
			}()
			for i := 0; i < 3; i++ {
				ty := intTypes[r.Intn(len(intTypes))]
				lo, hi := typeRange(ty)
				n := fmt.Sprintf("v%d.%s", i, ty)
				e[n] = rndVal(r, ty)
				vs = append(vs, tv{VarB(n, lo, hi), e[n], ty})
			}
			for i := 0; i < 7; i++ {
				a := vs[r.Intn(len(vs))]
				var n tv
				switch k := r.Intn(10); {
				case k < 2: // conversion
					ty := intTypes[r.Intn(len(intTypes))]
					v, _ := follow(st, e, func() Val { return st.convInt(a.l, ty) })
					n = tv{v.(*Lin), wrap(a.v, ty), ty}
					trace += fmt.Sprintf("%s(%s)=%s\n", ty, a.l, n.l)
				case k < 4: // condition
					b := vs[r.Intn(len(vs))]
					if b.t != a.t || r.Intn(2) == 0 {
						c := rndVal(r, a.t)
						b = tv{KB(c), c, a.t}
					}
					op := []token.Token{token.LSS, token.LEQ, token.EQL, token.NEQ, token.GTR, token.GEQ}[r.Intn(6)]
					c := in.binop(st, op, a.l, b.l, a.t, types.Typ[types.Bool]).(Bool)
					want := e.cond(c)
					trace += fmt.Sprintf("assume %s %s %s: %v\n", a.l, op, b.l, want)
					if v, known := st.evalB(c); known && v != want {
						panic(fmt.Sprintf("wrong decision %s", c))
					}
					if !st.assumeB(c, want) {
						panic(fmt.Sprintf("contradiction at %s", c))
					}
					continue
				default:
					op := ops[r.Intn(len(ops))]
					b := vs[r.Intn(len(vs))]
					if op == token.SHL || op == token.SHR {
						c := bi(int64(r.Intn(70)))
						b = tv{KB(c), c, types.Typ[types.Uint]}
					} else if b.t != a.t || r.Intn(2) == 0 {
						c := rndVal(r, a.t)
						b = tv{KB(c), c, a.t}
					}
					v, pan := follow(st, e, func() Val { return in.binop(st, op, a.l, b.l, a.t, a.t) })
					if pan {
						if (op == token.QUO || op == token.REM) && b.v.Sign() == 0 {
							return
						}
						panic("unexpected panic")
					}
					var w *big.Int
					switch op {
					case token.ADD:
						w = new(big.Int).Add(a.v, b.v)
					case token.SUB:
						w = new(big.Int).Sub(a.v, b.v)
					case token.MUL:
						w = new(big.Int).Mul(a.v, b.v)
					case token.QUO:
						w = new(big.Int).Quo(a.v, b.v)
					case token.REM:
						w = new(big.Int).Rem(a.v, b.v)
					case token.SHL:
						w = new(big.Int).Lsh(a.v, uint(b.v.Int64()))
					case token.SHR:
						w = new(big.Int).Rsh(a.v, uint(b.v.Int64()))
					case token.AND:
						w = new(big.Int).And(a.v, b.v)
					case token.OR:
						w = new(big.Int).Or(a.v, b.v)
					case token.XOR:
						w = new(big.Int).Xor(a.v, b.v)
					case token.AND_NOT:
						w = new(big.Int).AndNot(a.v, b.v)
					}
					n = tv{v.(*Lin), wrap(w, a.t), a.t}
					trace += fmt.Sprintf("%s %s %s = %s (%s)\n", a.l, op, b.l, n.l, n.v)
				}
				if g := e.lin(n.l); g.Cmp(n.v) != 0 {
					panic(fmt.Sprintf("value %s, expected %s", g, n.v))
				}
				for _, x := range append(vs, n) {
					iv := st.facts.bound(x.l)
					if (iv.lo != nil && iv.lo.Cmp(x.v) > 0) || (iv.hi != nil && iv.hi.Cmp(x.v) < 0) {
						panic(fmt.Sprintf("bound of %s is %v..%v, value %s", x.l, iv.lo, iv.hi, x.v))
					}
					s := st.facts.simp(x.l)
					if e.lin(s).Cmp(x.v) != 0 {
						panic(fmt.Sprintf("simp of %s is %s", x.l, s))
					}
					for _, y := range vs {
						if y.t == x.t && st.linEq(x.l, y.l) && x.v.Cmp(y.v) != 0 {
							panic(fmt.Sprintf("%s claimed equal to %s", x.l, y.l))
						}
					}
				}
				if st.facts.dead {
					panic("dead")
				}
				if r.Intn(20) == 0 && st.facts.refute() {
					panic("refuted a satisfiable state")
				}
				vs = append(vs, n)
			}
		}()
	}
}
