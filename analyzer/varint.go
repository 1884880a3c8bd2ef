package main

// Varints: symbolic varint runs, and classification of the small functions that size and write them.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vlen is the number of bytes of the varint of l (l >= 0).
func (st *State) vlen(l *Lin) *Lin {
	if c := st.facts.constOf(l); c != nil {
		n := (c.BitLen() + 6) / 7
		if n == 0 {
			n = 1
		}
		return K(int64(n))
	}
	return st.facts.simp(divAtom(AddK(MulK(bitLenAtom(l), bi(9)), 64), bi(64)))
}

func isVlen(a *Atom) bool {
	if a.kind != ADiv || a.k.Cmp(bi(64)) != 0 || len(a.args[0].t) != 1 {
		return false
	}
	t := a.args[0].t[0]
	return t.a.kind == ABitLen && t.c.Cmp(bi(9)) == 0 && a.args[0].c.Cmp(bi(64)) == 0
}

// varintSeq is the encoding of l.
func (st *State) varintSeq(l *Lin) []Seg {
	n := st.vlen(l)
	if c := st.facts.constOf(n); c != nil {
		return st.varintBytes(l, int(c.Int64()))
	}
	return []Seg{segOpq(&Opq{kind: "varint", l: l, n: n})}
}

func (st *State) varintBytes(l *Lin, n int) []Seg {
	bits := st.bitsVal(l, 64)
	for len(bits) < 70 {
		bits = append(bits, Bit{})
	}
	var r []Seg
	for i := 0; i < n; i++ {
		b := append([]Bit{}, bits[7*i:7*i+7]...)
		c := Bit{c: 1}
		if i == n-1 {
			c = Bit{}
		}
		r = append(r, segByte(mkBV(append(b, c))))
	}
	return r
}

// lazyConcr enumerates the length of a varint when a position depends on it.
func (st *State) lazyConcr(l *Lin) {
	best, bn := -1, -2
	for i, t := range l.t {
		if isVlen(t.a) {
			iv := st.facts.bound(linAtom(t.a))
			if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) < 0 {
				if n := newest(t.a.String()); n > bn {
					best, bn = i, n
				}
			}
		}
	}
	if best >= 0 {
		a := l.t[best].a
		iv := st.facts.bound(linAtom(a))
		panic(enumReq{a, iv.lo.Int64(), iv.hi.Int64()})
	}
}

// newest is the highest fresh number mentioned in a key.
func newest(key string) int {
	r := -1
	for i := 0; i < len(key); i++ {
		if key[i] == '#' {
			n := 0
			for i++; i < len(key) && key[i] >= '0' && key[i] <= '9'; i++ {
				n = 10*n + int(key[i]-'0')
			}
			if n > r {
				r = n
			}
		}
	}
	return r
}

type shape struct {
	kind string // "size", "put", "append", "wire"
	why  string
	outs int
}

// shapeOf recognises varint helpers by analysing them on arbitrary arguments.
func (in *Interp) shapeOf(f *ssa.Function, kind string, tag int) *shape {
	w := in.world
	key := fmt.Sprintf("%s#%s#%d", f, kind, tag)
	if s, ok := w.shapes[key]; ok {
		return s
	}
	s := in.shapeOn(f, kind, tag, nil, nil)
	if s.kind == "" && !strings.Contains(s.why, "effects") {
		// again, one length of the varint at a time
		t := &shape{kind: kind}
		for n := 0; n < 10 && t.kind != ""; n++ {
			lo, hi := new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big1, uint(7*n+7)), big1)
			if n > 0 {
				lo.Lsh(big1, uint(7*n))
			}
			c := in.shapeOn(f, kind, tag, lo, hi)
			t.outs += c.outs
			if c.kind == "" && c.why != "no such value" {
				t.kind, t.why = "", c.why
			}
		}
		if t.kind == "" {
			s.why += "; " + t.why
		}
		if t.kind != "" && t.outs > 0 {
			s = t
		}
	}
	w.shapes[key] = s
	return s
}

// shapeOn analyses f for values (lengths, for "wire") between lo and hi.
func (in *Interp) shapeOn(f *ssa.Function, kind string, tag int, lo, hi *big.Int) *shape {
	w := in.world
	s := &shape{}
	run := &Run{name: "shape " + f.String(), in: w.interp()}
	run.in.noContractFor = f
	st := w.initState()
	ids := map[int]*Obj{}
	var args []Val
	var buf Slice
	var x *Lin
	var val []Seg
	for i := 0; i < f.Signature.Params().Len(); i++ {
		pt := f.Signature.Params().At(i).Type()
		switch {
		case isBytes(pt) && i == 0:
			buf = st.symVal(pt, "sprefix").(Slice)
			buf.nilq = BConst(false)
			args = append(args, buf)
		case kind == "wire" && i == 1:
			args = append(args, K(int64(tag)))
		case isBytes(pt):
			v := st.symVal(pt, "svalue").(Slice)
			val = st.content(v)
			args = append(args, v)
		default:
			v := st.symVal(pt, "svalue")
			switch y := v.(type) {
			case *Lin:
				x = y
			case Str:
				val = y.seq
			}
			args = append(args, v)
		}
	}
	if lo != nil {
		y := x
		if kind == "wire" {
			y = seqLen(val)
		}
		if iv := st.facts.bound(y); iv.hi != nil && iv.hi.Cmp(lo) < 0 || !st.assumeB(BGe(Sub(y, KB(lo))), true) || !st.assumeB(BGe(Sub(KB(hi), y)), true) {
			s.why = "no such value"
			return s
		}
	}
	orig := st.content(buf)
	for id, o := range st.heap {
		ids[id] = o
	}
	w.runOn(run, st, f, args)
	if run.und != "" {
		s.why = run.und
		return s
	}
	s.outs = len(run.outs)
	for _, o := range run.outs {
		if o.st.ev != nil && o.st.ev != st.ev {
			s.why = "has effects"
			return s
		}
		if o.panic {
			if kind == "put" {
				c := o.st.clone()
				if !c.assumeB(BGe(Sub(buf.len, c.vlen(x))), true) {
					continue
				}
			}
			s.why = "panics: " + o.st.pan.msg
			return s
		}
		for id, ob := range ids {
			if id == buf.obj {
				continue
			}
			if nb := o.st.heap[id]; nb != ob && !(nb.isq && o.st.sameSeq(nb.seq, ob.seq)) {
				s.why = "changes other memory"
				return s
			}
		}
		err := try(func() {
			switch kind {
			case "size":
				if !o.st.linEq(o.vals[0].(*Lin), o.st.vlen(x)) {
					derr("is not the varint size: %s", o.vals[0].(*Lin))
				}
			case "put":
				n := o.vals[0].(*Lin)
				q := o.st.content(buf)
				head, rest := o.st.cut(q, n)
				v, r := o.st.takeVarint(head)
				if len(o.st.compact(r)) != 0 || !o.st.linEq(v, x) || !o.st.linEq(n, o.st.vlen(x)) {
					derr("does not write the varint")
				}
				_, ro := o.st.softSplit(orig, n)
				if !o.st.sameSeq(rest, ro) {
					derr("changes bytes after the varint")
				}
			case "append":
				q := o.st.content(o.vals[0].(Slice))
				h, rest := o.st.cut(q, buf.len)
				if !o.st.sameSeq(h, orig) {
					derr("changes the buffer")
				}
				v, r := o.st.takeVarint(rest)
				if len(o.st.compact(r)) != 0 || !o.st.linEq(v, x) || !o.st.linEq(seqLen(rest), o.st.vlen(x)) {
					derr("does not append the varint")
				}
			case "wire":
				q := o.st.content(o.vals[0].(Slice))
				h, rest := o.st.cut(q, buf.len)
				if !o.st.sameSeq(h, orig) {
					derr("changes the buffer")
				}
				k, rest := o.st.takeByte(rest)
				if !o.st.linEq(k, K(int64(tag<<3|2))) {
					derr("wrong key %s", k)
				}
				n, rest2 := o.st.takeVarint(rest)
				if !o.st.linEq(n, seqLen(val)) || !o.st.sameSeq(rest2, val) {
					derr("wrong content")
				}
				if !o.st.linEq(Sub(seqLen(rest), seqLen(val)), o.st.vlen(n)) {
					derr("not a minimal length")
				}
			}
		})
		if err != nil {
			s.why = err.Error()
			return s
		}
	}
	if s.outs > 0 {
		s.kind = kind
	}
	return s
}

func isUint(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// tryShape replaces a call of a recognised varint helper by its effect.
func (in *Interp) tryShape(st *State, f Closure, args []Val, pos token.Pos) ([]Outcome, bool) {
	sig := f.fn.Signature
	if in.noContract || f.fn == in.noContractFor || len(f.b) != 0 || sig.Recv() != nil || f.fn.Pkg == nil || len(f.fn.Blocks) == 0 {
		return nil, false
	}
	if p := f.fn.Pkg.Pkg.Path(); !strings.HasPrefix(p, modPath) {
		return nil, false
	}
	if sig.Results().Len() != 1 || sig.Variadic() {
		return nil, false
	}
	ps, res := sig.Params(), sig.Results().At(0).Type()
	switch {
	case ps.Len() == 1 && isUint(ps.At(0).Type()) && isInt(res):
		x := st.asLin(args[0])
		if x.isConst() {
			return nil, false
		}
		if in.shapeOf(f.fn, "size", 0).kind == "" {
			return nil, false
		}
		return one(st, st.vlen(x)), true
	case ps.Len() == 2 && isBytes(ps.At(0).Type()) && isUint(ps.At(1).Type()) && (isInt(res) || isBytes(res)):
		b, ok := args[0].(Slice)
		if !ok {
			return nil, false
		}
		kind := "put"
		if isBytes(res) {
			kind = "append"
		}
		if in.shapeOf(f.fn, kind, 0).kind == "" {
			return nil, false
		}
		x := st.asLin(args[1])
		if kind == "append" {
			return one(st, st.appendTo(b, st.varintSeq(x), st.vlen(x))), true
		}
		return st.putVarint(b, x)
	case ps.Len() == 3 && isBytes(ps.At(0).Type()) && isByteT(ps.At(1).Type()) && (isStringT(ps.At(2).Type()) || isBytes(ps.At(2).Type())) && isBytes(res):
		b, ok := args[0].(Slice)
		t := st.facts.constOf(st.asLin(args[1]))
		if !ok || t == nil || t.Int64() > 15 {
			return nil, false
		}
		var val []Seg
		switch v := args[2].(type) {
		case Str:
			val = v.seq
		case Slice:
			val = st.content(v)
		}
		if in.shapeOf(f.fn, "wire", int(t.Int64())).kind == "" {
			return nil, false
		}
		q := []Seg{segByte(K(t.Int64()<<3 | 2))}
		q = append(q, st.varintSeq(seqLen(val))...)
		q = append(q, val...)
		return one(st, st.appendTo(b, q, seqLen(q))), true
	}
	return nil, false
}

func (st *State) putVarint(b Slice, x *Lin) ([]Outcome, bool) {
	n := st.vlen(x)
	if v, k := st.evalB(BGe(Sub(b.len, n))); !k || !v {
		return nil, false
	}
	st.writeObj(b.obj, b.off, st.varintSeq(x))
	return one(st, n), true
}

func init() {
	intrinsics["encoding/binary.PutUvarint"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		return st.putVarint(a[0].(Slice), st.asLin(a[1]))
	}
	intrinsics["encoding/binary.AppendUvarint"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		x := st.asLin(a[1])
		return one(st, st.appendTo(a[0].(Slice), st.varintSeq(x), st.vlen(x))), true
	}
}

// decideC is decide, preferring to enumerate varint lengths when one matters.
func (st *State) decideC(b Bool) bool {
	v, k := st.evalB(b)
	if k {
		return v
	}
	if b.l != nil {
		st.lazyConcr(b.l)
	}
	return st.decide(b)
}
