package main

// Segment sequences: splitting, reading, overwriting, comparing.

import (
	"fmt"
)

// subSeg returns part [a, a+n) of a segment (bounds already known).
func (st *State) subSeg(s Seg, a, n *Lin) Seg {
	switch s.k {
	case SByte:
		return s
	case SLit:
		ca, cn := st.facts.constOf(a), st.facts.constOf(n)
		if ca == nil || cn == nil {
			// symbolic part of a literal
			sym := mkSym(fmt.Sprintf("lit(%q)", s.lit), K(int64(len(s.lit))), nil)
			return segSrc(sym, a, n)
		}
		return segLit(s.lit[ca.Int64() : ca.Int64()+cn.Int64()])
	case SSrc:
		return segSrc(s.sym, Add(s.off, a), n)
	case SZero:
		return segZero(n)
	case SJunk:
		return segJunk(n)
	case SOpq:
		return Seg{k: SOpq, n: n, o: s.o, off: Add(s.off, a)}
	}
	panic("subSeg")
}

// splitAt cuts q at pos; requests case splits when the position relative to a segment is unknown.
func (st *State) splitAt(q []Seg, pos *Lin) (a, b []Seg) {
	cum := K(0)
	for i, s := range q {
		d := Sub(pos, cum) // distance into this segment
		if v, known := st.evalB(BEq(d)); known && v {
			return q[:i:i], q[i:]
		}
		rest := Sub(d, s.n)
		if v, known := st.evalB(BGe(rest)); known {
			if v {
				cum = Add(cum, s.n)
				continue
			}
			// strictly inside or at the start
			if _, k := st.evalB(BGe(AddK(d, -1))); !k {
				if v2, k2 := st.evalB(BGe(d)); k2 && v2 && (s.k == SJunk || s.k == SZero) {
					head := append(q[:i:i], st.subSeg(s, K(0), d))
					tail := append([]Seg{st.subSeg(s, d, Sub(s.n, d))}, q[i+1:]...)
					return head, tail
				}
				st.lazyConcr(d)
			}
			if s.k == SOpq && s.o.kind == "varint" {
				st.lazyConcr(s.n)
				return st.splitAt(st.expand(q), pos)
			}
			if st.decide(BGe(AddK(d, -1))) {
				head := append(q[:i:i], st.subSeg(s, K(0), d))
				tail := append([]Seg{st.subSeg(s, d, Sub(s.n, d))}, q[i+1:]...)
				return head, tail
			}
			return q[:i:i], q[i:]
		}
		if s.k == SJunk || s.k == SZero {
			// within or at the end of an unspecified run: no need to know which
			v1, k1 := st.evalB(BGe(Neg(rest)))
			v2, k2 := st.evalB(BGe(d))
			if k1 && v1 && k2 && v2 {
				head := append(q[:i:i], st.subSeg(s, K(0), d))
				tail := append([]Seg{st.subSeg(s, d, Sub(s.n, d))}, q[i+1:]...)
				return head, tail
			}
		}
		st.lazyConcr(rest)
		// unknown: an empty segment boundary is preferred
		if st.decide(BGe(rest)) {
			cum = Add(cum, s.n)
			continue
		}
	}
	if v, known := st.evalB(BEq(Sub(pos, cum))); known && v {
		return q, nil
	}
	st.decide(BEq(Sub(pos, cum)))
	undec("position %s beyond sequence of length %s", pos, cum)
	return
}

// readSeq extracts [off, off+n).
func (st *State) readSeq(q []Seg, off, n *Lin) []Seg {
	if st.isZero(n) {
		return nil
	}
	if r := st.litWindow(q, off, n); r != nil {
		return r
	}
	_, b := st.splitAt(q, off)
	c, _ := st.splitAt(b, n)
	return st.compact(c)
}

// litWindow: a few bytes of a constant at a computed position.
func (st *State) litWindow(q []Seg, off, n *Lin) (r []Seg) {
	if len(q) != 1 || q[0].k != SLit {
		return nil
	}
	off, n = st.facts.simp(off), st.facts.simp(n)
	if off.isConst() || !n.isConst() || !n.c.IsInt64() || n.c.Int64() < 1 || n.c.Int64() > 16 {
		return nil
	}
	if y, _ := st.facts.isGe0(off); !y {
		return nil
	}
	if y, _ := st.facts.isGe0(Sub(q[0].n, Add(off, n))); !y {
		return nil
	}
	for i := int64(0); i < n.c.Int64(); i++ {
		r = append(r, segByte(tableAtomSt(st, q[0].lit, AddK(off, i))))
	}
	return r
}

func (st *State) isZero(n *Lin) bool {
	v, k := st.evalB(BEq(n))
	return k && v
}

// compact drops empty segments and merges adjacent ones.
func (st *State) compact(q []Seg) []Seg {
	var r []Seg
	for _, s := range q {
		if s.n.isConst() && s.n.c.Sign() == 0 || (!s.n.isConst() && st.isZero(s.n)) {
			continue
		}
		if s.k == SOpq && s.o.kind == "varint" && s.full() {
			if c := st.facts.constOf(s.n); c != nil {
				r = append(r, st.varintBytes(s.o.l, int(c.Int64()))...)
				continue
			}
		}
		if len(r) > 0 {
			p := &r[len(r)-1]
			switch {
			case p.k == SJunk && s.k == SJunk:
				*p = segJunk(Add(p.n, s.n))
				continue
			case p.k == SZero && s.k == SZero:
				*p = segZero(Add(p.n, s.n))
				continue
			case p.k == SSrc && s.k == SSrc && p.sym == s.sym && Add(p.off, p.n) == s.off:
				*p = segSrc(p.sym, p.off, Add(p.n, s.n))
				continue
			case p.k == SOpq && s.k == SOpq && p.o.same(s.o) && Add(p.off, p.n) == s.off:
				p.n = Add(p.n, s.n)
				continue
			}
		}
		r = append(r, s)
	}
	return r
}

func (o *Opq) same(p *Opq) bool {
	if o == p {
		return true
	}
	return o.ident() == p.ident()
}

func (o *Opq) ident() string {
	if o.key == "" {
		switch o.kind {
		case "field":
			o.key = fmt.Sprintf("field/%d/%s/%s", o.tag, o.enc, valKey(o.v))
		case "star":
			o.key = "star/" + o.star.id
		case "dec":
			o.key = "dec/" + o.l.key
		case "varint":
			o.key = "varint/" + o.l.key
		case "time":
			o.key = "time/" + valKey(o.v) + "/" + o.layout
		default:
			o.key = fmt.Sprintf("%s/%p", o.kind, o)
		}
	}
	return o.key
}

// writeSeq replaces [off, off+len(data)) by data.
func (st *State) writeSeq(q []Seg, off *Lin, data []Seg) []Seg {
	n := seqLen(data)
	if st.isZero(n) {
		return q
	}
	a, b := st.softSplit(q, off)
	_, c := st.softSplit(b, n)
	r := make([]Seg, 0, len(a)+len(data)+len(c))
	r = append(r, a...)
	r = append(r, data...)
	r = append(r, c...)
	return st.compact(r)
}

// readAt returns the unit (byte value or list element) at index off.
func (st *State) readAt(o *Obj, q []Seg, off *Lin) Val {
	off = st.facts.simp(off)
	cum := K(0)
	for _, s := range q {
		d := Sub(off, cum)
		if _, k := st.evalB(BGe(Sub(d, s.n))); !k {
			st.lazyConcr(Sub(d, s.n))
		}
		if st.decide(BGe(Sub(d, s.n))) {
			cum = Add(cum, s.n)
			continue
		}
		return st.unitAt(s, d)
	}
	undec("read at %s beyond sequence", off)
	return nil
}

func (st *State) unitAt(s Seg, d *Lin) Val {
	switch s.k {
	case SByte:
		return s.v
	case SLit:
		return tableAtomSt(st, s.lit, d)
	case SSrc:
		return st.srcUnit(s.sym, Add(s.off, d))
	case SZero:
		return zeroUnit{}
	case SJunk:
		return junkUnit{}
	case SOpq:
		if s.o.kind == "varint" {
			st.lazyConcr(s.n)
			c := st.facts.constOf(s.n)
			return st.unitIn(st.varintBytes(s.o.l, int(c.Int64())), Add(s.off, d))
		}
		if s.o.kind == "unit" {
			return s.o.v
		}
		return opqUnit{s.o, Add(s.off, d)}
	}
	panic("unitAt")
}

type zeroUnit struct{}
type junkUnit struct{}
type opqUnit struct {
	o   *Opq
	off *Lin
}

func tableAtomSt(st *State, s string, d *Lin) *Lin {
	if c := st.facts.constOf(d); c != nil {
		return K(int64(s[c.Int64()]))
	}
	return tableAtom(s, d)
}

// srcUnit is the abstract unit of a symbolic source.
func (st *State) srcUnit(s *Sym, off *Lin) Val {
	off = st.facts.simp(off)
	if s.elem == nil {
		return byteAtom(s, off)
	}
	return st.symElem(s, off)
}

// valKey is a canonical textual identity of a value.
func valKey(v Val) string {
	switch x := v.(type) {
	case *Lin:
		return "L" + x.key
	case Str:
		return "S" + seqKey(x.seq)
	case Iface:
		return "I" + x.typ.String() + ":" + valKey(x.v)
	case SymV:
		return "V" + x.name
	case Float:
		return "F" + x.name
	case Nil:
		return "nil"
	case Struct:
		s := "{"
		for _, f := range x.f {
			s += valKey(f) + ","
		}
		return s + "}"
	case Array:
		s := "["
		for _, f := range x.f {
			s += valKey(f) + ","
		}
		return s + "]"
	case Closure:
		s := "C" + x.fn.String()
		for _, f := range x.b {
			s += "," + valKey(f)
		}
		return s
	}
	return valStr(v)
}

func segKey(s Seg) string {
	switch s.k {
	case SByte:
		return "b" + valKey(s.v)
	case SLit:
		return "l" + s.lit
	case SSrc:
		return "s" + s.sym.name + "@" + s.off.key + "+" + s.n.key
	case SZero:
		return "z" + s.n.key
	case SJunk:
		return "j" + s.n.key
	case SOpq:
		return "o" + s.o.ident() + "@" + s.off.key + "+" + s.n.key
	}
	return "?"
}

// seqKey canonicalises literals into bytes.
func seqKey(q []Seg) string {
	r := ""
	for _, s := range q {
		if s.k == SLit {
			for i := 0; i < len(s.lit); i++ {
				r += "b" + K(int64(s.lit[i])).key2() + ";"
			}
			continue
		}
		if s.k == SByte {
			if l, ok := s.v.(*Lin); ok {
				r += "b" + l.key2() + ";"
				continue
			}
		}
		r += segKey(s) + ";"
	}
	return r
}

func (l *Lin) key2() string { return "L" + l.key }

// litOf returns the constant bytes of q, if constant.
func (st *State) litOf(q []Seg) (string, bool) {
	var r []byte
	for _, s := range q {
		switch s.k {
		case SLit:
			r = append(r, s.lit...)
		case SByte:
			l, ok := s.v.(*Lin)
			if !ok {
				return "", false
			}
			c := st.facts.constOf(l)
			if c == nil {
				return "", false
			}
			r = append(r, byte(c.Int64()))
		case SZero:
			c := st.facts.constOf(s.n)
			if c == nil || c.Int64() > 4096 {
				return "", false
			}
			r = append(r, make([]byte, c.Int64())...)
		default:
			if !st.isZero(s.n) {
				return "", false
			}
		}
	}
	return string(r), true
}

// sameSeq compares two byte sequences for equality under the facts (sound: true only if equal).
func (st *State) sameSeq(a, b []Seg) bool {
	return st.cmpSeq(a, b, false)
}

// covers: every concrete content of b is one of a, whose unspecified bytes may be anything.
func (st *State) covers(a, b []Seg) bool { return st.cmpSeq(a, b, true) }

func (st *State) cmpSeq(a, b []Seg, junk bool) bool {
	a, b = st.compact(a), st.compact(b)
	for {
		if junk && len(a) > 0 && a[0].k == SJunk {
			var rest []Seg
			if err := try(func() { _, rest = st.cut(b, a[0].n) }); err != nil {
				return false
			}
			a, b = a[1:], rest
			continue
		}
		if len(a) == 0 && len(b) == 0 {
			return true
		}
		if len(a) == 0 || len(b) == 0 {
			return false
		}
		x, y := a[0], b[0]
		if x.k == SSrc && y.k == SSrc && x.sym == y.sym && st.linEq(x.off, y.off) && st.linEq(x.n, y.n) {
			a, b = a[1:], b[1:]
			continue
		}
		if x.k == SOpq && y.k == SOpq && x.o.same(y.o) && st.linEq(x.off, y.off) && st.linEq(x.n, y.n) {
			a, b = a[1:], b[1:]
			continue
		}
		if x.k == SZero && y.k == SZero && st.linEq(x.n, y.n) {
			a, b = a[1:], b[1:]
			continue
		}
		// one source may be cut into pieces: compare the shorter prefix
		if x.k == y.k && (x.k == SSrc || x.k == SOpq || x.k == SZero) && (x.k != SSrc || x.sym == y.sym) && (x.k != SOpq || x.o.same(y.o)) && (x.k == SZero || st.linEq(x.off, y.off)) {
			if v, k := st.evalB(BGe(Sub(x.n, y.n))); k {
				if v {
					a = append([]Seg{st.subSeg(x, y.n, Sub(x.n, y.n))}, a[1:]...)
					b = b[1:]
				} else {
					b = append([]Seg{st.subSeg(y, x.n, Sub(y.n, x.n))}, b[1:]...)
					a = a[1:]
				}
				continue
			}
			return false
		}
		// unit by unit
		u, ra, ok1 := st.headUnit(a)
		v, rb, ok2 := st.headUnit(b)
		if !ok1 || !ok2 || !st.sameUnit(u, v) {
			return false
		}
		a, b = ra, rb
	}
}

// headUnit peels one unit off a sequence whose first segment is provably non-empty.
func (st *State) headUnit(q []Seg) (Val, []Seg, bool) {
	s := q[0]
	if y, k := st.evalB(BGe(AddK(s.n, -1))); !k || !y {
		return nil, nil, false
	}
	u := st.unitAt(s, K(0))
	if y, k := st.evalB(BEq(AddK(s.n, -1))); k && y {
		return u, q[1:], true
	}
	return u, append([]Seg{st.subSeg(s, K(1), AddK(s.n, -1))}, q[1:]...), true
}

func (st *State) sameUnit(a, b Val) bool {
	if _, ok := a.(zeroUnit); ok {
		a = K(0)
	}
	if _, ok := b.(zeroUnit); ok {
		b = K(0)
	}
	x, ok1 := a.(*Lin)
	y, ok2 := b.(*Lin)
	if ok1 && ok2 {
		return st.linEq(x, y)
	}
	if _, ok := a.(junkUnit); ok {
		return false
	}
	return valKey(a) == valKey(b)
}

func (st *State) linEq(a, b *Lin) bool {
	if a == b {
		return true
	}
	y, _ := st.facts.isEq0(Sub(a, b))
	if y {
		return true
	}
	if st.bitsEq(a, b) {
		return true
	}
	return st.finiteEq(a, b)
}

// bitsEq compares two non-negative values bit by bit under the facts.
func (st *State) bitsEq(a, b *Lin) bool {
	w := 0
	for _, l := range []*Lin{a, b} {
		iv := st.facts.bound(l)
		if iv.lo == nil || iv.lo.Sign() < 0 || iv.hi == nil || iv.hi.BitLen() > 64 {
			return false
		}
		if iv.hi.BitLen() > w {
			w = iv.hi.BitLen()
		}
	}
	if w > 64 {
		return false
	}
	x, y := st.bitsVal(a, w), st.bitsVal(b, w)
	for i := range x {
		if x[i].key() != y[i].key() {
			return false
		}
	}
	return true
}

// bitsVal gives the bits of l, resolving those known from facts about l itself or its sources.
func (st *State) bitsVal(l *Lin, w int) []Bit {
	r := make([]Bit, w)
	l = st.facts.fold(l)
	for i := range r {
		b := st.facts.knownBit(bitOf(l, i))
		if !b.isConst() {
			if v, ok := st.facts.knownRef(BitRef{l, i}); ok {
				b = Bit{c: v}
			}
		}
		r[i] = b
	}
	return r
}

// expand writes out varints of known length.
func (st *State) expand(q []Seg) []Seg {
	var r []Seg
	for _, s := range q {
		if s.k == SOpq && s.o.kind == "varint" && s.full() {
			if c := st.facts.constOf(s.n); c != nil {
				r = append(r, st.varintBytes(s.o.l, int(c.Int64()))...)
				continue
			}
		}
		r = append(r, s)
	}
	return r
}

func (st *State) unitIn(q []Seg, d *Lin) Val {
	for i, s := range q {
		if st.decide(BEq(AddK(d, -int64(i)))) {
			return s.v
		}
	}
	undec("byte %s of a varint", d)
	return nil
}

// softSplit is splitAt for overwriting: where the position falls at an unknown place
// in or behind an opaque run, that run is forgotten (its bytes become unspecified)
// instead of splitting cases.
func (st *State) softSplit(q []Seg, pos *Lin) (a, b []Seg) {
	cum := K(0)
	for i, s := range q {
		d := Sub(pos, cum)
		if v, known := st.evalB(BEq(d)); known && v {
			return q[:i:i], q[i:]
		}
		rest := Sub(d, s.n)
		v, known := st.evalB(BGe(rest))
		if known && v {
			cum = Add(cum, s.n)
			continue
		}
		if s.k != SSrc && (s.k != SOpq || s.o.kind == "varint") {
			break
		}
		if v, k := st.evalB(BGe(d)); !k || !v {
			break
		}
		if v, k := st.evalB(BGe(Neg(rest))); k && v && (s.k == SSrc || s.k == SOpq && s.o.kind == "star") {
			a = append(q[:i:i], st.subSeg(s, K(0), d))
			b = append([]Seg{st.subSeg(s, d, Sub(s.n, d))}, q[i+1:]...)
			return a, b
		}
		e := cum
		for j := i; j < len(q); j++ {
			e = Add(e, q[j].n)
			if v, k := st.evalB(BGe(Sub(e, pos))); k && v {
				a = append(q[:i:i], segJunk(d))
				b = append([]Seg{segJunk(Sub(e, pos))}, q[j+1:]...)
				return a, b
			}
		}
		break
	}
	return st.splitAt(q, pos)
}
