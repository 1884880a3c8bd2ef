package main

// Integer domain: linear forms over hash-consed atoms, interval facts, bit provenance.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type AKind int

const (
	AVar    AKind = iota // free symbol with static bounds
	ABV                  // unsigned value given bit by bit
	ADiv                 // truncated division of a linear form by a positive constant
	ABitLen              // bits.Len of a non-negative linear form
	AFn                  // uninterpreted function of linear forms (Mul, MulHi, Carry, ...)
	ATable               // byte of a constant string at a linear index
	AByte                // byte of a symbolic source at a linear offset
)

type Atom struct {
	id     int
	key    string
	kind   AKind
	lo, hi *big.Int // static bounds, nil = unbounded
	args   []*Lin
	k      *big.Int
	bits   []Bit
	str    string
	sym    *Sym
}

type Term struct {
	a *Atom
	c *big.Int
}

// Lin is c + sum of coefficient*atom; immutable and hash-consed.
type Lin struct {
	c   *big.Int
	t   []Term
	key string
}

// Bit is c XOR the XOR of the referenced bits.
type Bit struct {
	c  uint8
	xs []BitRef
}

// BitRef is bit i of the two's complement of l.
type BitRef struct {
	l *Lin
	i int
}

var (
	atomTab  = map[string]*Atom{}
	atomList []*Atom
	linTab   = map[string]*Lin{}
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
)

func bi(x int64) *big.Int { return big.NewInt(x) }

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func internAtom(a *Atom) *Atom {
	if b, ok := atomTab[a.key]; ok {
		return b
	}
	a.id = len(atomList)
	atomList = append(atomList, a)
	atomTab[a.key] = a
	internHook(a)
	return a
}

// VarB makes (or finds) a free symbol with static bounds.
func VarB(name string, lo, hi *big.Int) *Lin {
	if a, ok := atomTab[name]; ok && (!sameBig(a.lo, lo) || !sameBig(a.hi, hi)) {
		name = fmt.Sprintf("%s{%v..%v}", name, lo, hi) // the name is taken by a symbol of another type
	}
	return linAtom(internAtom(&Atom{key: name, kind: AVar, lo: lo, hi: hi}))
}

func sameBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Cmp(b) == 0
}

func appBig(b []byte, c *big.Int) []byte {
	if c.IsInt64() {
		return strconv.AppendInt(b, c.Int64(), 10)
	}
	return c.Append(b, 10)
}

func mkLin(c *big.Int, t []Term) *Lin {
	// t must be sorted by atom id with non zero coefs
	var arr [128]byte
	sb := arr[:0]
	sb = appBig(sb, c)
	for _, x := range t {
		sb = append(sb, '|')
		sb = appBig(sb, x.c)
		sb = append(sb, '*')
		sb = strconv.AppendInt(sb, int64(x.a.id), 10)
	}
	if l, ok := linTab[string(sb)]; ok {
		return l
	}
	k := string(sb)
	l := &Lin{c: c, t: t, key: k}
	linTab[k] = l
	return l
}

func K(x int64) *Lin         { return mkLin(bi(x), nil) }
func KB(x *big.Int) *Lin     { return mkLin(new(big.Int).Set(x), nil) }
func linAtom(a *Atom) *Lin   { return mkLin(big0, []Term{{a, big1}}) }
func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) single() *Atom {
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].c.Cmp(big1) == 0 {
		return l.t[0].a
	}
	return nil
}

func addScaled(a, b *Lin, m *big.Int) *Lin {
	if m.Sign() == 0 || (len(b.t) == 0 && b.c.Sign() == 0) {
		return a
	}
	c := new(big.Int).Mul(b.c, m)
	c.Add(c, a.c)
	var t []Term
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].a.id < b.t[j].a.id):
			t = append(t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].a.id < a.t[i].a.id:
			t = append(t, Term{b.t[j].a, new(big.Int).Mul(b.t[j].c, m)})
			j++
		default:
			x := new(big.Int).Mul(b.t[j].c, m)
			x.Add(x, a.t[i].c)
			if x.Sign() != 0 {
				t = append(t, Term{a.t[i].a, x})
			}
			i++
			j++
		}
	}
	return mkLin(c, t)
}

func Add(a, b *Lin) *Lin           { return addScaled(a, b, big1) }
func Sub(a, b *Lin) *Lin           { return addScaled(a, b, bi(-1)) }
func AddK(a *Lin, k int64) *Lin    { return Add(a, K(k)) }
func MulK(a *Lin, k *big.Int) *Lin { return addScaled(K(0), a, k) }
func Neg(a *Lin) *Lin              { return MulK(a, bi(-1)) }
func (l *Lin) coef(a *Atom) *big.Int {
	for _, t := range l.t {
		if t.a == a {
			return t.c
		}
	}
	return nil
}

func (l *Lin) String() string {
	if len(l.t) == 0 {
		return l.c.String()
	}
	var sb strings.Builder
	for i, t := range l.t {
		s := t.c.String()
		if i > 0 && t.c.Sign() > 0 {
			sb.WriteByte('+')
		}
		if s == "1" {
			s = ""
		} else if s == "-1" {
			s = "-"
		} else {
			s += "*"
		}
		sb.WriteString(s)
		sb.WriteString(t.a.String())
	}
	if l.c.Sign() > 0 {
		sb.WriteByte('+')
	}
	if l.c.Sign() != 0 {
		sb.WriteString(l.c.String())
	}
	return sb.String()
}

func (a *Atom) String() string {
	switch a.kind {
	case AVar:
		return a.key
	case ABV:
		// recognise a contiguous shift
		if l, s, n := contiguous(a.bits); l != nil {
			if s == 0 {
				return fmt.Sprintf("low%d(%s)", n, l)
			}
			return fmt.Sprintf("bits%d..%d(%s)", s, s+n-1, l)
		}
		var sb strings.Builder
		sb.WriteString("bv[")
		for i, b := range a.bits {
			if i > 0 {
				sb.WriteByte(',')
			}
			if i > 9 {
				sb.WriteString("...")
				break
			}
			sb.WriteString(b.String())
		}
		sb.WriteString("]")
		return sb.String()
	case ADiv:
		return fmt.Sprintf("(%s)/%s", a.args[0], a.k)
	case ABitLen:
		return fmt.Sprintf("bitlen(%s)", a.args[0])
	case ATable:
		s := a.str
		if len(s) > 12 {
			s = s[:12] + "..."
		}
		return fmt.Sprintf("%q[%s]", s, a.args[0])
	case AByte:
		return fmt.Sprintf("%s[%s]", a.sym.name, a.args[0])
	case AFn:
		var p []string
		for _, x := range a.args {
			p = append(p, x.String())
		}
		return a.str + "(" + strings.Join(p, ",") + ")"
	}
	return a.key
}

// ---- bits ----

var bit0 = Bit{}
var bit1 = Bit{c: 1}

func (b Bit) isConst() bool { return len(b.xs) == 0 }

func (b Bit) key() string {
	if len(b.xs) == 0 {
		if b.c == 0 {
			return "0"
		}
		return "1"
	}
	var sb strings.Builder
	if b.c == 1 {
		sb.WriteByte('~')
	}
	for i, x := range b.xs {
		if i > 0 {
			sb.WriteByte('^')
		}
		sb.WriteString("<" + x.l.key + ">." + strconv.Itoa(x.i))
	}
	return sb.String()
}

func (b Bit) String() string {
	if len(b.xs) == 0 {
		return strconv.Itoa(int(b.c))
	}
	var p []string
	for _, x := range b.xs {
		p = append(p, fmt.Sprintf("(%s).%d", x.l, x.i))
	}
	s := strings.Join(p, "^")
	if b.c == 1 {
		s = "~" + s
	}
	return s
}

func refLess(a, b BitRef) bool {
	if a.l != b.l {
		return a.l.key < b.l.key
	}
	return a.i < b.i
}

func xorBit(a, b Bit) Bit {
	r := Bit{c: a.c ^ b.c}
	i, j := 0, 0
	for i < len(a.xs) || j < len(b.xs) {
		switch {
		case j >= len(b.xs) || (i < len(a.xs) && refLess(a.xs[i], b.xs[j])):
			r.xs = append(r.xs, a.xs[i])
			i++
		case i >= len(a.xs) || refLess(b.xs[j], a.xs[i]):
			r.xs = append(r.xs, b.xs[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}

func notBit(a Bit) Bit { return Bit{c: a.c ^ 1, xs: a.xs} }

func andBit(a, b Bit) Bit {
	if a.isConst() {
		if a.c == 0 {
			return bit0
		}
		return b
	}
	if b.isConst() {
		return andBit(b, a)
	}
	if a.key() == b.key() {
		return a
	}
	x, y := mkBV([]Bit{a}), mkBV([]Bit{b})
	if y.key < x.key {
		x, y = y, x
	}
	f := fnAtom("and", big0, big1, x, y)
	return Bit{xs: []BitRef{{f, 0}}}
}

func orBit(a, b Bit) Bit { return notBit(andBit(notBit(a), notBit(b))) }

// staticBounds gives bounds of a linear form from its atoms' static bounds.
func staticBounds(l *Lin) (lo, hi *big.Int) {
	lo, hi = l.c, l.c
	for _, t := range l.t {
		alo, ahi := t.a.lo, t.a.hi
		if t.c.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(t.c, alo))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(t.c, ahi))
			}
		}
	}
	return
}

// bitOf is bit i of l's two's complement, normalised with static bounds.
func bitOf(l *Lin, i int) Bit {
	if l.isConst() {
		v := l.c
		if v.Sign() < 0 {
			v = new(big.Int).Add(v, pow2(i+2+v.BitLen()))
		}
		return Bit{c: uint8(v.Bit(i))}
	}
	if a := l.single(); a != nil && a.kind == ABV {
		if i < len(a.bits) {
			return a.bits[i]
		}
		return bit0
	}
	// the negation of a single bit: every bit is that bit
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].c.Cmp(bi(-1)) == 0 {
		if a := l.t[0].a; a.kind == ABV && len(a.bits) == 1 {
			return a.bits[0]
		}
	}
	lo, hi := staticBounds(l)
	if hi != nil && lo != nil {
		if lo.Sign() >= 0 {
			if i >= hi.BitLen() {
				return bit0
			}
		} else {
			n := hi.BitLen()
			m := new(big.Int).Not(lo).BitLen()
			if m > n {
				n = m
			}
			if i > n {
				i = n
			}
		}
	}
	// an even/odd shift by a multiple of a power of two: k*2^s*x + c with c < 2^s
	if s := commonShift(l); s > 0 {
		c := l.c
		if c.Sign() >= 0 && c.BitLen() <= s {
			if i < s {
				return Bit{c: uint8(c.Bit(i))}
			}
			rest := divExact(l, s)
			return bitOf(rest, i-s)
		}
	}
	return Bit{xs: []BitRef{{l, i}}}
}

// commonShift: the largest s such that 2^s divides all coefficients.
func commonShift(l *Lin) int {
	s := -1
	for _, t := range l.t {
		z := int(t.c.TrailingZeroBits())
		if s < 0 || z < s {
			s = z
		}
	}
	if s < 0 {
		return 0
	}
	return s
}

// divExact drops the constant and divides coefficients by 2^s.
func divExact(l *Lin, s int) *Lin {
	var t []Term
	for _, x := range l.t {
		t = append(t, Term{x.a, new(big.Int).Rsh(x.c, uint(s))})
	}
	return mkLin(big0, t)
}

func bitsOf(l *Lin, w int) []Bit {
	r := make([]Bit, w)
	for i := range r {
		r[i] = bitOf(l, i)
	}
	return r
}

// contiguous reports bits == (l, s), (l, s+1), ... (l, s+n-1).
func contiguous(bits []Bit) (l *Lin, s, n int) {
	for i, b := range bits {
		if b.c != 0 || len(b.xs) != 1 {
			return nil, 0, 0
		}
		if i == 0 {
			l, s = b.xs[0].l, b.xs[0].i
		} else if b.xs[0].l != l || b.xs[0].i != s+i {
			return nil, 0, 0
		}
	}
	return l, s, len(bits)
}

// mkBV makes the unsigned value with the given bits (little endian).
func mkBV(bits []Bit) *Lin {
	n := len(bits)
	for n > 0 && bits[n-1].isConst() && bits[n-1].c == 0 {
		n--
	}
	bits = bits[:n]
	allc := true
	for _, b := range bits {
		if !b.isConst() {
			allc = false
			break
		}
	}
	if allc {
		v := new(big.Int)
		for i, b := range bits {
			v.SetBit(v, i, uint(b.c))
		}
		return KB(v)
	}
	if l, s, m := contiguous(bits); l != nil && s == 0 {
		lo, hi := staticBounds(l)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= m {
			return l
		}
	}
	// low zero bits: 2^z * rest
	z := 0
	for z < n && bits[z].isConst() && bits[z].c == 0 {
		z++
	}
	if z > 0 {
		return MulK(mkBV(bits[z:]), pow2(z))
	}
	// split off constant bits: a value whose non-constant bits form one contiguous low run plus constant high bits
	var sb strings.Builder
	sb.WriteString("bv:")
	for i, b := range bits {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(b.key())
	}
	lo := new(big.Int)
	hi := new(big.Int)
	for i, b := range bits {
		if b.isConst() {
			lo.SetBit(lo, i, uint(b.c))
			hi.SetBit(hi, i, uint(b.c))
		} else {
			hi.SetBit(hi, i, 1)
		}
	}
	if l, s, m := contiguous(bits); l != nil {
		if b, h := staticBounds(l); b != nil && b.Sign() >= 0 && h != nil && h.BitLen() <= s+m {
			x := new(big.Int).Rsh(h, uint(s))
			if x.Cmp(hi) < 0 {
				hi = x
			}
		}
	}
	bb := make([]Bit, n)
	copy(bb, bits)
	return linAtom(internAtom(&Atom{key: sb.String(), kind: ABV, lo: lo, hi: hi, bits: bb}))
}

func fnAtom(name string, lo, hi *big.Int, args ...*Lin) *Lin {
	var sb strings.Builder
	sb.WriteString("fn:" + name)
	for _, a := range args {
		sb.WriteString("{" + a.key + "}")
	}
	return linAtom(internAtom(&Atom{key: sb.String(), kind: AFn, lo: lo, hi: hi, args: args, str: name}))
}

func divAtom(l *Lin, k *big.Int) *Lin {
	lo, hi := staticBounds(l)
	if lo != nil {
		lo = new(big.Int).Quo(lo, k)
	}
	if hi != nil {
		hi = new(big.Int).Quo(hi, k)
	}
	return linAtom(internAtom(&Atom{key: "div:" + l.key + "/" + k.String(), kind: ADiv, args: []*Lin{l}, k: k, lo: lo, hi: hi}))
}

func bitLenAtom(l *Lin) *Lin {
	if l.isConst() {
		return K(int64(l.c.BitLen()))
	}
	lo, hi := staticBounds(l)
	h := bi(64)
	if hi != nil && hi.BitLen() < 64 {
		h = bi(int64(hi.BitLen()))
	}
	b := big0
	if lo != nil && lo.Sign() > 0 {
		b = bi(int64(lo.BitLen()))
	}
	return linAtom(internAtom(&Atom{key: "bitlen:" + l.key, kind: ABitLen, args: []*Lin{l}, lo: b, hi: h}))
}

func tableAtom(s string, idx *Lin) *Lin {
	if idx.isConst() {
		return K(int64(s[idx.c.Int64()]))
	}
	lo, hi := byte(255), byte(0)
	for i := 0; i < len(s); i++ {
		if s[i] < lo {
			lo = s[i]
		}
		if s[i] > hi {
			hi = s[i]
		}
	}
	return linAtom(internAtom(&Atom{key: "tab:" + s + "@" + idx.key, kind: ATable, args: []*Lin{idx}, str: s, lo: bi(int64(lo)), hi: bi(int64(hi))}))
}

func byteAtom(s *Sym, off *Lin) *Lin {
	return linAtom(internAtom(&Atom{key: "byte:" + s.name + "@" + off.key, kind: AByte, args: []*Lin{off}, sym: s, lo: big0, hi: bi(255)}))
}

// ---- facts ----

type Itv struct{ lo, hi *big.Int }

// Facts holds the interval facts of one partition.
type Facts struct {
	atoms map[*Atom]Itv
	forms map[string]*form // multi-atom linear parts
	neq   map[string]bool  // canonical linear forms known to be non zero
	dead  bool
	memo  map[string]Itv   // may be shared between copies: replaced, never emptied, when the facts change
	order []*form          // forms in a fixed order, nil when stale
	bitk  map[string]uint8 // known exclusive-ors of bits
}

type form struct {
	l  *Lin // linear part, c == 0, normalised
	iv Itv
}

func newFacts() *Facts {
	return &Facts{atoms: map[*Atom]Itv{}, forms: map[string]*form{}, neq: map[string]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{atoms: make(map[*Atom]Itv, len(f.atoms)), forms: make(map[string]*form, len(f.forms)), neq: make(map[string]bool, len(f.neq)), dead: f.dead, memo: f.memo, order: f.order}
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	for k, v := range f.forms {
		g.forms[k] = v
	}
	for k, v := range f.neq {
		g.neq[k] = v
	}
	if len(f.bitk) > 0 {
		g.bitk = make(map[string]uint8, len(f.bitk))
		for k, v := range f.bitk {
			g.bitk[k] = v
		}
	}
	return g
}

// normForm splits l into m*part + c with a normalised part.
func normForm(l *Lin) (part *Lin, m *big.Int, c *big.Int) {
	g := new(big.Int)
	for _, t := range l.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if l.t[0].c.Sign() < 0 {
		g.Neg(g)
	}
	t := make([]Term, len(l.t))
	for i, x := range l.t {
		t[i] = Term{x.a, new(big.Int).Quo(x.c, g)}
	}
	return mkLin(big0, t), g, l.c
}

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, r := new(big.Int), new(big.Int)
	q.QuoRem(a, b, r)
	if r.Sign() < 0 {
		q.Sub(q, big1)
	}
	return q
}

func ceilDiv(a, b *big.Int) *big.Int { return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), b)) }

func (f *Facts) atomItv(a *Atom) Itv {
	iv, ok := f.atoms[a]
	if !ok {
		iv = Itv{a.lo, a.hi}
	}
	return iv
}

func maxB(a, b *big.Int) *big.Int { // nil = -inf
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func minB(a, b *big.Int) *big.Int { // nil = +inf
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

func (f *Facts) baseBound(l *Lin) Itv {
	lo, hi := l.c, l.c
	for _, t := range l.t {
		iv := f.atomItv(t.a)
		alo, ahi := iv.lo, iv.hi
		if t.c.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(t.c, alo))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(t.c, ahi))
			}
		}
	}
	return Itv{lo, hi}
}

func scaleItv(iv Itv, m *big.Int, c *big.Int) Itv {
	lo, hi := iv.lo, iv.hi
	if m.Sign() < 0 {
		lo, hi = hi, lo
	}
	r := Itv{}
	if lo != nil {
		r.lo = new(big.Int).Add(new(big.Int).Mul(lo, m), c)
	}
	if hi != nil {
		r.hi = new(big.Int).Add(new(big.Int).Mul(hi, m), c)
	}
	return r
}

func meet(a, b Itv) Itv { return Itv{maxB(a.lo, b.lo), minB(a.hi, b.hi)} }

func addItv(a, b Itv) Itv {
	r := Itv{}
	if a.lo != nil && b.lo != nil {
		r.lo = new(big.Int).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		r.hi = new(big.Int).Add(a.hi, b.hi)
	}
	return r
}

// bound computes sound bounds of l.
func (f *Facts) bound(l *Lin) Itv {
	if l.isConst() {
		return Itv{l.c, l.c}
	}
	if f.memo == nil {
		f.memo = map[string]Itv{}
	}
	if iv, ok := f.memo[l.key]; ok {
		return iv
	}
	iv := f.boundDepth(l, 2)
	f.memo[l.key] = iv
	return iv
}

// fold substitutes atoms known to be constant.
func (f *Facts) fold(l *Lin) *Lin {
	r := l
	for _, t := range l.t {
		iv := f.atomItv(t.a)
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
			r = addScaled(addScaled(r, linAtom(t.a), new(big.Int).Neg(t.c)), KB(iv.lo), t.c)
		}
	}
	return r
}

// refold rewrites the facts about forms containing atoms that became constant.
func (f *Facts) refold() bool {
	for _, fm := range f.sorted() {
		k := fm.l.key
		if f.forms[k] != fm {
			continue
		}
		r := f.fold(fm.l)
		if r == fm.l {
			continue
		}
		delete(f.forms, k)
		f.order = nil
		f.memo = nil
		if !f.restrict(r, fm.iv) {
			return false
		}
	}
	return true
}

func (f *Facts) sorted() []*form {
	if f.order == nil {
		f.order = make([]*form, 0, len(f.forms))
		for _, k := range sortedKeys(f.forms) {
			f.order = append(f.order, f.forms[k])
		}
	}
	return f.order
}

func (f *Facts) boundDepth(l *Lin, depth int) (res Itv) {
	l = f.fold(l)
	if l.isConst() {
		return Itv{l.c, l.c}
	}
	if depth == 1 && f.memo != nil {
		mk := "1:" + l.key
		if iv, ok := f.memo[mk]; ok {
			return iv
		}
		m := f.memo
		defer func() { m[mk] = res }()
	}
	iv := f.baseBound(l)
	if len(l.t) > 1 {
		p, m, c := normForm(l)
		if fm, ok := f.forms[p.key]; ok {
			iv = meet(iv, scaleItv(fm.iv, m, c))
		}
	}
	if depth == 0 {
		return iv
	}
	// eliminate an atom with a fact
	for _, fm := range f.sorted() {
		// first shared atom
		done := map[string]bool{}
		for _, t := range fm.l.t {
			lc := l.coef(t.a)
			if lc == nil {
				continue
			}
			q, r := new(big.Int), new(big.Int)
			q.QuoRem(lc, t.c, r)
			if r.Sign() != 0 || done[q.String()] {
				continue
			}
			done[q.String()] = true
			rest := addScaled(l, fm.l, new(big.Int).Neg(q))
			d := depth - 1
			if len(rest.t) > len(l.t)+1 {
				d = 0
			}
			x := addItv(f.boundDepth(rest, d), scaleItv(fm.iv, q, big0))
			iv = meet(iv, x)
		}
	}
	return iv
}

func (f *Facts) isGe0(l *Lin) (yes, no bool) {
	iv := f.bound(l)
	if iv.lo != nil && iv.lo.Sign() >= 0 {
		return true, false
	}
	if iv.hi != nil && iv.hi.Sign() < 0 {
		return false, true
	}
	// l >= -c with l != 0 facts
	if iv.hi != nil && iv.hi.Sign() == 0 && f.neq[neqKey(l)] {
		return false, true
	}
	return false, false
}

func (f *Facts) isEq0(l *Lin) (yes, no bool) {
	iv := f.bound(l)
	if iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
		return true, false
	}
	if (iv.lo != nil && iv.lo.Sign() > 0) || (iv.hi != nil && iv.hi.Sign() < 0) {
		return false, true
	}
	if !l.isConst() && f.neq[neqKey(l)] {
		return false, true
	}
	// gcd test
	if !l.isConst() {
		_, m, c := normForm(l)
		if new(big.Int).Rem(c, m).Sign() != 0 {
			return false, true
		}
	}
	return false, false
}

func neqKey(l *Lin) string {
	if l.isConst() {
		return "c" + l.key
	}
	if l.t[0].c.Sign() < 0 {
		l = Neg(l)
	}
	return l.key
}

// constOf returns the constant l is known to equal, or nil.
func (f *Facts) constOf(l *Lin) *big.Int {
	if l.isConst() {
		return l.c
	}
	iv := f.bound(l)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
		return iv.lo
	}
	return nil
}

func (f *Facts) simp(l *Lin) *Lin {
	if l.isConst() {
		return l
	}
	if c := f.constOf(l); c != nil {
		return KB(c)
	}
	// substitute atoms with known constants
	r := l
	for _, t := range l.t {
		iv := f.atomItv(t.a)
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
			r = addScaled(addScaled(r, linAtom(t.a), new(big.Int).Neg(t.c)), KB(iv.lo), t.c)
		}
	}
	return r
}

// assumeGe0 adds l >= 0; returns false when contradictory.
func (f *Facts) assumeGe0(l *Lin) bool {
	return f.restrict(l, Itv{lo: big0})
}

func (f *Facts) assumeEq0(l *Lin) bool {
	return f.restrict(l, Itv{big0, big0})
}

func (f *Facts) assumeNe0(l *Lin) bool {
	if y, n := f.isEq0(l); y {
		f.dead = true
		return false
	} else if n {
		return true
	}
	f.neq[neqKey(l)] = true
	f.memo = nil
	iv := f.bound(l)
	if iv.lo != nil && iv.lo.Sign() == 0 {
		return f.restrict(l, Itv{lo: big1})
	}
	if iv.hi != nil && iv.hi.Sign() == 0 {
		return f.restrict(l, Itv{hi: bi(-1)})
	}
	return true
}

// restrict meets the range of l with iv.
func (f *Facts) restrict(l *Lin, iv Itv) bool {
	if f.dead {
		return false
	}
	l = f.fold(l)
	cur := f.bound(l)
	n := meet(cur, iv)
	if n.lo != nil && n.hi != nil && n.lo.Cmp(n.hi) > 0 {
		f.dead = true
		return false
	}
	if l.isConst() {
		return true
	}
	if !tighter(n, cur) {
		return true
	}
	f.memo = nil
	p, m, c := normForm(l)
	// p = (l - c)/m
	var lo, hi *big.Int
	sub := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, c) }
	if m.Sign() > 0 {
		if n.lo != nil {
			lo = ceilDiv(sub(n.lo), m)
		}
		if n.hi != nil {
			hi = floorDiv(sub(n.hi), m)
		}
	} else {
		mm := new(big.Int).Neg(m)
		if n.hi != nil {
			lo = ceilDiv(new(big.Int).Neg(sub(n.hi)), mm)
		}
		if n.lo != nil {
			hi = floorDiv(new(big.Int).Neg(sub(n.lo)), mm)
		}
	}
	piv := Itv{lo, hi}
	if len(p.t) == 1 {
		return f.setAtom(p.t[0].a, piv) && f.propagate()
	}
	old := f.forms[p.key]
	if old != nil {
		piv = meet(piv, old.iv)
	}
	if piv.lo != nil && piv.hi != nil && piv.lo.Cmp(piv.hi) > 0 {
		f.dead = true
		return false
	}
	f.forms[p.key] = &form{p, piv}
	f.order = nil
	return f.propagate()
}

// refute looks harder for a contradiction: what follows about single atoms by combining facts is made a fact itself.
func (f *Facts) refute() bool {
	_, dead := f.tighten()
	return dead
}

// tighten returns the facts with those consequences added, or that they are contradictory.
func (f *Facts) tighten() (*Facts, bool) {
	g := f.clone()
	for round := 0; round < 4 && !g.dead; round++ {
		ats := map[*Atom]bool{}
		var visit func(l *Lin)
		visit = func(l *Lin) {
			for _, t := range l.t {
				if ats[t.a] {
					continue
				}
				ats[t.a] = true
				for _, x := range t.a.args {
					visit(x)
				}
			}
		}
		for _, fm := range g.sorted() {
			visit(fm.l)
		}
		changed := false
		for _, a := range atomList {
			if !ats[a] {
				continue
			}
			old := g.atomItv(a)
			iv := g.bound(linAtom(a))
			if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) > 0 {
				return g, true
			}
			if !tighter(iv, old) {
				continue
			}
			changed = true
			g.memo = nil
			if !g.setAtom(a, iv) || !g.propagate() || g.dead {
				return g, true
			}
		}
		// what forms are bounded by, too
		for _, fm := range g.sorted() {
			iv := g.bound(fm.l)
			if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) > 0 {
				return g, true
			}
			if tighter(iv, fm.iv) {
				changed = true
				g.forms[fm.l.key] = &form{fm.l, meet(iv, fm.iv)}
				g.order, g.memo = nil, nil
				if !g.propagate() || g.dead {
					return g, true
				}
			}
		}
		if !changed {
			break
		}
	}
	return g, g.dead
}

func tighter(n, old Itv) bool {
	if n.lo != nil && (old.lo == nil || n.lo.Cmp(old.lo) > 0) {
		return true
	}
	if n.hi != nil && (old.hi == nil || n.hi.Cmp(old.hi) < 0) {
		return true
	}
	return false
}

func (f *Facts) setAtom(a *Atom, iv Itv) bool {
	cur := f.atomItv(a)
	n := meet(cur, iv)
	if n.lo != nil && n.hi != nil && n.lo.Cmp(n.hi) > 0 {
		f.dead = true
		return false
	}
	// neq endpoint tightening
	for n.lo != nil && f.neq[neqKey(addScaled(linAtom(a), KB(n.lo), bi(-1)))] {
		n.lo = new(big.Int).Add(n.lo, big1)
		if n.hi != nil && n.lo.Cmp(n.hi) > 0 {
			f.dead = true
			return false
		}
	}
	for n.hi != nil && f.neq[neqKey(addScaled(linAtom(a), KB(n.hi), bi(-1)))] {
		n.hi = new(big.Int).Sub(n.hi, big1)
		if n.lo != nil && n.lo.Cmp(n.hi) > 0 {
			f.dead = true
			return false
		}
	}
	if !tighter(n, cur) {
		if _, ok := f.atoms[a]; !ok {
			return true
		}
		return true
	}
	f.atoms[a] = n
	f.memo = nil
	switch a.kind {
	case ABitLen:
		// value in [2^(lo-1), 2^hi-1]
		r := Itv{}
		if n.lo != nil && n.lo.Sign() > 0 {
			r.lo = pow2(int(n.lo.Int64()) - 1)
		}
		if n.hi != nil {
			r.hi = new(big.Int).Sub(pow2(int(n.hi.Int64())), big1)
		}
		return f.restrict(a.args[0], r)
	case ADiv:
		r := Itv{}
		if n.lo != nil && n.lo.Sign() > 0 {
			r.lo = new(big.Int).Mul(n.lo, a.k)
		} else if n.lo != nil { // trunc: q >= lo (<=0) means l > (lo-1)*k
			r.lo = new(big.Int).Add(new(big.Int).Mul(new(big.Int).Sub(n.lo, big1), a.k), big1)
		}
		if n.hi != nil && n.hi.Sign() < 0 {
			r.hi = new(big.Int).Mul(n.hi, a.k)
		} else if n.hi != nil {
			r.hi = new(big.Int).Sub(new(big.Int).Mul(new(big.Int).Add(n.hi, big1), a.k), big1)
		}
		return f.restrict(a.args[0], r)
	case ABV:
		if n.lo != nil && n.hi != nil && n.lo.Sign() >= 0 {
			for j := len(a.bits) - 1; j >= 0; j-- {
				if new(big.Int).Rsh(n.lo, uint(j)).Cmp(new(big.Int).Rsh(n.hi, uint(j))) != 0 {
					break
				}
				v := uint8(n.lo.Bit(j))
				b := f.knownBit(a.bits[j])
				if b.isConst() {
					if b.c != v {
						f.dead = true
						return false
					}
					continue
				}
				if f.bitk == nil {
					f.bitk = map[string]uint8{}
				}
				f.bitk[Bit{xs: b.xs}.key()] = v ^ b.c
			}
		}
		if l, s, m := contiguous(a.bits); l != nil {
			b := f.bound(l)
			if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.BitLen() <= s+m {
				r := Itv{}
				if n.lo != nil && n.lo.Sign() >= 0 {
					r.lo = new(big.Int).Lsh(n.lo, uint(s))
				}
				if n.hi != nil {
					r.hi = new(big.Int).Sub(new(big.Int).Lsh(new(big.Int).Add(n.hi, big1), uint(s)), big1)
				}
				return f.restrict(l, r)
			}
		}
	}
	return true
}

// propagate pushes bounds through forms and derived atoms, a bounded number of rounds.
func (f *Facts) propagate() bool {
	for round := 0; round < 4; round++ {
		changed := false
		if !f.refold() {
			return false
		}
		for _, fm := range f.sorted() {
			if f.dead {
				return false
			}
			for _, t := range fm.l.t {
				// t.c*a = form - rest
				rest := addScaled(fm.l, linAtom(t.a), new(big.Int).Neg(t.c))
				rb := f.baseBound(rest)
				x := addItv(fm.iv, scaleItv(rb, bi(-1), big0))
				var lo, hi *big.Int
				if t.c.Sign() > 0 {
					if x.lo != nil {
						lo = ceilDiv(x.lo, t.c)
					}
					if x.hi != nil {
						hi = floorDiv(x.hi, t.c)
					}
				} else {
					mm := new(big.Int).Neg(t.c)
					if x.hi != nil {
						lo = ceilDiv(new(big.Int).Neg(x.hi), mm)
					}
					if x.lo != nil {
						hi = floorDiv(new(big.Int).Neg(x.lo), mm)
					}
				}
				iv := Itv{lo, hi}
				if tighter(iv, f.atomItv(t.a)) {
					changed = true
					if !f.setAtom(t.a, iv) {
						return false
					}
				}
			}
		}
		// derived atoms occurring in facts
		seen := map[*Atom]bool{}
		var visit func(a *Atom) bool
		visit = func(a *Atom) bool {
			if seen[a] {
				return true
			}
			seen[a] = true
			iv, ok := f.derived(a)
			if ok && tighter(iv, f.atomItv(a)) {
				changed = true
				if !f.setAtom(a, iv) {
					return false
				}
			}
			return true
		}
		keys := make([]*Atom, 0, len(f.atoms))
		for a := range f.atoms {
			keys = append(keys, a)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, a := range keys {
			if !visit(a) {
				return false
			}
			for _, d := range dependents[a] {
				if !visit(d) {
					return false
				}
			}
		}
		for _, fm := range f.sorted() {
			for _, t := range fm.l.t {
				if t.a.kind != AVar && !visit(t.a) {
					return false
				}
			}
		}
		if !changed {
			break
		}
	}
	return !f.dead
}

// dependents maps an atom to the derived atoms built from it.
var dependents = map[*Atom][]*Atom{}

func init() {
	internHook = func(a *Atom) {
		add := func(l *Lin) {
			for _, t := range l.t {
				dependents[t.a] = append(dependents[t.a], a)
			}
		}
		for _, l := range a.args {
			add(l)
		}
		if a.kind == ABV {
			if l, _, _ := contiguous(a.bits); l != nil {
				add(l)
			}
		}
	}
}

var internHook func(a *Atom)

// derived computes an atom's bounds from the bounds of what it is made of.
func (f *Facts) derived(a *Atom) (Itv, bool) {
	switch a.kind {
	case ABitLen:
		b := f.bound(a.args[0])
		r := Itv{}
		if b.lo != nil && b.lo.Sign() >= 0 {
			r.lo = bi(int64(b.lo.BitLen()))
		}
		if b.hi != nil && b.hi.Sign() >= 0 {
			r.hi = bi(int64(b.hi.BitLen()))
		}
		return r, true
	case ADiv:
		b := f.bound(a.args[0])
		r := Itv{}
		if b.lo != nil {
			r.lo = new(big.Int).Quo(b.lo, a.k)
		}
		if b.hi != nil {
			r.hi = new(big.Int).Quo(b.hi, a.k)
		}
		return r, true
	case ABV:
		if l, s, m := contiguous(a.bits); l != nil {
			b := f.bound(l)
			if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.BitLen() <= s+m {
				return Itv{new(big.Int).Rsh(b.lo, uint(s)), new(big.Int).Rsh(b.hi, uint(s))}, true
			}
		}
	}
	return Itv{}, false
}

// knownBit resolves a bit to a constant when the facts determine it.
func (f *Facts) knownBit(b Bit) Bit {
	if b.isConst() {
		return b
	}
	r := Bit{c: b.c}
	for _, x := range b.xs {
		if v, ok := f.knownRef(x); ok {
			r.c ^= v
		} else if l := f.fold(x.l); l != x.l {
			r = xorBit(r, bitOf(l, x.i))
		} else {
			r = xorBit(r, Bit{xs: []BitRef{x}})
		}
	}
	if len(f.bitk) > 0 && !r.isConst() {
		if v, ok := f.bitk[Bit{xs: r.xs}.key()]; ok {
			return Bit{c: r.c ^ v}
		}
	}
	return r
}

func (f *Facts) knownRef(x BitRef) (uint8, bool) {
	iv := f.bound(x.l)
	if iv.lo == nil || iv.hi == nil {
		return 0, false
	}
	lo, hi := iv.lo, iv.hi
	if lo.Sign() < 0 {
		if hi.Sign() >= 0 {
			return 0, false
		}
		w := lo.BitLen()
		if x.i+1 > w {
			w = x.i + 1
		}
		lo = new(big.Int).Add(lo, pow2(w+1))
		hi = new(big.Int).Add(hi, pow2(w+1))
	}
	a := new(big.Int).Rsh(lo, uint(x.i))
	b := new(big.Int).Rsh(hi, uint(x.i))
	if a.Cmp(b) == 0 {
		return uint8(a.Bit(0)), true
	}
	return 0, false
}

// normBits resolves known bits.
func (f *Facts) normBits(bits []Bit) []Bit {
	r := make([]Bit, len(bits))
	for i, b := range bits {
		r[i] = f.knownBit(b)
	}
	return r
}
