package main

// Abstract values, segments and the per-partition state.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// Sym is a symbolic source of bytes or list elements.
type Sym struct {
	name string
	n    *Lin
	elem types.Type // nil for bytes
	// hash digests: what is hashed
	hash    string
	content []Seg
	// number of frames for framed buffers
	frames *Lin
}

var symTab = map[string]*Sym{}

func mkSym(name string, n *Lin, elem types.Type) *Sym {
	if s, ok := symTab[name]; ok {
		if s.n == n && (s.elem == nil) == (elem == nil) && (elem == nil || types.Identical(s.elem, elem)) {
			return s
		}
		return mkSym(name+"'", n, elem) // the name is taken by a symbol of another type
	}
	s := &Sym{name: name, n: n, elem: elem}
	symTab[name] = s
	return s
}

// maxLen bounds every length in the analysis.
var maxLen = pow2(28)

func lenVar(name string) *Lin { return VarB("len("+name+")", big0, maxLen) }

type Bool struct {
	op  int // 0 const, 1 l>=0, 2 l==0, 3 atom
	v   bool
	l   *Lin
	key string
	neg bool
}

func BConst(v bool) Bool { return Bool{v: v} }
func BGe(l *Lin) Bool {
	if l.isConst() {
		return BConst(l.c.Sign() >= 0)
	}
	return Bool{op: 1, l: l}
}
func BEq(l *Lin) Bool {
	if l.isConst() {
		return BConst(l.c.Sign() == 0)
	}
	return Bool{op: 2, l: l}
}
func BAtom(key string) Bool { return Bool{op: 3, key: key} }
func (b Bool) Not() Bool {
	if b.op == 0 {
		return BConst(!b.v)
	}
	if b.op == 1 {
		return BGe(AddK(Neg(b.l), -1))
	}
	b.neg = !b.neg
	return b
}
func (b Bool) String() string {
	s := ""
	switch b.op {
	case 0:
		return fmt.Sprint(b.v)
	case 1:
		s = b.l.String() + ">=0"
	case 2:
		s = b.l.String() + "==0"
	case 3:
		s = b.key
	}
	if b.neg {
		return "!(" + s + ")"
	}
	return s
}

type Str struct{ seq []Seg }

type Slice struct {
	obj           int
	off, len, cap *Lin
	nilq          Bool // known to be nil?
	elem          types.Type
}

type Ptr struct {
	obj  int
	path string // "/0/2" field path
	idx  *Lin   // element of a sequence object
	nilq Bool
	typ  types.Type // pointer type
}

type Iface struct {
	typ types.Type
	v   Val
}

// SymV is an opaque value; nil-ness and dynamic type (for interfaces) are facts of the state.
type SymV struct {
	name string
	typ  types.Type
}

type Struct struct {
	f   []Val
	typ types.Type
}

type Array struct {
	f   []Val
	typ types.Type
}

type Closure struct {
	fn *ssa.Function
	b  []Val
}

type Builtin struct{ b *ssa.Builtin }

type Tuple struct{ f []Val }

// Nil is the nil of a pointer, func, interface, map or chan type.
type Nil struct{ typ types.Type }

type Float struct {
	name string
	bits int
}

type MapV struct{ obj int }

type ChanV struct{ obj int }

type MapIter struct {
	m   Val
	obj int
}

// Top is an unknown value of a type.
type Top struct{ typ types.Type }

// ---- segments ----

type SKind int

const (
	SByte SKind = iota // one byte (or one list element) with value v
	SLit               // literal bytes
	SSrc               // n units of a symbolic source from off
	SZero              // n zero units
	SJunk              // n unspecified units
	SOpq               // part [off, off+n) of an opaque thing (field, star, decimal text, time text)
)

type Seg struct {
	k   SKind
	n   *Lin
	v   Val
	lit string
	sym *Sym
	off *Lin
	o   *Opq
}

// Opq is an opaque run of bytes.
type Opq struct {
	kind string // "field", "star", "dec", "time"
	n    *Lin
	// field
	tag int
	enc string // encoder identity
	v   Val
	// star
	star *Star
	// dec / time
	l      *Lin
	layout string
	key    string
}

// Star is the accumulated effect of a loop on a sequence or on the event trace.
type Star struct {
	id    string
	iv    *Lin // iteration index
	n     *Lin // total length
	count *Lin // number of iterations (= iv at the exit)
	alts  []StarAlt
	done  bool
	bnd   *Lin // the boundary of the framed buffer an iteration starts at
}

type StarAlt struct {
	segs []Seg
	evs  []*Event
	st   *State // state at the back edge
}

func segByte(v Val) Seg { return Seg{k: SByte, n: K(1), v: v} }
func segLit(s string) Seg {
	if len(s) == 1 {
		return Seg{k: SByte, n: K(1), v: K(int64(s[0]))}
	}
	return Seg{k: SLit, n: K(int64(len(s))), lit: s}
}
func segSrc(s *Sym, off, n *Lin) Seg { return Seg{k: SSrc, n: n, sym: s, off: off} }
func segZero(n *Lin) Seg             { return Seg{k: SZero, n: n} }
func segJunk(n *Lin) Seg             { return Seg{k: SJunk, n: n} }
func segOpq(o *Opq) Seg              { return Seg{k: SOpq, n: o.n, o: o, off: K(0)} }

func (s Seg) full() bool {
	return s.k == SOpq && s.off.isConst() && s.off.c.Sign() == 0 && s.n == s.o.n
}

func (s Seg) String() string {
	switch s.k {
	case SByte:
		return "<" + valStr(s.v) + ">"
	case SLit:
		return fmt.Sprintf("%q", s.lit)
	case SSrc:
		return fmt.Sprintf("%s[%s:+%s]", s.sym.name, s.off, s.n)
	case SZero:
		return fmt.Sprintf("zero(%s)", s.n)
	case SJunk:
		return fmt.Sprintf("JUNK(%s)", s.n)
	case SOpq:
		t := s.o.String()
		if !s.full() {
			t += fmt.Sprintf("[%s:+%s]", s.off, s.n)
		}
		return t
	}
	return "?"
}

func (o *Opq) String() string {
	switch o.kind {
	case "field":
		return fmt.Sprintf("field(%d,%s)", o.tag, valStr(o.v))
	case "star":
		return "star(" + o.star.id + ")"
	case "dec":
		return "dec(" + o.l.String() + ")"
	case "varint":
		return "varint(" + o.l.String() + ")"
	case "time":
		return "time(" + valStr(o.v) + "," + o.layout + ")"
	}
	return o.kind
}

func seqStr(q []Seg) string {
	p := make([]string, len(q))
	for i, s := range q {
		p[i] = s.String()
	}
	return strings.Join(p, " ")
}

func seqLen(q []Seg) *Lin {
	l := K(0)
	for _, s := range q {
		l = Add(l, s.n)
	}
	return l
}

func valStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case *Lin:
		return x.String()
	case Bool:
		return x.String()
	case Str:
		return "str(" + seqStr(x.seq) + ")"
	case Slice:
		if x.nilq.op == 0 && x.nilq.v {
			return "nilslice"
		}
		return fmt.Sprintf("slice(#%d,%s,%s,%s)", x.obj, x.off, x.len, x.cap)
	case Ptr:
		i := ""
		if x.idx != nil {
			i = "[" + x.idx.String() + "]"
		}
		return fmt.Sprintf("&#%d%s%s", x.obj, x.path, i)
	case Iface:
		return fmt.Sprintf("iface(%s,%s)", types.TypeString(x.typ, shortQual), valStr(x.v))
	case SymV:
		return x.name
	case Struct:
		return "struct{" + valsStr(x.f) + "}"
	case Array:
		return "array{" + valsStr(x.f) + "}"
	case Closure:
		return "func " + x.fn.String() + "(" + valsStr(x.b) + ")"
	case Tuple:
		return "(" + valsStr(x.f) + ")"
	case Nil:
		return "nil"
	case Float:
		return x.name
	case MapV:
		return fmt.Sprintf("map#%d", x.obj)
	case ChanV:
		return fmt.Sprintf("chan#%d", x.obj)
	case Top:
		return "TOP"
	case Builtin:
		return x.b.Name()
	}
	return fmt.Sprintf("%T", v)
}

func shortQual(p *types.Package) string { return p.Name() }

func valsStr(vs []Val) string {
	p := make([]string, len(vs))
	for i, v := range vs {
		p[i] = valStr(v)
	}
	return strings.Join(p, ",")
}

// ---- heap objects ----

type Obj struct {
	id   int
	typ  types.Type // type of the stored value (element type for sequences)
	val  Val        // cell contents
	seq  []Seg      // sequence contents
	isq  bool       // is a sequence
	al   []alias    // other objects that may share memory
	kind string     // "", "map", "chan", "hash", model objects
	x    map[string]Val
	name string
}

type alias struct {
	obj   int
	delta *Lin // position in other = position here + delta
	upto  *Lin // shared positions here are < upto
	from  *Lin
}

func (o *Obj) clone() *Obj {
	c := *o
	if o.x != nil {
		c.x = make(map[string]Val, len(o.x))
		for k, v := range o.x {
			c.x[k] = v
		}
	}
	return &c
}

// Event is a ghost event.
type Event struct {
	prev  *Event
	n     int
	name  string
	args  []Val
	seq   []Seg // snapshot of bytes
	pos   string
	star  *Star
	facts *State // state at the event
}

func (e *Event) String() string {
	if e.star != nil {
		return "loop-events(" + e.star.id + ")"
	}
	s := e.name + "(" + valsStr(e.args) + ")"
	if e.seq != nil {
		s += "{" + seqStr(e.seq) + "}"
	}
	return s
}

type typeFact struct {
	is  types.Type
	not []types.Type
	ity map[string]bool // interface type implemented or not
}

type State struct {
	heap  map[int]*Obj
	own   map[int]bool // objects this state owns (may mutate)
	facts *Facts
	bools map[string]bool
	types map[string]*typeFact
	ghost map[string]Val
	ev    *Event
	next  int
	trail []string // branch decisions, for reports
	glob  map[*ssa.Global]int
	locks map[string]int
	pan   *PanicVal // active panic
}

type PanicVal struct {
	v   Val
	pos string
	msg string
	// explicit: raised by a panic statement
	explicit bool
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, own: map[int]bool{}, facts: newFacts(), bools: map[string]bool{}, types: map[string]*typeFact{}, ghost: map[string]Val{}, next: 1, glob: map[*ssa.Global]int{}, locks: map[string]int{}}
}

func (s *State) clone() *State {
	c := &State{
		heap: make(map[int]*Obj, len(s.heap)), own: map[int]bool{}, facts: s.facts.clone(),
		bools: make(map[string]bool, len(s.bools)), types: make(map[string]*typeFact, len(s.types)),
		ghost: make(map[string]Val, len(s.ghost)), ev: s.ev, next: s.next, glob: make(map[*ssa.Global]int, len(s.glob)),
		locks: make(map[string]int, len(s.locks)), pan: s.pan,
	}
	for k, v := range s.heap {
		c.heap[k] = v
	}
	s.own = map[int]bool{} // both share now
	for k, v := range s.bools {
		c.bools[k] = v
	}
	for k, v := range s.types {
		c.types[k] = v
	}
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	for k, v := range s.glob {
		c.glob[k] = v
	}
	for k, v := range s.locks {
		c.locks[k] = v
	}
	c.trail = s.trail[:len(s.trail):len(s.trail)]
	s.trail = s.trail[:len(s.trail):len(s.trail)]
	return c
}

func (s *State) newObj(o *Obj) int {
	o.id = s.next
	s.next++
	s.heap[o.id] = o
	s.own[o.id] = true
	return o.id
}

func (s *State) obj(id int) *Obj {
	o := s.heap[id]
	if o == nil {
		panic(undecided("dangling object"))
	}
	return o
}

// wobj returns a mutable copy.
func (s *State) wobj(id int) *Obj {
	o := s.obj(id)
	if !s.own[id] {
		o = o.clone()
		s.heap[id] = o
		s.own[id] = true
	}
	return o
}

func (s *State) fresh(prefix string) string {
	n := fmt.Sprintf("%s#%d", prefix, s.next)
	s.next++
	return n
}

func (s *State) event(name string, args ...Val) *Event {
	n := 0
	if s.ev != nil {
		n = s.ev.n + 1
	}
	e := &Event{prev: s.ev, n: n, name: name, args: args}
	s.ev = e
	return e
}

func (s *State) events() []*Event {
	var r []*Event
	for e := s.ev; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- control of the interpretation ----

// splitReq asks for a case split on a condition before the current instruction can be executed.
type splitReq struct{ b Bool }

// enumReq asks to enumerate the values of an atom.
type enumReq struct {
	a      *Atom
	lo, hi int64
}

type undecided string

func (u undecided) Error() string { return string(u) }

type goPanic struct {
	msg string
	v   Val
}

func undec(format string, a ...interface{}) {
	panic(undecided(fmt.Sprintf(format, a...)))
}

// evalB evaluates a condition.
func (s *State) evalB(b Bool) (val, known bool) {
	switch b.op {
	case 0:
		return b.v, true
	case 1:
		y, n := s.facts.isGe0(b.l)
		return y != b.neg, y || n
	case 2:
		y, n := s.facts.isEq0(b.l)
		return y != b.neg, y || n
	case 3:
		v, ok := s.bools[b.key]
		return v != b.neg, ok
	}
	return false, false
}

// assumeB adds a condition; false when contradictory.
func (s *State) assumeB(b Bool, val bool) bool {
	if b.neg {
		b.neg = false
		val = !val
	}
	switch b.op {
	case 0:
		return b.v == val
	case 1:
		if val {
			return s.facts.assumeGe0(b.l) && s.frameRule(b.l)
		}
		n := AddK(Neg(b.l), -1)
		return s.facts.assumeGe0(n) && s.frameRule(n)
	case 2:
		if val {
			return s.facts.assumeEq0(b.l)
		}
		return s.facts.assumeNe0(b.l)
	case 3:
		if v, ok := s.bools[b.key]; ok {
			return v == val
		}
		s.bools[b.key] = val
		return s.boolHook(b.key, val)
	}
	return true
}

// decide returns the truth of b, requesting a split when unknown.
func (s *State) decide(b Bool) bool {
	v, k := s.evalB(b)
	if !k {
		panic(splitReq{b})
	}
	return v
}

func (s *State) ge(a, b *Lin) bool { return s.decide(BGe(Sub(a, b))) }
func (s *State) eq(a, b *Lin) bool { return s.decide(BEq(Sub(a, b))) }

// concr makes small-range atoms of an offset or length concrete (by case split).
func (s *State) concr(l *Lin) *Lin {
	for _, t := range l.t {
		switch t.a.kind {
		case ADiv, ABV, ABitLen, ATable, AFn:
			if isVlen(t.a) {
				continue // only where a position depends on it
			}
			iv := s.facts.bound(linAtom(t.a))
			if iv.lo == nil || iv.hi == nil {
				continue
			}
			d := new(big.Int).Sub(iv.hi, iv.lo)
			if d.Sign() > 0 && d.Cmp(bi(16)) <= 0 {
				panic(enumReq{t.a, iv.lo.Int64(), iv.hi.Int64()})
			}
		}
	}
	return s.facts.simp(l)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
