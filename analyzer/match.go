package main

// Matching of decoded messages against what the caller passed.

import (
	"fmt"
	"go/types"
	"strings"
)

// FM matches the value of one field.
type FM func(st *State, f DField) error

type FSpec struct {
	num  int
	m    FM   // exactly one
	opt  bool // may be absent: then the default must be what is wanted
	def  func(st *State) bool
	each func(i *Lin) FM // a list
	n    func(st *State) *Lin
}

type MSpec []FSpec

func One(num int, m FM) FSpec { return FSpec{num: num, m: m} }

// Each wants the list of n elements, in order.
func Each(num int, n func(st *State) *Lin, e func(i *Lin) FM) FSpec {
	return FSpec{num: num, each: e, n: n}
}

// OneOr: one field, or none when def holds.
func OneOr(num int, m FM, def func(st *State) bool) FSpec {
	return FSpec{num: num, m: m, opt: true, def: def}
}

func merr(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }

// Bytes wants exactly the given bytes.
func Bytes(q func(st *State) []Seg) FM {
	return func(st *State, f DField) error {
		w := q(st)
		if f.fd == nil || f.opq != nil || f.msg != nil || f.lin != nil {
			return merr("field %d is not a string", f.num)
		}
		if !st.sameSeq(f.seq, w) {
			return merr("field %s is %s, expected %s", f.fd.name, clip(seqStr(st.compact(f.seq))), clip(seqStr(w)))
		}
		return nil
	}
}

func LitB(s string) FM {
	return Bytes(func(*State) []Seg {
		if s == "" {
			return nil
		}
		return []Seg{segLit(s)}
	})
}

// Num wants exactly the given number.
func Num(q func(st *State) *Lin) FM {
	return func(st *State, f DField) error {
		if f.lin == nil {
			return merr("field %d is not a number", f.num)
		}
		if w := q(st); !st.linEq(f.lin, w) {
			return merr("field %s is %s, expected %s", f.fd.name, clip(f.lin.String()), clip(w.String()))
		}
		return nil
	}
}

func NumK(k int64) FM { return Num(func(*State) *Lin { return K(k) }) }

// Sub wants a nested message.
func Msg(s MSpec) FM {
	return func(st *State, f DField) error {
		if f.msg == nil {
			if f.opq != nil {
				return merr("field %d is the encoding of %s, expected a %s built in place", f.num, valStr(f.opq.v), f.fd.typ)
			}
			return merr("field %d is not a message", f.num)
		}
		return s.match(st, f.msg)
	}
}

// Val wants the encoding of an arbitrary caller's value.
func ValOf(v func(st *State) Val) FM {
	return func(st *State, f DField) error {
		if f.opq == nil {
			return merr("field %d is not the encoding of the caller's value", f.num)
		}
		if w := v(st); !sameVal(st, f.opq.v, w) {
			return merr("field %s encodes %s, expected %s", f.fd.name, valStr(f.opq.v), valStr(w))
		}
		return nil
	}
}

func Any2(a, b FM) FM {
	return func(st *State, f DField) error {
		e := a(st, f)
		if e == nil {
			return nil
		}
		if e2 := b(st, f); e2 != nil {
			return merr("%v; or %v", e, e2)
		}
		return nil
	}
}

func (s MSpec) spec(num int) *FSpec {
	for i := range s {
		if s[i].num == num {
			return &s[i]
		}
	}
	return nil
}

// defaultish: the field has the value it would have if absent.
func defaultish(st *State, f DField) bool {
	if f.fd == nil || !f.fd.hasDef {
		return false
	}
	switch {
	case f.lin != nil:
		want := int64(-1)
		if f.fd.enum != nil {
			if v, ok := f.fd.enum.vals[f.fd.def]; ok {
				want = int64(v)
			}
		} else if f.fd.def == "false" {
			want = 0
		} else if f.fd.def == "true" {
			want = 1
		} else {
			fmt.Sscan(f.fd.def, &want)
		}
		c := st.facts.constOf(f.lin)
		return c != nil && c.IsInt64() && c.Int64() == want
	case f.seq != nil || f.fd.typ == "string" || f.fd.typ == "bytes":
		l, ok := st.litOf(f.seq)
		return ok && l == strings.Trim(f.fd.def, `"`)
	}
	return false
}

// match compares a decoded message with the specification.
func (s MSpec) match(st *State, m *DMsg) error {
	type cur struct {
		c    *Lin
		seen int
	}
	curs := map[int]*cur{}
	for i := range s {
		curs[s[i].num] = &cur{c: K(0)}
	}
	for _, f := range m.f {
		if f.star != nil {
			nums := map[int]bool{}
			for _, a := range f.star.alts {
				for _, g := range a.f {
					if g.star != nil {
						return merr("nested repetition in %s", m.def.name)
					}
					sp := s.spec(g.num)
					if sp == nil || sp.each == nil {
						return merr("unexpected repeated field %s in %s", g.fd.name, m.def.name)
					}
					nums[g.num] = true
				}
			}
			for num := range nums {
				sp, c := s.spec(num), curs[num]
				for _, a := range f.star.alts {
					n := 0
					for _, g := range a.f {
						if g.num != num {
							continue
						}
						n++
						if err := sp.each(Add(c.c, f.star.s.iv))(a.st, g); err != nil {
							return merr("%s element %s: %v", m.def.name, Add(c.c, f.star.s.iv), err)
						}
					}
					if n != 1 {
						return merr("%s: an iteration produces %d of field %d instead of one", m.def.name, n, num)
					}
				}
				c.c = Add(c.c, f.star.s.count)
				c.seen++
			}
			continue
		}
		sp := s.spec(f.num)
		if sp == nil {
			if defaultish(st, f) {
				continue
			}
			return merr("unexpected field %s (%d) in %s", f.fd.name, f.num, m.def.name)
		}
		c := curs[f.num]
		if sp.each != nil {
			if err := sp.each(c.c)(st, f); err != nil {
				return merr("%s element %s: %v", m.def.name, c.c, err)
			}
			c.c = AddK(c.c, 1)
			c.seen++
			continue
		}
		if err := sp.m(st, f); err != nil {
			return merr("%s: %v", m.def.name, err)
		}
		c.seen++
	}
	for i := range s {
		sp := &s[i]
		c := curs[sp.num]
		if sp.each != nil {
			if n := sp.n(st); !st.linEq(c.c, n) {
				return merr("%s has %s values of field %d, expected %s", m.def.name, c.c, sp.num, n)
			}
			continue
		}
		if c.seen == 0 && !(sp.opt && sp.def(st)) {
			fd := m.def.fields[sp.num]
			return merr("%s lacks field %s (%d)", m.def.name, fd.name, sp.num)
		}
	}
	return nil
}

// ---- the caller's parameters ----

// Params gives access to a driver's symbolic parameters.
type TypeT = types.Type

type Params struct {
	types map[string]TypeT
}

func (p *Params) val(st *State, name string) Val {
	t := p.types[name]
	if t == nil {
		panic(undecided("driver has no parameter " + name))
	}
	return st.symVal(t, name)
}

// str is a string or byte slice parameter's content.
func (p *Params) str(name string) func(st *State) []Seg {
	return func(st *State) []Seg {
		if strings.HasPrefix(name, "=") { // literal text
			return []Seg{segLit(name[1:])}
		}
		switch x := p.val(st, name).(type) {
		case Str:
			return x.seq
		case Slice:
			return st.compact([]Seg{segSrc(mkSym(name, lenVar(name), nil), K(0), x.len)})
		}
		panic(undecided("parameter " + name + " is not a string"))
	}
}

func (p *Params) num(name string) func(st *State) *Lin {
	return func(st *State) *Lin { return p.val(st, name).(*Lin) }
}

func (p *Params) v(name string) func(st *State) Val {
	return func(st *State) Val { return p.val(st, name) }
}

func (p *Params) sym(name string) *Sym {
	var el types.Type
	switch u := p.types[name].Underlying().(type) {
	case *types.Slice:
		el = u.Elem()
	default:
		panic(undecided("parameter " + name + " is not a list"))
	}
	return mkSym(name, lenVar(name), el)
}

func (p *Params) length(name string) func(st *State) *Lin {
	return func(st *State) *Lin { return lenVar(name) }
}

// elem is element i of a list parameter.
func (p *Params) elem(name string, i *Lin) func(st *State) Val {
	return func(st *State) Val { return st.symElem(p.sym(name), i) }
}

func (p *Params) elemStr(name string, i *Lin) func(st *State) []Seg {
	return func(st *State) []Seg { return st.symElem(p.sym(name), i).(Str).seq }
}

// values: list parameter, each element encoded in field num.
func (p *Params) values(num int, name string) FSpec {
	return Each(num, p.length(name), func(i *Lin) FM { return ValOf(p.elem(name, i)) })
}

type sliceT = types.Slice
type mapT = types.Map
