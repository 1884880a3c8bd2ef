package main

// Joining outcomes of a call that left the same results, heap and events behind, keeping only what they have in common.

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// deepKey describes a value together with what it refers to.
func (st *State) deepKey(v Val, seen map[int]bool) string {
	obj := func(id int) string {
		if id == 0 {
			return "0"
		}
		if seen[id] {
			return fmt.Sprintf("#%d", id)
		}
		seen[id] = true
		return fmt.Sprintf("#%d{%s}", id, st.objKey(id, seen))
	}
	switch x := v.(type) {
	case nil:
		return "-"
	case Iface:
		return "iface(" + x.typ.String() + "," + st.deepKey(x.v, seen) + ")"
	case Ptr:
		s := "ptr" + x.path + "," + x.nilq.String() + ","
		if x.idx != nil {
			s += x.idx.key
		}
		return s + obj(x.obj)
	case Slice:
		return fmt.Sprintf("slice(%s,%s,%s,%s,%s)", x.off.key, x.len.key, x.cap.key, x.nilq.String(), obj(x.obj))
	case Struct:
		var p []string
		for _, f := range x.f {
			p = append(p, st.deepKey(f, seen))
		}
		return "struct(" + strings.Join(p, ",") + ")"
	case Model:
		return "model(" + obj(x.obj) + ")"
	case Closure:
		s := "closure(" + x.fn.String()
		for _, b := range x.b {
			s += "," + st.deepKey(b, seen)
		}
		return s + ")"
	case *Lin:
		if c := st.facts.constOf(x); c != nil {
			return c.String()
		}
		return x.key
	case Str:
		if l, ok := st.litOf(x.seq); ok {
			return "lit(" + strconv.Quote(l) + ")"
		}
		return "str(" + seqKey(st.compact(x.seq)) + ")"
	case Tuple:
		s := "tuple("
		for _, b := range x.f {
			s += "," + st.deepKey(b, seen)
		}
		return s + ")"
	}
	return valKey(v)
}

func (st *State) objKey(id int, seen map[int]bool) string {
	o := st.heap[id]
	if o == nil {
		return "?"
	}
	s := o.kind
	if o.isq {
		s += seqKey(st.compact(o.seq))
	}
	if o.val != nil {
		s += st.deepKey(o.val, seen)
	}
	for _, k := range sortedKeys(o.x) {
		s += ";" + k + "=" + st.deepKey(o.x[k], seen)
	}
	return s
}

// mergeOuts joins the outcomes of a call whose caller-visible effects are the same.
func (in *Interp) mergeOuts(entry map[int]*Obj, ev0 *Event, next0 int, outs []Outcome) []Outcome {
	if len(outs) < 4 {
		return outs
	}
	var ids []int
	for id := range entry {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	groups := map[string][]int{}
	var order []string
	raw := make([]string, len(outs))
	for i, o := range outs {
		if o.panic {
			k := fmt.Sprint("panic", i)
			groups[k] = []int{i}
			order = append(order, k)
			continue
		}
		var b strings.Builder
		seen := map[int]bool{}
		for _, v := range o.vals {
			b.WriteString(o.st.deepKey(v, seen) + "|")
		}
		for _, id := range ids {
			if o.st.heap[id] != entry[id] {
				fmt.Fprintf(&b, "%d=%s|", id, o.st.objKey(id, seen))
			}
		}
		for e := o.st.ev; e != nil && e != ev0; e = e.prev {
			switch e.name {
			case "loop", "goodmsg", "badmsg":
				continue // of no interest to the callers' properties
			case "frame":
				if litArg(o.st, e, 1) == "other" {
					continue
				}
			}
			b.WriteString(e.name)
			for _, a := range e.args {
				b.WriteString("," + o.st.deepKey(a, map[int]bool{}))
			}
			b.WriteString("|")
		}
		for _, k := range sortedKeys(o.st.locks) {
			if o.st.locks[k] != 0 {
				fmt.Fprintf(&b, "lock%s%d", k, o.st.locks[k])
			}
		}
		raw[i] = b.String()
		k := canonNames(raw[i]+o.st.codeFacts(), next0)
		if debugSplit {
			fmt.Fprintln(os.Stderr, "MERGEKEY", k)
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		r := outs[g[0]]
		if len(g) > 1 {
			st := r.st.clone()
			for _, i := range g[1:] {
				if raw[i] != raw[g[0]] {
					st.forget(next0)
					break
				}
			}
			for _, i := range g[1:] {
				st.joinFacts(outs[i].st)
			}
			r.st = st
			in.nmerged += len(g) - 1
		}
		res = append(res, r)
	}
	return res
}

var hashNo = regexp.MustCompile(`#[0-9]+`)

// codeSuffix ends the names of server error codes: what is known about those is never joined.
const codeSuffix = ".body).2"

func (st *State) codeFacts() string {
	var p []string
	for a, iv := range st.facts.atoms {
		if strings.HasSuffix(a.key, codeSuffix) {
			p = append(p, fmt.Sprint(a.key, iv.lo, iv.hi))
		}
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

// summarise joins the outcomes of an authentication mechanism's method into one that returns some message of the
// same type and with the same secrets.
func (in *Interp) summarise(entry map[int]*Obj, ev0 *Event, outs []Outcome) []Outcome {
	typ := int64(-1)
	secret := map[string]*Sym{}
	for i, o := range outs {
		if o.panic || len(o.vals) != 1 {
			return outs
		}
		for e := o.st.ev; e != nil && e != ev0; e = e.prev {
			if e.name != "loop" {
				return outs
			}
		}
		s, ok := o.vals[0].(Slice)
		if !ok || s.obj == 0 || !o.st.obj(s.obj).isq {
			return outs
		}
		q := o.st.content(s)
		t := msgType(o.st, q)
		if t < 0 || i > 0 && t != typ {
			return outs
		}
		typ = t
		for _, g := range q {
			if g.k == SSrc && !strings.Contains(g.sym.name, "#") {
				secret[g.sym.name] = g.sym
			}
		}
		for id, b := range entry {
			if o.st.heap[id] != b && !b.isq {
				return outs
			}
		}
	}
	if len(outs) == 0 {
		return outs
	}
	st := outs[0].st.clone()
	for _, o := range outs[1:] {
		st.joinFacts(o.st)
	}
	for id, b := range entry {
		for _, o := range outs {
			if o.st.heap[id] != b {
				y := mkSym(st.fresh("scratch"), seqLen(b.seq), nil)
				st.wobj(id).seq = []Seg{segSrc(y, K(0), y.n)}
				break
			}
		}
	}
	n := st.fresh("auth")
	q := []Seg{segSrc(mkSym(n+".head", K(4), nil), K(0), K(4)), segByte(K(typ))}
	for _, k := range sortedKeys(secret) {
		y := secret[k]
		q = append(q, segSrc(y, K(0), y.n))
	}
	y := mkSym(n+".rest", lenVar(n), nil)
	q = append(q, segSrc(y, K(0), y.n))
	return []Outcome{{st: st, vals: []Val{st.newBytes(q, seqLen(q))}}}
}

// canonNames renumbers the names made since next0 in the order they appear.
func canonNames(k string, next0 int) string {
	m := map[string]string{}
	return hashNo.ReplaceAllStringFunc(k, func(x string) string {
		n, _ := strconv.Atoi(x[1:])
		if n < next0 {
			return x
		}
		if m[x] == "" {
			m[x] = fmt.Sprintf("#~%d", len(m))
		}
		return m[x]
	})
}

// forget drops what is known about names made since next0: the outcomes joined use different ones.
func (st *State) forget(next0 int) {
	n := newFacts()
	for a, iv := range st.facts.atoms {
		if !freshAfter(a.key, next0) || strings.HasSuffix(a.key, codeSuffix) {
			n.atoms[a] = iv
		}
	}
	for k, f := range st.facts.forms {
		if !freshAfter(f.l.key, next0) {
			n.forms[k] = f
		}
	}
	for k := range st.facts.neq {
		if !freshAfter(k, next0) {
			n.neq[k] = true
		}
	}
	for k, v := range st.facts.bitk {
		if !freshAfter(k, next0) {
			if n.bitk == nil {
				n.bitk = map[string]uint8{}
			}
			n.bitk[k] = v
		}
	}
	st.facts = n
	for k := range st.bools {
		if freshAfter(k, next0) {
			delete(st.bools, k)
		}
	}
	for k := range st.types {
		if freshAfter(k, next0) {
			delete(st.types, k)
		}
	}
}

// joinFacts keeps what both states know.
func (st *State) joinFacts(o *State) {
	f, h := st.facts, o.facts
	n := newFacts()
	for a := range f.atoms {
		if _, ok := h.atoms[a]; ok {
			x, y := f.bound(linAtom(a)), h.bound(linAtom(a))
			n.atoms[a] = Itv{minOrNil(x.lo, y.lo), maxOrNil(x.hi, y.hi)}
		} else if strings.HasSuffix(a.key, codeSuffix) {
			n.atoms[a] = f.atoms[a] // the other state knows the same of the code of its own name
		}
	}
	for k, x := range f.forms {
		if y, ok := h.forms[k]; ok {
			n.forms[k] = &form{l: x.l, iv: Itv{minOrNil(x.iv.lo, y.iv.lo), maxOrNil(x.iv.hi, y.iv.hi)}}
		}
	}
	for k := range f.neq {
		if h.neq[k] {
			n.neq[k] = true
		}
	}
	for k, v := range f.bitk {
		if w, ok := h.bitk[k]; ok && v == w {
			if n.bitk == nil {
				n.bitk = map[string]uint8{}
			}
			n.bitk[k] = v
		}
	}
	st.facts = n
	for k, v := range st.bools {
		if w, ok := o.bools[k]; !ok || v != w {
			delete(st.bools, k)
		}
	}
	for k, v := range st.types {
		if w := o.types[k]; w != v {
			delete(st.types, k)
		}
	}
	for k, v := range st.ghost {
		if w, ok := o.ghost[k]; !ok || valKey(v) != valKey(w) {
			delete(st.ghost, k)
		}
	}
	if o.next > st.next {
		st.next = o.next
	}
}
