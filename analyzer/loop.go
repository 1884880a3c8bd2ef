package main

// Loops: bounded unrolling where the bound is decided, otherwise a fixpoint over generalised locations.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cases evaluates f on st, splitting st as f asks for it; f must not mutate before its last decision.
func (in *Interp) cases(st *State, f func(*State)) (res []*State) {
	work := []*State{st}
	n := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 2000 {
			undec("too many cases")
		}
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				switch x := r.(type) {
				case splitReq:
					for _, v := range []bool{true, false} {
						c := s.clone()
						if c.assumeB(x.b, v) {
							work = append(work, c)
						}
					}
				case enumReq:
					for v := x.lo; v <= x.hi; v++ {
						c := s.clone()
						if c.assumeB(BEq(AddK(linAtom(x.a), -v)), true) {
							work = append(work, c)
						}
					}
				default:
					panic(r)
				}
			}()
			f(s)
			res = append(res, s)
		}()
	}
	return
}

func (in *Interp) handleLoop(st *State, fr *Frame, from *ssa.BasicBlock, l *Loop, outer *Loop) execRes {
	var ends []End
	if e, ok := in.unroll(st, fr, from, l); ok {
		ends = e
	} else {
		in.noUnroll[l.header] = true
		ends = in.generalise(st, fr, from, l)
	}
	var res execRes
	for _, e := range ends {
		if e.kind == EExit {
			r := in.enter(e.st, e.fr, e.from, e.to, outer)
			res.paths = append(res.paths, r.paths...)
			res.ends = append(res.ends, r.ends...)
			continue
		}
		res.ends = append(res.ends, e)
	}
	return res
}

func (in *Interp) unroll(st *State, fr *Frame, from *ssa.BasicBlock, l *Loop) (out []End, ok bool) {
	type item struct {
		st   *State
		fr   *Frame
		from *ssa.BasicBlock
	}
	if in.opts["nounroll:"+l.header.Parent().String()] {
		return nil, false
	}
	cur := []item{{st.clone(), fr.clone(), from}}
	saved, savedSym := l.exitConst, l.exitSym
	defer func() { l.exitConst, l.exitSym = saved, savedSym }()
	for it := 0; ; it++ {
		l.exitConst, l.exitSym = false, false
		var next []item
		for _, c := range cur {
			in.phis(c.st, c.fr, c.from, l.header)
			for _, e := range in.run(Path{st: c.st, fr: c.fr, blk: l.header, prev: c.from, idx: nphis(l.header)}, l) {
				if e.kind == EBack {
					next = append(next, item{e.st, e.fr, e.from})
				} else {
					out = append(out, e)
				}
			}
		}
		if len(next) == 0 {
			return out, true
		}
		if l.exitConst && !l.exitSym {
			if it > 300 || len(next) > 200 {
				return nil, false
			}
		} else if it >= 12 && !(in.opts["deep"] && l.exitConst && len(next) == 1 && it < 40) || len(next) > 2 || in.noUnroll[l.header] {
			return nil, false
		}
		cur = next
	}
}

type lmode struct {
	k string // "", "ind", "acc", "star", "sind", "junk", "top"
	c []*big.Int
	n *Lin // junk: length of the preserved prefix
}

type inv struct {
	l  *Lin
	iv Itv
}

type genCtx struct {
	in    *Interp
	modes map[string]*lmode
	I     *Lin
	S     *State
	stars map[string]*Star
	gen   map[string]Val
	v0    map[string]Val
	dirty bool
	why   []string
	bnd   []*Lin
}

func (g *genCtx) setMode(key string, m *lmode) {
	if debugSplit {
		fmt.Fprintf(os.Stderr, "mode %s: %s\n", key, m.k)
	}
	g.modes[key] = m
	g.dirty = true
}

// genVal is the header value of a location in an arbitrary iteration.
func (g *genCtx) genVal(key string, v0 Val, t types.Type) Val {
	m := g.modes[key]
	g.v0[key] = v0
	if m == nil {
		if s, ok := v0.(Struct); ok {
			n := Struct{typ: s.typ, f: make([]Val, len(s.f))}
			su, _ := s.typ.Underlying().(*types.Struct)
			for i := range s.f {
				var ft types.Type
				if su != nil {
					ft = su.Field(i).Type()
				}
				n.f[i] = g.genVal(fmt.Sprintf("%s/%d", key, i), s.f[i], ft)
			}
			return n
		}
		g.gen[key] = v0
		return v0
	}
	var v Val
	S := g.S
	switch m.k {
	case "ind":
		v = addScaled(v0.(*Lin), g.I, m.c[0])
	case "acc":
		v = Add(v0.(*Lin), VarB(S.fresh("acc"), big0, idxMax))
	case "bnd", "sbnd":
		// any boundary of the framed buffer from here on
		fb := VarB(S.fresh("fb"), big0, maxLen)
		f := g.in.framed
		S.facts.assumeGe0(Sub(f.n, fb))
		g.bnd = append(g.bnd, fb)
		if m.k == "bnd" {
			v = fb
			break
		}
		s := v0.(Slice)
		v = Slice{obj: s.obj, off: fb, len: Sub(f.n, fb), cap: Sub(Add(s.off, s.cap), fb), nilq: s.nilq, elem: s.elem}
	case "sind":
		s := v0.(Slice)
		v = Slice{obj: s.obj, off: addScaled(s.off, g.I, m.c[0]), len: addScaled(s.len, g.I, m.c[1]), cap: addScaled(s.cap, g.I, m.c[2]), nilq: s.nilq, elem: s.elem}
	case "star":
		id := S.fresh("star")
		A := VarB("n("+id+")", big0, maxLen)
		star := &Star{id: id, iv: g.I, n: A}
		g.stars[key] = star
		seg := segOpq(&Opq{kind: "star", n: A, star: star})
		switch s := v0.(type) {
		case Str:
			v = Str{append(append([]Seg{}, s.seq...), seg)}
		case Slice:
			n := Add(s.len, A)
			c := VarB(S.fresh("cap"), big0, idxMax)
			S.facts.assumeGe0(Sub(c, n))
			q := append(append([]Seg{}, S.content(s)...), seg, segJunk(Sub(c, n)))
			o := &Obj{isq: true, typ: s.elem, seq: q}
			nid := S.newObj(o)
			if s.obj != 0 {
				S.linkAlias(nid, s.obj, s.off, n)
			}
			nq := s.nilq
			if !(nq.op == 0 && !nq.v) {
				nq = BAtom(S.fresh("nil:loop"))
			}
			v = Slice{obj: nid, off: K(0), len: n, cap: c, nilq: nq, elem: s.elem}
		default:
			undec("star of %s", valStr(v0))
		}
	case "top":
		if t == nil && strings.HasSuffix(key, ".fail") {
			t = types.Typ[types.Bool]
		}
		if t == nil && strings.HasSuffix(key, ".mis") {
			undec("the loop goes on after reading past the end of a server frame")
		}
		if t == nil {
			undec("loop-carried value %s of unknown type: %s", key, valStr(v0))
		}
		v = g.in.topVal(S, t)
	default:
		undec("mode %s", m.k)
	}
	g.gen[key] = v
	return v
}

// topVal is any value of type t.
func (in *Interp) topVal(st *State, t types.Type) Val { return st.symVal(t, st.fresh("any")) }

func linOf(v Val) *Lin {
	l, _ := v.(*Lin)
	return l
}

// check compares the value of a location at a back edge with what the next iteration's header value must be.
func (g *genCtx) check(B *State, key string, vb Val) {
	m := g.modes[key]
	v0 := g.v0[key]
	if m == nil {
		if s, ok := v0.(Struct); ok {
			if b, ok := vb.(Struct); ok {
				for i := range s.f {
					g.check(B, fmt.Sprintf("%s/%d", key, i), b.f[i])
				}
				return
			}
			g.setMode(key, &lmode{k: "top"})
			return
		}
		if sameVal(B, v0, vb) {
			return
		}
		switch a := v0.(type) {
		case *Lin:
			if b := linOf(vb); b != nil {
				d := B.facts.simp(Sub(b, a))
				if d.isConst() {
					g.setMode(key, &lmode{k: "ind", c: []*big.Int{d.c}})
					return
				}
				if g.in.stepsFrame(B, a, b) {
					g.setMode(key, &lmode{k: "bnd"})
					return
				}
				if y, _ := B.facts.isGe0(d); y {
					g.setMode(key, &lmode{k: "acc"})
					return
				}
			}
		case Slice:
			if b, ok := vb.(Slice); ok {
				if x, y := g.in.framedSlice(B, a), g.in.framedSlice(B, b); x != nil && y != nil && g.in.stepsFrame(B, x, y) {
					g.setMode(key, &lmode{k: "sbnd"})
					return
				}
				if b.obj == a.obj && B.heap[b.obj] == g.S.heap[b.obj] {
					x, y, z := B.facts.simp(Sub(b.off, a.off)), B.facts.simp(Sub(b.len, a.len)), B.facts.simp(Sub(b.cap, a.cap))
					if x.isConst() && y.isConst() && z.isConst() {
						g.setMode(key, &lmode{k: "sind", c: []*big.Int{x.c, y.c, z.c}})
						return
					}
				}
				g.setMode(key, &lmode{k: "star"})
				return
			}
		case Str:
			g.setMode(key, &lmode{k: "star"})
			return
		}
		g.setMode(key, &lmode{k: "top"})
		return
	}
	gv := g.gen[key]
	if gv == nil && g.dirty {
		return // the mode was set on this pass: another pass will check it
	}
	switch m.k {
	case "bnd":
		if b := linOf(vb); b == nil || !g.in.stepsFrame(B, gv.(*Lin), b) {
			g.setMode(key, &lmode{k: "top"})
		}
	case "sbnd":
		b, ok := vb.(Slice)
		if !ok || g.in.framedSlice(B, b) == nil || !g.in.stepsFrame(B, gv.(Slice).off, b.off) {
			g.setMode(key, &lmode{k: "top"})
		}
	case "ind":
		a := gv.(*Lin)
		b := linOf(vb)
		if b != nil && B.linEq(b, addScaled(a, K(1), m.c[0])) {
			return
		}
		if b != nil {
			if y, _ := B.facts.isGe0(Sub(b, a)); y && m.c[0].Sign() >= 0 {
				g.setMode(key, &lmode{k: "acc"})
				return
			}
		}
		g.setMode(key, &lmode{k: "top"})
	case "acc":
		b := linOf(vb)
		if b != nil {
			if y, _ := B.facts.isGe0(Sub(b, g.v0[key].(*Lin))); y {
				return
			}
		}
		g.setMode(key, &lmode{k: "top"})
	case "sind":
		a := gv.(Slice)
		b, ok := vb.(Slice)
		if ok && b.obj == a.obj && B.heap[b.obj] == g.S.heap[b.obj] && B.linEq(b.off, addScaled(a.off, K(1), m.c[0])) && B.linEq(b.len, addScaled(a.len, K(1), m.c[1])) && B.linEq(b.cap, addScaled(a.cap, K(1), m.c[2])) {
			return
		}
		g.setMode(key, &lmode{k: "star"})
	case "star":
		star := g.stars[key]
		if star == nil {
			return // the mode was chosen in this pass: it is redone
		}
		var have, want []Seg
		switch a := gv.(type) {
		case Str:
			b, ok := vb.(Str)
			if !ok {
				g.setMode(key, &lmode{k: "top"})
				return
			}
			have, want = b.seq, a.seq
		case Slice:
			b, ok := vb.(Slice)
			if !ok {
				g.setMode(key, &lmode{k: "top"})
				return
			}
			have = B.content(b)
			want = g.S.content(a)
		}
		n := seqLen(want)
		if y, _ := B.facts.isGe0(Sub(seqLen(have), n)); !y {
			g.setMode(key, &lmode{k: "top"})
			return
		}
		h, rest := B.splitAt(have, n)
		if !B.covers(want, h) {
			if debugSplit {
				fmt.Fprintf(os.Stderr, "have %s\nwant %s\n", seqStr(B.compact(h)), seqStr(B.compact(want)))
			}
			g.setMode(key, &lmode{k: "top"})
			return
		}
		star.alts = append(star.alts, StarAlt{segs: B.compact(rest), st: B})
	case "top":
	}
}

func sameVal(st *State, a, b Val) bool {
	switch x := a.(type) {
	case *Lin:
		y, ok := b.(*Lin)
		return ok && st.linEq(x, y)
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return false
		}
		if x.nilq != y.nilq {
			v1, k1 := st.evalB(x.nilq)
			v2, k2 := st.evalB(y.nilq)
			if !k1 || !k2 || v1 != v2 {
				return false
			}
		}
		return x.obj == y.obj && st.linEq(x.off, y.off) && st.linEq(x.len, y.len) && st.linEq(x.cap, y.cap)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.obj != y.obj || x.path != y.path || (x.idx == nil) != (y.idx == nil) {
			return false
		}
		return x.idx == nil || st.linEq(x.idx, y.idx)
	case Str:
		y, ok := b.(Str)
		return ok && st.sameSeq(x.seq, y.seq)
	case ArrV:
		y, ok := b.(ArrV)
		return ok && st.sameSeq(x.seq, y.seq)
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		v1, k1 := st.evalB(x)
		v2, k2 := st.evalB(y)
		return k1 && k2 && v1 == v2
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(st, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(st, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return valKey(a) == valKey(b)
}

// linkAlias records that position p of object a may be position p+delta of object b, for p < upto.
func (st *State) linkAlias(a, b int, delta, upto *Lin) {
	type lk struct {
		obj   int
		delta *Lin
	}
	seen := map[int]bool{a: true}
	work := []lk{{b, delta}}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x.obj] {
			continue
		}
		seen[x.obj] = true
		o, ok := st.heap[x.obj]
		if !ok {
			continue
		}
		for _, y := range o.al {
			work = append(work, lk{y.obj, Add(x.delta, y.delta)})
		}
		wa := st.wobj(a)
		wa.al = append(wa.al[:len(wa.al):len(wa.al)], alias{obj: x.obj, delta: x.delta, from: K(0), upto: upto})
		wb := st.wobj(x.obj)
		wb.al = append(wb.al[:len(wb.al):len(wb.al)], alias{obj: a, delta: Neg(x.delta), from: x.delta, upto: Add(x.delta, upto)})
	}
}

func dependsOn(l *Lin, a *Atom) bool {
	for _, t := range l.t {
		if t.a == a || atomDependsOn(t.a, a) {
			return true
		}
	}
	return false
}

func atomDependsOn(x, a *Atom) bool {
	if x == a {
		return true
	}
	for _, l := range x.args {
		if dependsOn(l, a) {
			return true
		}
	}
	for _, b := range x.bits {
		for _, r := range b.xs {
			if dependsOn(r.l, a) {
				return true
			}
		}
	}
	if x.kind == AVar && strings.Contains(x.key, a.key) {
		return true
	}
	if x.kind == AByte && strings.Contains(x.sym.name, a.key) {
		return true
	}
	return false
}

// freshAfter reports whether the atom mentions a name made at or after counter n.
func freshAfter(key string, n int) bool {
	for {
		i := strings.IndexByte(key, '#')
		if i < 0 {
			return false
		}
		j := i + 1
		for j < len(key) && key[j] >= '0' && key[j] <= '9' {
			j++
		}
		if k, err := strconv.Atoi(key[i+1 : j]); err == nil && k >= n {
			return true
		}
		key = key[j:]
	}
}

func (in *Interp) generalise(st *State, fr *Frame, from *ssa.BasicBlock, l *Loop) []End {
	modes := map[string]*lmode{}
	var invs []inv
	dropped := map[string]bool{}
	ids := make([]int, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	ph0 := in.phiVals(st, fr, from, l.header)
	phis := sortedPhis(ph0)
	var why []string
	for pass := 0; pass < 24; pass++ {
		S := st.clone()
		F := fr.clone()
		Iname := S.fresh("I")
		I := VarB(Iname, big0, idxMax)
		g := &genCtx{in: in, modes: modes, I: I, S: S, stars: map[string]*Star{}, gen: map[string]Val{}, v0: map[string]Val{}}
		evStar := &Star{id: S.fresh("ev"), iv: I}
		ev := S.event("loop")
		ev.star = evStar
		for _, ph := range phis {
			F.env[ph] = g.genVal("phi:"+ph.Name(), ph0[ph], ph.Type())
		}
		for _, id := range ids {
			o := st.heap[id]
			key := fmt.Sprintf("obj:%d", id)
			switch {
			case o.isq:
				if m := modes[key]; m != nil {
					w := S.wobj(id)
					tot := seqLen(o.seq)
					h, _ := S.splitAt(o.seq, m.n)
					w.seq = S.compact(append(append([]Seg{}, h...), segJunk(Sub(tot, m.n))))
				}
			default:
				if o.val != nil && hasMode(modes, key) {
					v := g.genVal(key, o.val, o.typ)
					S.wobj(id).val = v
				}
				for _, k := range sortedKeys(o.x) {
					kk := key + "." + k
					if hasMode(modes, kk) {
						v := g.genVal(kk, o.x[k], nil)
						S.wobj(id).x[k] = v
					}
				}
			}
		}
		for _, k := range sortedKeys(st.ghost) {
			kk := "ghost:" + k
			if hasMode(modes, kk) {
				S.ghost[k] = g.genVal(kk, st.ghost[k], nil)
			}
		}
		for _, v := range invs {
			S.facts.restrict(v.l, v.iv)
		}
		S0 := S.clone() // header state, for comparison
		g.S = S0
		var ends []End
		switch len(g.bnd) {
		case 0:
			ends = in.run(Path{st: S, fr: F, blk: l.header, prev: from, idx: nphis(l.header)}, l)
		case 1:
			// at the end of the framed buffer, or before a message
			evStar.bnd = g.bnd[0]
			e := S.clone()
			if e.assumeB(BEq(Sub(in.framed.n, g.bnd[0])), true) {
				ends = in.run(Path{st: e, fr: F.clone(), blk: l.header, prev: from, idx: nphis(l.header)}, l)
			}
			if S.frameAt(in.framed, g.bnd[0]) {
				ends = append(ends, in.run(Path{st: S, fr: F, blk: l.header, prev: from, idx: nphis(l.header)}, l)...)
			}
		default:
			undec("a loop with two positions in the framed buffer")
		}
		var backs []End
		var others []End
		var re []End // back edges into another phase of the loop
		for _, e := range ends {
			if e.kind == EBack {
				if in.phase[l.header] < 3 && in.phaseChange(st, e, phis, ph0, in.phiVals(e.st, e.fr, e.from, l.header), ids, modes) {
					re = append(re, e)
				} else {
					backs = append(backs, e)
				}
			} else {
				others = append(others, e)
			}
		}
		for _, b := range backs {
			if len(b.fr.defers) != len(fr.defers) {
				undec("defer inside a loop")
			}
			phb := in.phiVals(b.st, b.fr, b.from, l.header)
			in.cases(b.st, func(B *State) {
				// star alternatives must only be recorded once per case: collect first
				saveAlts := map[string]int{}
				for k, s := range g.stars {
					saveAlts[k] = len(s.alts)
				}
				defer func() {
					if r := recover(); r != nil {
						for k, n := range saveAlts {
							g.stars[k].alts = g.stars[k].alts[:n]
						}
						panic(r)
					}
				}()
				for _, ph := range phis {
					g.check(B, "phi:"+ph.Name(), phb[ph])
				}
				for _, id := range ids {
					o, so := B.heap[id], S0.heap[id]
					key := fmt.Sprintf("obj:%d", id)
					if o == nil {
						undec("object vanished in loop")
					}
					if o == so && !hasMode(modes, key) {
						continue
					}
					if o.isq {
						if o == so || B.sameSeq(o.seq, so.seq) {
							continue
						}
						n := commonPrefix(B, o.seq, st.heap[id].seq)
						if m := modes[key]; m != nil {
							// shrink to what is still common
							if v, k := B.evalB(BGe(Sub(n, m.n))); k && v {
								if j := junkAfter(B, o.seq, m.n); j {
									continue
								}
								// something was written into the already unspecified part: still unspecified for the next iteration
								continue
							}
						}
						g.setMode(key, &lmode{k: "junk", n: n})
						continue
					}
					if o.kind == "lazy" || so.kind == "lazy" {
						continue
					}
					if o.val != nil {
						if _, ok := g.v0[key]; !ok {
							fillV0(g, key, st.heap[id].val)
						}
						g.check(B, key, o.val)
					}
					for k := range o.x {
						if _, ok := so.x[k]; !ok {
							g.dirty = true
							undec("loop adds model state %s to %s", k, o.kind)
						}
					}
					for _, k := range sortedKeys(so.x) {
						kk := key + "." + k
						if _, ok := g.v0[kk]; !ok {
							fillV0(g, kk, st.heap[id].x[k])
						}
						g.check(B, kk, o.x[k])
					}
				}
				for _, k := range sortedKeys(st.ghost) {
					kk := "ghost:" + k
					if _, ok := g.v0[kk]; !ok {
						fillV0(g, kk, st.ghost[k])
					}
					g.check(B, kk, B.ghost[k])
				}
				for k, n := range B.locks {
					if st.locks[k] != n {
						undec("lock state changes in a loop")
					}
				}
				var evs []*Event
				for e := B.ev; e != nil && e != ev; e = e.prev {
					evs = append([]*Event{e}, evs...)
				}
				evStar.alts = append(evStar.alts, StarAlt{evs: evs, st: B})
			})
		}
		if g.dirty {
			why = append(why, "modes")
			continue
		}
		// invariants
		changed := false
		Ia := I.single()
		var keep []inv
		for _, v := range invs {
			ok := true
			c := v.l.coef(Ia)
			for _, b := range backs {
				bd := b.st.facts.bound(Add(v.l, KB(c)))
				if tighter(v.iv, bd) {
					ok = false
				}
			}
			if ok {
				keep = append(keep, v)
			} else {
				changed = true
				dropped[v.l.key] = true
			}
		}
		invs = keep
		if !changed && len(backs) > 0 {
			cand := map[string]*Lin{}
			for k, f := range backs[0].st.facts.forms {
				if f.l.coef(Ia) != nil {
					cand[k] = f.l
				}
			}
			if _, ok := backs[0].st.facts.atoms[Ia]; ok {
				cand[I.key] = I
			}
			for _, k := range sortedKeys(cand) {
				f := cand[k]
				if dropped[f.key] {
					continue
				}
				bad := false
				for _, t := range f.t {
					if t.a != Ia && (atomDependsOn(t.a, Ia) || freshAfter(t.a.key, st.next)) {
						bad = true
					}
				}
				if bad {
					continue
				}
				c := f.coef(Ia)
				var iv Itv
				for i, b := range backs {
					x := b.st.facts.bound(Add(f, KB(c))) // value at the next header
					if i == 0 {
						iv = x
					} else {
						iv = Itv{minOrNil(iv.lo, x.lo), maxOrNil(iv.hi, x.hi)}
					}
				}
				// initially, with I = 0
				i0 := st.facts.bound(addScaled(f, I, new(big.Int).Neg(c)))
				iv = Itv{minOrNil(iv.lo, i0.lo), maxOrNil(iv.hi, i0.hi)}
				cur := S0.facts.bound(f)
				if tighter(iv, cur) {
					invs = append(invs, inv{f, iv})
					changed = true
				}
			}
		}
		if changed {
			why = append(why, "invariants")
			continue
		}
		for _, s := range g.stars {
			s.count, s.done = I, true
			// each iteration contributes at least min bytes
			var min *big.Int
			for i, a := range s.alts {
				lo := a.st.facts.bound(seqLen(a.segs)).lo
				if lo == nil {
					min = nil
					break
				}
				if i == 0 || lo.Cmp(min) < 0 {
					min = lo
				}
			}
			if min != nil && min.Sign() > 0 {
				for _, e := range others {
					e.st.facts.assumeGe0(addScaled(s.n, I, new(big.Int).Neg(min)))
				}
			}
		}
		evStar.count, evStar.done = I, true
		in.nloops++
		for _, e := range re {
			in.phase[l.header]++
			others = append(others, in.generalise(e.st, e.fr, e.from, l)...)
			in.phase[l.header]--
		}
		return others
	}
	undec("loop in %s did not stabilise (%s)", fr.fn, strings.Join(why, ","))
	return nil
}

// phaseChange: a location that was nil (or a boolean constant) at the loop entry is not any more at this back edge.
func (in *Interp) phaseChange(st *State, e End, phis []*ssa.Phi, ph0, phb map[*ssa.Phi]Val, ids []int, modes map[string]*lmode) bool {
	var ch func(key string, a, b Val) bool
	ch = func(key string, a, b Val) bool {
		if modes[key] != nil {
			return false
		}
		switch x := a.(type) {
		case Struct:
			y, ok := b.(Struct)
			if !ok {
				return false
			}
			for i := range x.f {
				if ch(fmt.Sprintf("%s/%d", key, i), x.f[i], y.f[i]) {
					return true
				}
			}
		case Nil:
			return in.knownNonNil(e.st, b)
		case Bool:
			if y, ok := b.(Bool); ok && x.op == 0 {
				v, k := e.st.evalB(y)
				return k && v != x.v
			}
		}
		return false
	}
	for _, ph := range phis {
		if ch("phi:"+ph.Name(), ph0[ph], phb[ph]) {
			return true
		}
	}
	for _, id := range ids {
		o, so := e.st.heap[id], st.heap[id]
		if o == nil || o == so || o.isq || o.val == nil || o.kind == "lazy" || so.kind == "lazy" {
			continue
		}
		if ch(fmt.Sprintf("obj:%d", id), so.val, o.val) {
			return true
		}
	}
	for _, k := range sortedKeys(st.ghost) {
		if ch("ghost:"+k, st.ghost[k], e.st.ghost[k]) {
			return true
		}
	}
	return false
}

func minOrNil(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return minB(a, b)
}

func maxOrNil(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return maxB(a, b)
}

func hasMode(m map[string]*lmode, key string) bool {
	if m[key] != nil {
		return true
	}
	for k := range m {
		if strings.HasPrefix(k, key+"/") {
			return true
		}
	}
	return false
}

func fillV0(g *genCtx, key string, v Val) {
	g.v0[key] = v
	if s, ok := v.(Struct); ok {
		for i := range s.f {
			fillV0(g, fmt.Sprintf("%s/%d", key, i), s.f[i])
		}
	}
}

func junkAfter(st *State, q []Seg, n *Lin) bool { return true }

// commonPrefix is the length of the leading segments two sequences share.
func commonPrefix(st *State, a, b []Seg) *Lin {
	n := K(0)
	i := 0
	for i < len(a) && i < len(b) && segKey(a[i]) == segKey(b[i]) {
		n = Add(n, a[i].n)
		i++
	}
	// part of a shared source or literal
	if i < len(a) && i < len(b) {
		x, y := a[i], b[i]
		if x.k == y.k && (x.k == SSrc && x.sym == y.sym && x.off == y.off || x.k == SZero || x.k == SJunk) {
			if v, k := st.evalB(BGe(Sub(x.n, y.n))); k {
				if v {
					n = Add(n, y.n)
				} else {
					n = Add(n, x.n)
				}
			}
		}
	}
	return n
}
