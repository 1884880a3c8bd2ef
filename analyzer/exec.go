package main

// The abstract interpreter over go/ssa: trace partitioning, calls by inlining.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Interp struct {
	prog          *ssa.Program
	fset          *token.FileSet
	loops         map[*ssa.Function]*LoopInfo
	depth         int
	steps         int
	maxStep       int
	stack         []*ssa.Function
	notes         map[string]int
	funcs         map[string]int // functions analysed -> times entered
	contr         map[string]*ContractUse
	und           []string
	base          *State
	trace         bool
	opts          map[string]bool
	repoPfx       string
	phase         map[*ssa.BasicBlock]int
	noUnroll      map[*ssa.BasicBlock]bool
	nloops        int
	ncalls        int
	hookFn        func(in *Interp, st *State, f Closure, args []Val, pos token.Pos) ([]Outcome, bool)
	opaque        map[string]func(in *Interp, st *State, args []Val) []Outcome
	unknown       func(in *Interp, st *State, name string, recv Val, sig *types.Signature, args []Val, pos token.Pos) ([]Outcome, bool)
	noContract    bool
	noEnc         bool // interpret encoders, whatever the value
	noContractFor *ssa.Function
	initing       *ssa.Package
	world         *World
	op            string // operation tried by rt.CallOp and rt.TryOp
	pool          *PoolCtx
	nmerged       int
	framed        *Sym // the buffer known to be a sequence of messages
	onLock        func(in *Interp, st *State, mu Val, d int, pos token.Pos) []Outcome
}

type ContractUse struct {
	fn   *ssa.Function
	tags map[int]bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
}

func (f *Frame) clone() *Frame {
	g := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)), defers: f.defers[:len(f.defers):len(f.defers)]}
	for k, v := range f.env {
		g.env[k] = v
	}
	return g
}

type Path struct {
	st   *State
	fr   *Frame
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	sd   int // split depth at this instruction
}

type EndKind int

const (
	ERet EndKind = iota
	EPanic
	EBack
	EExit
)

type End struct {
	kind EndKind
	st   *State
	fr   *Frame
	vals []Val
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

// Outcome of a call.
type Outcome struct {
	st    *State
	vals  []Val
	panic bool
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

const stepLimit = 400000

// callFn interprets fn on args.
func (in *Interp) callFn(st *State, fn *ssa.Function, args []Val, binds []Val) []Outcome {
	if in.depth > 60 {
		undec("call depth exceeded at %s", fn)
	}
	in.depth++
	in.stack = append(in.stack, fn)
	defer func() { in.depth--; in.stack = in.stack[:len(in.stack)-1] }()
	in.funcs[fn.String()]++
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	merge, summary := false, false
	if in.opts["merge"] && fn.Pkg != nil {
		pk := fn.Pkg.Pkg.Path()
		merge = pk == connPkg || pk == connectorPkg && fn.Parent() == nil
		summary = strings.HasPrefix(pk, connectorPkg+"/authentication/")
	}
	var entry map[int]*Obj
	ev0, next0 := st.ev, st.next
	if merge || summary {
		entry = make(map[int]*Obj, len(st.heap))
		for k, v := range st.heap {
			entry[k] = v
		}
		st.own = map[int]bool{}
	}
	ends := in.run(Path{st: st, fr: fr, blk: fn.Blocks[0]}, nil)
	var outs []Outcome
	for _, e := range ends {
		switch e.kind {
		case ERet:
			outs = append(outs, Outcome{st: e.st, vals: e.vals})
		case EPanic:
			outs = append(outs, in.unwind(e)...)
		default:
			undec("stray loop end in %s", fn)
		}
	}
	if merge {
		return in.mergeOuts(entry, ev0, next0, outs)
	}
	if summary {
		return in.summarise(entry, ev0, outs)
	}
	return outs
}

// unwind runs the deferred calls of a panicking frame.
func (in *Interp) unwind(e End) []Outcome {
	if len(e.fr.defers) == 0 {
		return []Outcome{{st: e.st, panic: true}}
	}
	d := e.fr.defers[len(e.fr.defers)-1]
	fr := e.fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	var outs []Outcome
	for _, o := range in.callVal(e.st, d.fn, d.args, d.call, d.pos) {
		if o.panic || o.st.pan != nil {
			outs = append(outs, in.unwind(End{kind: EPanic, st: o.st, fr: fr})...)
			continue
		}
		// recovered: remaining defers, then the recover block
		for _, x := range in.runDefers(o.st, fr) {
			if x.kind == EPanic {
				outs = append(outs, in.unwind(x)...)
				continue
			}
			if fr.fn.Recover != nil {
				for _, y := range in.run(Path{st: x.st, fr: x.fr, blk: fr.fn.Recover}, nil) {
					if y.kind == EPanic {
						outs = append(outs, in.unwind(y)...)
					} else {
						outs = append(outs, Outcome{st: y.st, vals: y.vals})
					}
				}
			} else {
				var vs []Val
				res := fr.fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					vs = append(vs, x.st.zero(res.At(i).Type()))
				}
				outs = append(outs, Outcome{st: x.st, vals: vs})
			}
		}
	}
	return outs
}

func (in *Interp) runDefers(st *State, fr *Frame) []End {
	if len(fr.defers) == 0 {
		return []End{{kind: ERet, st: st, fr: fr}}
	}
	d := fr.defers[len(fr.defers)-1]
	g := fr.clone()
	g.defers = g.defers[:len(g.defers)-1]
	var r []End
	for _, o := range in.callVal(st, d.fn, d.args, d.call, d.pos) {
		h := g.clone()
		if o.panic {
			r = append(r, End{kind: EPanic, st: o.st, fr: h})
			continue
		}
		r = append(r, in.runDefers(o.st, h)...)
	}
	return r
}

// run explores from p until the function ends or the region of loop is left.
func (in *Interp) run(p Path, loop *Loop) []End {
	var ends []End
	work := []Path{p}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		np, ne := in.step(p, loop)
		// keep source order of exploration
		for i := len(np) - 1; i >= 0; i-- {
			work = append(work, np[i])
		}
		ends = append(ends, ne...)
		if len(work)+len(ends) > 40000 {
			undec("too many partitions in %s", p.fr.fn)
		}
	}
	return ends
}

// step executes instructions of p until a fork or an end.
func (in *Interp) step(p Path, loop *Loop) (paths []Path, ends []End) {
	for {
		in.steps++
		if in.steps > in.maxStep {
			undec("step budget exhausted in %s", p.fr.fn)
		}
		if p.idx >= len(p.blk.Instrs) {
			undec("fell off block")
		}
		ins := p.blk.Instrs[p.idx]
		res := in.exec1(&p, ins, loop)
		if res.cont {
			p.idx++
			p.sd = 0
			continue
		}
		return res.paths, res.ends
	}
}

type execRes struct {
	cont  bool
	paths []Path
	ends  []End
}

func (in *Interp) exec1(p *Path, ins ssa.Instruction, loop *Loop) (res execRes) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case splitReq:
			if debugSplit {
				fmt.Fprintf(os.Stderr, "split at %s in %s: %s\n", in.pos(ins.Pos()), p.fr.fn.Name(), x.b)
			}
			if p.sd > 60 {
				panic(undecided(fmt.Sprintf("%s: too many case splits (%s)", in.pos(ins.Pos()), x.b)))
			}
			res = execRes{}
			for _, v := range []bool{true, false} {
				st := p.st.clone()
				if !st.assumeB(x.b, v) {
					continue
				}
				res.paths = append(res.paths, Path{st: st, fr: p.fr.clone(), blk: p.blk, prev: p.prev, idx: p.idx, sd: p.sd + 1})
			}
		case enumReq:
			if debugSplit {
				fmt.Fprintf(os.Stderr, "enum at %s in %s: %s %d..%d\n", in.pos(ins.Pos()), p.fr.fn.Name(), x.a, x.lo, x.hi)
			}
			if p.sd > 60 {
				panic(undecided(fmt.Sprintf("%s: too many case splits (%s)", in.pos(ins.Pos()), x.a)))
			}
			res = execRes{}
			for v := x.lo; v <= x.hi; v++ {
				st := p.st.clone()
				if !st.assumeB(BEq(AddK(linAtom(x.a), -v)), true) {
					continue
				}
				res.paths = append(res.paths, Path{st: st, fr: p.fr.clone(), blk: p.blk, prev: p.prev, idx: p.idx, sd: p.sd + 1})
			}
		case goPanic:
			st := p.st
			st.pan = &PanicVal{v: x.v, pos: in.pos(ins.Pos()), msg: x.msg}
			res = execRes{ends: []End{{kind: EPanic, st: st, fr: p.fr}}}
		case undecided:
			if !strings.Contains(string(x), " @ ") {
				x = undecided(string(x) + " @ " + in.pos(ins.Pos()) + " in " + p.fr.fn.String())
			}
			panic(x)
		default:
			if os.Getenv("XTA_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "crash at %s: %s in %s: %v\n", in.pos(ins.Pos()), ins, p.fr.fn, r)
			}
			panic(r)
		}
	}()
	if in.trace {
		s := ""
		if v, ok := ins.(ssa.Value); ok {
			s = v.Name() + " = "
		}
		fmt.Fprintf(os.Stderr, "%s%s: %s%s\n", strings.Repeat(" ", in.depth), p.fr.fn.Name(), s, ins)
	}
	switch x := ins.(type) {
	case *ssa.Phi:
		undec("phi reached")
	case *ssa.If:
		c := in.val(p, x.Cond).(Bool)
		v, known := p.st.evalB(c)
		if loop != nil && loop.blocks[p.blk] && (!loop.blocks[p.blk.Succs[0]] || !loop.blocks[p.blk.Succs[1]]) {
			if c.op == 0 {
				loop.exitConst = true
			} else {
				loop.exitSym = true
			}
		}
		if known {
			k := 1
			if v {
				k = 0
			}
			return in.enter(p.st, p.fr, p.blk, p.blk.Succs[k], loop)
		}
		for k, v := range []bool{true, false} {
			st := p.st.clone()
			if !st.assumeB(c, v) {
				continue
			}
			if debugSplit && v {
				fmt.Fprintf(os.Stderr, "if at %s in %s: %s\n", in.pos(condPos(x)), p.fr.fn.Name(), c)
			}
			st.trail = append(st.trail, fmt.Sprintf("%s:%v", in.pos(condPos(x)), v))
			r := in.enter(st, p.fr.clone(), p.blk, p.blk.Succs[k], loop)
			res.paths = append(res.paths, r.paths...)
			res.ends = append(res.ends, r.ends...)
		}
		return
	case *ssa.Jump:
		return in.enter(p.st, p.fr, p.blk, p.blk.Succs[0], loop)
	case *ssa.Return:
		vs := make([]Val, len(x.Results))
		for i, r := range x.Results {
			vs[i] = in.val(p, r)
		}
		return execRes{ends: []End{{kind: ERet, st: p.st, fr: p.fr, vals: vs}}}
	case *ssa.Panic:
		p.st.pan = &PanicVal{v: in.val(p, x.X), pos: in.pos(x.Pos()), msg: "panic(" + valStr(in.val(p, x.X)) + ")", explicit: true}
		return execRes{ends: []End{{kind: EPanic, st: p.st, fr: p.fr}}}
	case *ssa.RunDefers:
		if len(p.fr.defers) == 0 {
			return execRes{cont: true}
		}
		for _, e := range in.runDefers(p.st, p.fr) {
			if e.kind == EPanic {
				res.ends = append(res.ends, e)
				continue
			}
			res.paths = append(res.paths, Path{st: e.st, fr: e.fr, blk: p.blk, prev: p.prev, idx: p.idx + 1})
		}
		return
	case *ssa.Defer:
		fn, args := in.callee(p, &x.Call)
		p.fr.defers = append(p.fr.defers[:len(p.fr.defers):len(p.fr.defers)], deferred{&x.Call, fn, args, x.Pos()})
		return execRes{cont: true}
	case *ssa.Go:
		undec("go statement")
	case *ssa.Call:
		fn, args := in.callee(p, &x.Call)
		outs := in.callVal(p.st, fn, args, &x.Call, x.Pos())
		return in.afterCall(p, x, outs)
	case *ssa.Select:
		outs := in.selectStmt(p, x)
		return in.afterCall(p, x, outs)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			outs := in.recv(p.st, in.val(p, x.X), x.CommaOk, x.Type(), x.Pos())
			return in.afterCall(p, x, outs)
		}
		p.fr.env[x] = in.unop(p, x)
		return execRes{cont: true}
	case *ssa.Send:
		outs := in.chanSend(p.st, in.val(p, x.Chan), in.val(p, x.X), x.Pos())
		return in.afterCall(p, nil, outs)
	case *ssa.DebugRef:
		return execRes{cont: true}
	case *ssa.Store:
		addr := in.val(p, x.Addr)
		if in.pool != nil {
			if ptr, ok := addr.(Ptr); ok {
				in.pool.onAccess(in, p.st, ptr, true, in.pos(x.Pos()))
			}
		}
		in.store(p.st, addr, in.val(p, x.Val))
		return execRes{cont: true}
	case *ssa.MapUpdate:
		in.mapUpdate(p.st, in.val(p, x.Map), in.val(p, x.Key), in.val(p, x.Value))
		return execRes{cont: true}
	case ssa.Value:
		p.fr.env[x] = in.value(p, x)
		return execRes{cont: true}
	}
	undec("unsupported instruction %T", ins)
	return
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	if v, ok := x.Cond.(ssa.Instruction); ok {
		for _, o := range v.Operands(nil) {
			if o != nil && *o != nil && (*o).Pos().IsValid() {
				return (*o).Pos()
			}
		}
	}
	return x.Pos()
}

// afterCall continues p with each outcome of a call instruction.
func (in *Interp) afterCall(p *Path, x ssa.Value, outs []Outcome) (res execRes) {
	for i, o := range outs {
		fr := p.fr
		if i < len(outs)-1 {
			fr = p.fr.clone()
		}
		if o.panic {
			res.ends = append(res.ends, End{kind: EPanic, st: o.st, fr: fr})
			continue
		}
		if x != nil {
			if t, ok := x.Type().(*types.Tuple); ok {
				if t.Len() > 0 {
					fr.env[x] = Tuple{o.vals}
				}
			} else if len(o.vals) > 0 {
				fr.env[x] = o.vals[0]
			} else {
				fr.env[x] = nil
			}
		}
		if len(outs) == 1 {
			p.st = o.st
			return execRes{cont: true}
		}
		res.paths = append(res.paths, Path{st: o.st, fr: fr, blk: p.blk, prev: p.prev, idx: p.idx + 1})
	}
	return
}

// enter transfers control along an edge.
func (in *Interp) enter(st *State, fr *Frame, from, to *ssa.BasicBlock, loop *Loop) (res execRes) {
	if loop != nil {
		if to == loop.header {
			return execRes{ends: []End{{kind: EBack, st: st, fr: fr, from: from, to: to}}}
		}
		if !loop.blocks[to] {
			return execRes{ends: []End{{kind: EExit, st: st, fr: fr, from: from, to: to}}}
		}
	}
	li := in.loopInfo(fr.fn)
	if l := li.byHeader[to]; l != nil && (from == nil || !l.blocks[from]) {
		return in.handleLoop(st, fr, from, l, loop)
	}
	in.phis(st, fr, from, to)
	return execRes{paths: []Path{{st: st, fr: fr, blk: to, prev: from, idx: nphis(to)}}}
}

func nphis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (in *Interp) phiVals(st *State, fr *Frame, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	k := -1
	for i, b := range to.Preds {
		if b == from {
			k = i
		}
	}
	r := map[*ssa.Phi]Val{}
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		r[ph] = in.valFr(st, fr, ph.Edges[k])
	}
	return r
}

func (in *Interp) phis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	for ph, v := range in.phiVals(st, fr, from, to) {
		fr.env[ph] = v
	}
}

func (in *Interp) val(p *Path, v ssa.Value) Val { return in.valFr(p.st, p.fr, v) }

func (in *Interp) valFr(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x)
	case *ssa.Function:
		return Closure{fn: x}
	case *ssa.Global:
		return in.globalPtr(st, x)
	case *ssa.Builtin:
		return Builtin{x}
	}
	r, ok := fr.env[v]
	if !ok {
		undec("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (st *State) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return st.zero(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		return basicConst(b, c.Value)
	case *types.TypeParam:
	}
	undec("constant %s", c)
	return nil
}

func basicConst(b *types.Basic, v constant.Value) Val {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BConst(constant.BoolVal(v))
	case b.Info()&types.IsString != 0:
		s := constant.StringVal(v)
		return mkStr(s)
	case b.Info()&types.IsInteger != 0:
		i := constant.ToInt(v)
		if x, ok := constant.Int64Val(i); ok {
			return K(x)
		}
		n, _ := new(big.Int).SetString(i.ExactString(), 10)
		return KB(n)
	case b.Info()&types.IsFloat != 0:
		return Float{name: v.ExactString()}
	}
	return Top{b}
}

func mkStr(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]Seg{segLit(s)}}
}

// zero value of a type.
func (st *State) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BConst(false)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsInteger != 0:
			return K(0)
		case u.Info()&types.IsFloat != 0:
			return Float{name: "0"}
		case u.Kind() == types.UnsafePointer:
			return Nil{t}
		case u.Kind() == types.UntypedNil:
			return Nil{t}
		}
		return Top{t}
	case *types.Struct:
		s := Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, st.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return ArrV{seq: []Seg{segZero(K(u.Len()))}, typ: t}
	case *types.Slice:
		return Slice{obj: 0, off: K(0), len: K(0), cap: K(0), nilq: BConst(true), elem: u.Elem()}
	case *types.Tuple:
		tu := Tuple{}
		for i := 0; i < u.Len(); i++ {
			tu.f = append(tu.f, st.zero(u.At(i).Type()))
		}
		return tu
	}
	return Nil{t}
}

// ArrV is an array value.
type ArrV struct {
	seq []Seg
	typ types.Type
}

// loopInfo finds the natural loops of fn.
type Loop struct {
	header    *ssa.BasicBlock
	exitConst bool
	exitSym   bool
	blocks    map[*ssa.BasicBlock]bool
}

type LoopInfo struct{ byHeader map[*ssa.BasicBlock]*Loop }

func (in *Interp) loopInfo(fn *ssa.Function) *LoopInfo {
	if li, ok := in.loops[fn]; ok {
		return li
	}
	li := &LoopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	in.loops[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return li
}

// sortedPhis returns header phis in order.
func sortedPhis(m map[*ssa.Phi]Val) []*ssa.Phi {
	var r []*ssa.Phi
	for p := range m {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

var debugSplit = os.Getenv("XTA_SPLIT") != ""
