package main

// Calls: dispatch, builtins, contracts for unknown code.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Invoke is a method call on an interface value whose target is not known code.
type Invoke struct {
	recv Val
	m    *types.Func
}

// repoDir is the tree analysed; XTA_REPO points it at a scratch copy while developing.
var repoDir = func() string {
	if d := os.Getenv("XTA_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const modPath = "github.com/renthraysk/xtorm"

func (in *Interp) callee(p *Path, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		r := in.val(p, c.Value)
		fn, recv := in.resolve(p.st, r, c.Method)
		if _, ok := fn.(Invoke); !ok {
			args = append(args, recv)
		}
		for _, a := range c.Args {
			args = append(args, in.val(p, a))
		}
		return fn, args
	}
	for _, a := range c.Args {
		args = append(args, in.val(p, a))
	}
	return in.val(p, c.Value), args
}

// resolve finds the method of an interface value.
func (in *Interp) resolve(st *State, r Val, m *types.Func) (Val, Val) {
	switch x := r.(type) {
	case Iface:
		ms := in.prog.MethodSets.MethodSet(x.typ)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			undec("no method %s on %s", m.Name(), x.typ)
		}
		f := in.prog.MethodValue(sel)
		if f == nil {
			undec("abstract method %s on %s", m.Name(), x.typ)
		}
		if f.Pkg != nil {
			f.Pkg.Build()
		}
		return Closure{fn: f}, x.v
	case SymV:
		if st.decide(st.nilTest(x)) {
			panic(goPanic{msg: "method call on nil interface"})
		}
		if tf := st.types[x.name]; tf != nil && tf.is != nil {
			return in.resolve(st, Iface{typ: tf.is, v: st.symVal(tf.is, dynName(x.name, tf.is))}, m)
		}
		return Invoke{recv: r, m: m}, nil
	case Model:
		return Invoke{recv: r, m: m}, nil
	case Nil:
		panic(goPanic{msg: "method call on nil interface"})
	}
	undec("method %s of %s", m.Name(), valStr(r))
	return nil, nil
}

func one(st *State, vals ...Val) []Outcome { return []Outcome{{st: st, vals: vals}} }

func (in *Interp) callVal(st *State, fn Val, args []Val, c *ssa.CallCommon, pos token.Pos) []Outcome {
	in.ncalls++
	switch f := fn.(type) {
	case Builtin:
		return in.builtin(st, f.b.Name(), args, c, pos)
	case Closure:
		return in.callFunc(st, f, args, pos)
	case Nil:
		panic(goPanic{msg: "call of nil function"})
	case SymV:
		if st.decide(st.nilTest(f)) {
			panic(goPanic{msg: "call of nil function"})
		}
		sig, ok := f.typ.Underlying().(*types.Signature)
		if !ok {
			undec("call of %s", valStr(fn))
		}
		return in.opaqueCall(st, f.name, f, sig, args, pos)
	case Invoke:
		return in.opaqueInvoke(st, f, args, pos)
	case ModelFn:
		return f.f(in, st, args)
	}
	undec("call of %s", valStr(fn))
	return nil
}

// ModelFn is a function value implemented by the analyzer.
type ModelFn struct {
	name string
	f    func(in *Interp, st *State, args []Val) []Outcome
}

func (in *Interp) callFunc(st *State, f Closure, args []Val, pos token.Pos) []Outcome {
	fn := f.fn
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if h, ok := intrinsics[name]; ok {
		if o, done := h(in, st, args, fn, pos); done {
			return o
		}
	}
	if h := in.hookFn; h != nil {
		if o, done := h(in, st, f, args, pos); done {
			return o
		}
	}
	pkgPath := ""
	if fn.Pkg != nil {
		pkgPath = fn.Pkg.Pkg.Path()
		fn.Pkg.Build()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkgPath = fn.Object().Pkg().Path()
		if sp := in.prog.Package(fn.Object().Pkg()); sp != nil {
			sp.Build()
		}
	}
	if h := prefixModel(pkgPath, fn); h != nil {
		return h(in, st, args, fn, pos)
	}
	if fn.Name() == "init" && len(args) == 0 && fn.Synthetic != "" && in.depth > 0 {
		return one(st)
	}
	if o, done := in.tryShape(st, f, args, pos); done {
		return o
	}
	if o, done := in.tryContract(st, f, args, pos); done {
		return o
	}
	if len(fn.Blocks) == 0 {
		return in.external(st, fn, args, pos)
	}
	return in.callFn(st, fn, args, f.b)
}

// external havocs the results of a function without analysable body.
func (in *Interp) external(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Outcome {
	undec("no model for external function %s", fn)
	return nil
}

func (in *Interp) havocResults(st *State, sig *types.Signature, name string) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, st.symVal(sig.Results().At(i).Type(), st.fresh(name)))
	}
	return r
}

var errorType = types.Universe.Lookup("error").Type()

// newErr is a fresh non-nil error.
func (st *State) newErr(what string) Val {
	n := st.fresh("!err:" + what)
	return SymV{name: n, typ: errorType}
}

func isErrorT(t types.Type) bool { return types.Identical(t, errorType) }

// encShape: func(..., []byte, uint8 [, value]) ([]byte, error).
func encResult(sig *types.Signature) bool {
	r := sig.Results()
	return r.Len() == 2 && isBytes(r.At(0).Type()) && isErrorT(r.At(1).Type())
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}

// opaqueCall: a call of unknown code through a function value.
func (in *Interp) opaqueCall(st *State, name string, recv Val, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
	if h := in.opaque[name]; h != nil {
		return h(in, st, args)
	}
	if encResult(sig) && sig.Params().Len() == 2 && isBytes(sig.Params().At(0).Type()) {
		if tag, ok := args[1].(*Lin); ok {
			return in.encoder(st, args[0].(Slice), tag, "user:"+name, recv, pos)
		}
	}
	// an appender of unspecified bytes: func([]byte) []byte
	if sig.Params().Len() == 1 && sig.Results().Len() == 1 && isBytes(sig.Params().At(0).Type()) && isBytes(sig.Results().At(0).Type()) {
		s := args[0].(Slice)
		o := &Opq{kind: "field", n: VarB("n("+name+"())", K(1).c, maxLen), tag: -1, enc: "userapp:" + name, v: recv}
		q := []Seg{segOpq(o)}
		return one(st, st.appendTo(s, q, o.n))
	}
	if in.unknown != nil {
		if o, ok := in.unknown(in, st, name, recv, sig, args, pos); ok {
			return o
		}
	}
	undec("call of unknown function value %s", name)
	return nil
}

// encoder is the contract of an encoder of one field: it either appends exactly one field with the tag, or fails.
func (in *Interp) encoder(st *State, p Slice, tag *Lin, enc string, v Val, pos token.Pos) []Outcome {
	t := st.facts.constOf(tag)
	if t == nil {
		undec("encoder called with an unknown tag")
	}
	o := &Opq{kind: "field", tag: int(t.Int64()), enc: enc, v: v}
	o.n = VarB("n("+o.ident()+")", K(1).c, maxLen)
	ok := st.clone()
	// decisions first
	s := ok.appendTo(p, []Seg{segOpq(o)}, o.n)
	bad := st
	e := bad.newErr("encode")
	buf := bad.symVal(types.NewSlice(byteType), bad.fresh("errbuf"))
	bad.trail = append(bad.trail, in.pos(pos)+":encoder fails")
	bad.event("encfail", v)
	return []Outcome{{st: ok, vals: []Val{s, Nil{errorType}}}, {st: bad, vals: []Val{buf, e}}}
}

// tryContract applies the encoder contract to a repo function called on an opaque value.
func (in *Interp) tryContract(st *State, f Closure, args []Val, pos token.Pos) ([]Outcome, bool) {
	sig := f.fn.Signature
	if in.noContract || in.noEnc || f.fn == in.noContractFor || !encResult(sig) || len(f.b) != 0 || sig.Recv() != nil {
		return nil, false
	}
	if f.fn.Pkg == nil || !strings.HasPrefix(f.fn.Pkg.Pkg.Path(), modPath) {
		return nil, false
	}
	var buf Slice
	var tag *Lin
	var val Val
	nb, nt, nv := 0, 0, 0
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		switch {
		case isBytes(pt):
			nb++
			buf, _ = args[i].(Slice)
		case isByteT(pt):
			nt++
			tag, _ = args[i].(*Lin)
		default:
			if it, ok := pt.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				nv++
				val = args[i]
				continue
			}
			return nil, false
		}
	}
	if nb != 1 || nt != 1 || nv != 1 || tag == nil {
		return nil, false
	}
	sv, ok := val.(SymV)
	if !ok {
		return nil, false
	}
	if tf := st.types[sv.name]; tf != nil && tf.is != nil {
		return nil, false
	}
	t := st.facts.constOf(tag)
	if t == nil {
		return nil, false
	}
	kind := in.classify(f.fn, int(t.Int64()))
	if kind == "" {
		return nil, false
	}
	u := in.contr[f.fn.String()]
	if u == nil {
		u = &ContractUse{fn: f.fn, tags: map[int]bool{}}
		in.contr[f.fn.String()] = u
	}
	u.tags[int(t.Int64())] = true
	return in.encoder(st, buf, tag, kind+":"+f.fn.String(), val, pos), true
}

// opaqueInvoke: a method call on an unknown implementation of an interface.
func (in *Interp) opaqueInvoke(st *State, f Invoke, args []Val, pos token.Pos) []Outcome {
	sig := f.m.Type().(*types.Signature)
	if m, ok := f.recv.(Model); ok {
		if h := modelMethods[m.kind+"."+f.m.Name()]; h != nil {
			return h(in, st, m, args, pos)
		}
		undec("no model for method %s of %s", f.m.Name(), m.kind)
	}
	r := f.recv.(SymV)
	if encResult(sig) && sig.Params().Len() == 2 {
		if tag, ok := args[1].(*Lin); ok {
			return in.encoder(st, args[0].(Slice), tag, "user:"+f.m.Name()+":"+r.name, r, pos)
		}
	}
	if h := in.opaque[r.name+"."+f.m.Name()]; h != nil {
		return h(in, st, args)
	}
	full := f.m.FullName()
	if h := invokeModels[full]; h != nil {
		return h(in, st, r, args, pos)
	}
	if f.m.Name() == "Error" && sig.Params().Len() == 0 {
		return one(st, st.symVal(types.Typ[types.String], "Error("+r.name+")"))
	}
	undec("no model for %s on %s", full, r.name)
	return nil
}

// ---- builtins ----

func (in *Interp) builtin(st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) []Outcome {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return one(st, x.len)
		case Str:
			return one(st, seqLen(x.seq))
		case ArrV:
			return one(st, seqLen(x.seq))
		case Ptr:
			at := x.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return one(st, K(at.Len()))
		case MapV:
			return one(st, in.mapLen(st, x))
		case Nil:
			return one(st, K(0))
		case ChanV:
			o := st.obj(x.obj)
			if l, ok := o.x["len"].(*Lin); ok {
				return one(st, l)
			}
			e := st.clone()
			e.event("empty", x).pos = in.pos(pos)
			return []Outcome{{st: st, vals: []Val{VarB(st.fresh("chanlen"), big.NewInt(1), maxLen)}}, {st: e, vals: []Val{K(0)}}}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return one(st, x.cap)
		case ArrV:
			return one(st, seqLen(x.seq))
		case Nil:
			return one(st, K(0))
		case Ptr:
			at := x.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return one(st, K(at.Len()))
		}
	case "append":
		s := st.sliceArg(args[0], c.Args[0].Type())
		if len(args) < 2 {
			return one(st, s)
		}
		var data []Seg
		var n *Lin
		switch y := args[1].(type) {
		case Str:
			data, n = y.seq, seqLen(y.seq)
		case Slice:
			data, n = st.content(y), y.len
		case Nil:
			return one(st, s)
		default:
			undec("append of %s", valStr(args[1]))
		}
		if s.elem == nil {
			s.elem = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		return one(st, st.appendTo(s, data, n))
	case "copy":
		d := args[0].(Slice)
		var q []Seg
		var n *Lin
		switch y := args[1].(type) {
		case Str:
			q, n = y.seq, seqLen(y.seq)
		case Slice:
			n = y.len
		}
		k := n
		if !st.decide(BGe(Sub(d.len, n))) {
			k = d.len
		}
		switch y := args[1].(type) {
		case Str:
			q = st.readSeq(q, K(0), k)
		case Slice:
			z := y
			z.len = k
			q = st.content(z)
		}
		if !st.isZero(k) {
			st.writeObj(d.obj, d.off, q)
		}
		return one(st, k)
	case "min", "max":
		r := st.asLin(args[0])
		for _, a := range args[1:] {
			b := st.asLin(a)
			ge := st.decide(BGe(Sub(r, b)))
			if ge == (name == "min") {
				r = b
			}
		}
		return one(st, r)
	case "recover":
		if st.pan == nil {
			return one(st, Nil{types.NewInterfaceType(nil, nil)})
		}
		v := st.pan.v
		if v == nil {
			v = SymV{name: "!runtime:" + st.pan.msg}
		}
		st.event("recovered", mkStr(st.pan.msg), mkStr(st.pan.pos))
		st.pan = nil
		return one(st, v)
	case "panic":
		st.pan = &PanicVal{v: args[0], pos: in.pos(pos), msg: "panic(" + valStr(args[0]) + ")", explicit: true}
		return []Outcome{{st: st, panic: true}}
	case "close":
		return in.chanClose(st, args[0], pos)
	case "delete":
		if m, ok := args[0].(MapV); ok {
			o := st.wobj(m.obj)
			if o.kind == "symmap" {
				undec("delete from a symbolic map")
			}
			delete(o.x, valKey(args[1]))
			delete(o.x, "key:"+valKey(args[1]))
		}
		return one(st)
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			if !st.isZero(x.len) {
				st.writeObj(x.obj, x.off, []Seg{segZero(x.len)})
			}
			return one(st)
		case MapV:
			st.wobj(x.obj).x = map[string]Val{}
			return one(st)
		}
	case "print", "println":
		return one(st)
	case "ssa:wrapnilchk":
		if st.decide(st.nilTest(args[0])) {
			panic(goPanic{msg: "value method called using nil pointer"})
		}
		return one(st, args[0])
	}
	undec("builtin %s on %s", name, valsStr(args))
	return nil
}

func (st *State) sliceArg(v Val, t types.Type) Slice {
	switch x := v.(type) {
	case Slice:
		return x
	case Nil:
		return st.zero(t).(Slice)
	}
	undec("slice expected, got %s", valStr(v))
	return Slice{}
}

// ---- maps ----

func (in *Interp) mapLen(st *State, m MapV) *Lin {
	o := st.obj(m.obj)
	if o.kind == "symmap" {
		return lenVar(o.name)
	}
	n := 0
	for k := range o.x {
		if strings.HasPrefix(k, "key:") {
			n++
		}
	}
	return K(int64(n))
}

func (in *Interp) mapUpdate(st *State, m, k, v Val) {
	switch x := m.(type) {
	case MapV:
		o := st.wobj(x.obj)
		if o.kind == "symmap" {
			undec("update of a symbolic map")
		}
		kk := valKey(k)
		o.x["key:"+kk] = k
		o.x["val:"+kk] = v
		return
	case Nil:
		panic(goPanic{msg: "assignment to entry in nil map"})
	}
	undec("map update of %s", valStr(m))
}

func constKey(st *State, v Val) bool {
	switch x := v.(type) {
	case *Lin:
		return x.isConst()
	case Str:
		_, ok := st.litOf(x.seq)
		return ok
	}
	return false
}

func (in *Interp) lookup(st *State, m, k Val, commaOk bool, t types.Type) Val {
	var et types.Type = t
	if commaOk {
		et = t.(*types.Tuple).At(0).Type()
	}
	res := func(v Val, ok bool) Val {
		if commaOk {
			return Tuple{[]Val{v, BConst(ok)}}
		}
		return v
	}
	switch x := m.(type) {
	case Str: // string index
		i := st.asLin(k)
		if _, ok := st.litOf(x.seq); !ok {
			i = st.concr(i)
		}
		st.checkIndex(i, seqLen(x.seq))
		return st.asLin(st.readAt(nil, x.seq, i))
	case Nil:
		return res(st.zero(et), false)
	case MapV:
		o := st.obj(x.obj)
		if o.kind == "symmap" {
			b := BAtom("has:" + o.name + "|" + valKey(k))
			if st.decide(b) {
				return res(st.symVal(et, o.name+"{"+valKey(k)+"}"), true)
			}
			return res(st.zero(et), false)
		}
		if v, ok := o.x["val:"+valKey(k)]; ok {
			return res(v, true)
		}
		for _, kk := range sortedKeys(o.x) {
			if !strings.HasPrefix(kk, "key:") {
				continue
			}
			if st.decide(in.equal(st, k, o.x[kk])) {
				return res(o.x["val:"+kk[4:]], true)
			}
		}
		return res(st.zero(et), false)
	}
	undec("lookup in %s", valStr(m))
	return nil
}

// rangeIter starts a map or string iteration. The state of the iterator is a heap object.
func (in *Interp) rangeIter(st *State, v Val, t types.Type) Val {
	id := st.newObj(&Obj{kind: "iter", typ: t, x: map[string]Val{"pos": K(0)}})
	return MapIter{m: v, obj: id}
}

func (in *Interp) next(st *State, it Val, x *ssa.Next) Val {
	m := it.(MapIter)
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	zeroOf := func(t types.Type) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return st.zero(t)
	}
	pos := st.obj(m.obj).x["pos"].(*Lin)
	end := Tuple{[]Val{BConst(false), zeroOf(kt), zeroOf(vt)}}
	if x.IsString {
		s := m.m.(Str)
		lit, ok := st.litOf(s.seq)
		if !ok {
			undec("range over a symbolic string")
		}
		if !pos.isConst() || int(pos.c.Int64()) >= len(lit) {
			return end
		}
		i := int(pos.c.Int64())
		for j, r := range lit[i:] {
			if j > 0 {
				break
			}
			n := len(string(r))
			st.wobj(m.obj).x["pos"] = K(int64(i + n))
			return Tuple{[]Val{BConst(true), K(int64(i)), K(int64(r))}}
		}
		return end
	}
	switch y := m.m.(type) {
	case Nil:
		return end
	case MapV:
		o := st.obj(y.obj)
		if o.kind == "symmap" {
			n := lenVar(o.name)
			more := BGe(AddK(Sub(n, pos), -1))
			if v, k := st.evalB(more); k && !v {
				return end
			}
			mt := o.typ.Underlying().(*types.Map)
			ks := mkSym(o.name+".keys", n, mt.Key())
			vs := mkSym(o.name+".vals", n, mt.Elem())
			k, v := st.symElem(ks, pos), st.symElem(vs, pos)
			st.wobj(m.obj).x["pos"] = AddK(pos, 1)
			return Tuple{[]Val{more, k, v}}
		}
		var keys []string
		for k := range o.x {
			if strings.HasPrefix(k, "key:") {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		if !pos.isConst() || int(pos.c.Int64()) >= len(keys) {
			return end
		}
		k := keys[pos.c.Int64()]
		st.wobj(m.obj).x["pos"] = AddK(pos, 1)
		return Tuple{[]Val{BConst(true), o.x[k], o.x["val:"+k[4:]]}}
	}
	undec("range over %s", valStr(m.m))
	return nil
}

// ---- globals ----

func (in *Interp) globalPtr(st *State, g *ssa.Global) Val {
	id, ok := st.glob[g]
	if !ok {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		name := "!" + g.Pkg.Pkg.Path() + "." + g.Name()
		o := &Obj{typ: t, name: name}
		switch u := t.Underlying().(type) {
		case *types.Array:
			o.isq = true
			o.typ = u.Elem()
			if in.initing == g.Pkg {
				o.seq = []Seg{segZero(K(u.Len()))}
			} else {
				o.seq = st.symVal(t, name).(ArrV).seq
			}
		default:
			if in.initing == g.Pkg {
				o.val = st.zero(t)
			} else {
				o.val = st.symVal(t, name)
			}
		}
		id = st.newObj(o)
		st.glob[g] = id
	}
	pt := Ptr{obj: id, typ: g.Type(), nilq: BConst(false)}
	if st.obj(id).isq {
		pt.path = "@"
	}
	return pt
}

// initPkg interprets a package's variable initialisers.
func (in *Interp) initPkg(st *State, p *ssa.Package) *State {
	p.Build()
	f := p.Func("init")
	if f == nil {
		return st
	}
	in.initing = p
	defer func() { in.initing = nil }()
	// the guard variable starts false
	outs := in.callFn(st, f, nil, nil)
	if len(outs) != 1 || outs[0].panic {
		undec("package initialisation of %s has %d outcomes", p.Pkg.Path(), len(outs))
	}
	return outs[0].st
}

var _ = fmt.Sprint
