package main

// Models of the standard library functions the repository depends on.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, st *State, args []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool)

var intrinsics = map[string]intrinsic{}

var modelMethods = map[string]func(in *Interp, st *State, m Model, args []Val, pos token.Pos) []Outcome{}

var invokeModels = map[string]func(in *Interp, st *State, r SymV, args []Val, pos token.Pos) []Outcome{}

func simple(f func(in *Interp, st *State, a []Val) Val) intrinsic {
	return func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		return one(st, f(in, st, a)), true
	}
}

func multi(f func(in *Interp, st *State, a []Val) []Outcome) intrinsic {
	return func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		return f(in, st, a), true
	}
}

func (st *State) strVal(v Val) []Seg {
	switch x := v.(type) {
	case Str:
		return x.seq
	case Slice:
		return st.content(x)
	}
	undec("string expected, got %s", valStr(v))
	return nil
}

func decSeg(st *State, l *Lin) []Seg {
	if c := st.facts.constOf(l); c != nil {
		return []Seg{segLit(c.String())}
	}
	o := &Opq{kind: "dec", l: l}
	o.n = VarB("n("+o.ident()+")", big1, bi(20))
	return []Seg{segOpq(o)}
}

func base10(st *State, v Val) {
	l, ok := v.(*Lin)
	if !ok || !l.isConst() || l.c.Int64() != 10 {
		undec("number formatting in a base other than 10")
	}
}

func (st *State) fitUnsignedDec(l *Lin) []Seg {
	// negative numbers: '-' and magnitude
	if st.decide(BGe(l)) {
		return decSeg(st, l)
	}
	return append([]Seg{segLit("-")}, decSeg(st, Neg(l))...)
}

// fmtSeq formats with the plain verbs %d of integers and %s and %v of strings; anything else is left opaque.
func fmtSeq(st *State, a []Val) ([]Seg, bool) {
	f, ok := st.litOf(a[0].(Str).seq)
	if !ok {
		return nil, false
	}
	args := variadic(st, a[1])
	var q []Seg
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			q = append(q, segLit(f[i:i+1]))
			continue
		}
		i++
		if i == len(f) {
			return nil, false
		}
		if f[i] == '%' {
			q = append(q, segLit("%"))
			continue
		}
		if len(args) == 0 {
			return nil, false
		}
		iv, ok := args[0].(Iface)
		args = args[1:]
		if !ok {
			return nil, false
		}
		_, plain := iv.typ.(*types.Basic)
		switch v := iv.v.(type) {
		case *Lin:
			if f[i] != 'd' && !(f[i] == 'v' && plain) || !isInt(iv.typ) {
				return nil, false
			}
			q = append(q, st.fitUnsignedDec(v)...)
		case Str:
			if f[i] != 's' && f[i] != 'v' || !plain {
				return nil, false
			}
			q = append(q, v.seq...)
		default:
			return nil, false
		}
	}
	if len(args) > 0 {
		return nil, false
	}
	return q, true
}

func timeSeg(st *State, t Val, layout Val) []Seg {
	lay, ok := st.litOf(layout.(Str).seq)
	if !ok {
		undec("time layout is not constant")
	}
	o := &Opq{kind: "time", v: t, layout: lay}
	// a year has at least four digits, and at most 12 plus a sign for the int64 range of seconds
	lo, hi := int64(len(lay)), int64(len(lay)+19)
	if lay != "2006-01-02 15:04:05.000000000" {
		lo, hi = 0, int64(len(lay)*4+64)
	}
	o.n = VarB("n("+o.ident()+")", bi(lo), bi(hi))
	return []Seg{segOpq(o)}
}

func digest(st *State, alg string, size int64, content []Seg) []Seg {
	content = st.compact(content)
	name := alg + "(" + seqKey(content) + ")"
	s := mkSym(name, K(size), nil)
	s.hash, s.content = alg, content
	return []Seg{segSrc(s, K(0), K(size))}
}

func errTarget(v Val) (Ptr, types.Type, bool) {
	i, ok := v.(Iface)
	if !ok {
		return Ptr{}, nil, false
	}
	p, ok := i.v.(Ptr)
	if !ok {
		return Ptr{}, nil, false
	}
	return p, i.typ.Underlying().(*types.Pointer).Elem(), true
}

// errAs implements errors.As on the abstract error chain.
func (in *Interp) errAs(st *State, e Val, target types.Type) (Val, bool) {
	for i := 0; i < 20; i++ {
		switch x := e.(type) {
		case Nil:
			return nil, false
		case Iface:
			if it, ok := target.Underlying().(*types.Interface); ok {
				if types.Implements(x.typ, it) {
					return x, true
				}
			} else if types.Identical(x.typ, target) {
				return x.v, true
			}
			// Unwrap methods are not followed
			if sel := in.prog.MethodSets.MethodSet(x.typ).Lookup(nil, "Unwrap"); sel != nil {
				undec("errors.As through an Unwrap method")
			}
			return nil, false
		case SymV:
			if w, ok := st.ghost["wrap:"+x.name]; ok {
				e = w
				continue
			}
			if strings.HasPrefix(x.name, "!") {
				return nil, false
			}
			if st.decide(st.nilTest(x)) {
				return nil, false
			}
			if st.decide(BAtom("as:" + x.name + "|" + target.String())) {
				v := st.symVal(target, "as("+x.name+")")
				if p, ok := v.(Ptr); ok {
					p.nilq = BConst(false)
					v = p
				}
				return v, true
			}
			return nil, false
		default:
			undec("errors.As on %s", valStr(e))
		}
	}
	return nil, false
}

func (in *Interp) errIs(st *State, e, target Val) bool {
	for i := 0; i < 20; i++ {
		if st.decide(in.equal(st, e, target)) {
			return true
		}
		x, ok := e.(SymV)
		if !ok {
			return false
		}
		w, ok := st.ghost["wrap:"+x.name]
		if !ok {
			if strings.HasPrefix(x.name, "!") {
				return false
			}
			return st.decide(BAtom("is:" + x.name + "|" + valKey(target)))
		}
		e = w
	}
	return false
}

func variadic(st *State, v Val) []Val {
	s, ok := v.(Slice)
	if !ok || isNil(v) {
		return nil
	}
	n := st.facts.constOf(s.len)
	if n == nil {
		return nil
	}
	var r []Val
	for i := int64(0); i < n.Int64(); i++ {
		u := st.readAt(st.obj(s.obj), st.obj(s.obj).seq, AddK(s.off, i))
		r = append(r, st.unit2val(u, s.elem))
	}
	return r
}

func isErrVal(st *State, v Val) bool {
	switch x := v.(type) {
	case SymV:
		return x.typ != nil && (isErrorT(x.typ) || strings.HasPrefix(x.name, "!err") || strings.HasPrefix(x.name, "!werr"))
	case Iface:
		return types.Implements(x.typ, errorType.Underlying().(*types.Interface))
	}
	return false
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String}[u.Kind()]
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func bitsLen(w int) intrinsic {
	return simple(func(in *Interp, st *State, a []Val) Val {
		l := st.asLin(a[0])
		if c := st.facts.constOf(l); c != nil {
			return K(int64(c.BitLen()))
		}
		bits := st.bitsVal(l, w)
		if v := mkBV(bits); v.isConst() {
			return K(int64(v.c.BitLen()))
		}
		if x := st.orOne(bits); x != nil {
			// bits.Len(x|1)
			if st.decide(BGe(AddK(x, -1))) {
				return st.facts.simp(bitLenAtom(x))
			}
			return K(1)
		}
		return st.facts.simp(bitLenAtom(l))
	})
}

// orOne is x if the bits are those of x|1.
func (st *State) orOne(bits []Bit) *Lin {
	if len(bits) < 2 || !bits[0].isConst() || bits[0].c != 1 || bits[1].c != 0 || len(bits[1].xs) != 1 || bits[1].xs[0].i != 1 {
		return nil
	}
	x := bits[1].xs[0].l
	for i, b := range st.bitsVal(x, len(bits)) {
		if i > 0 && mkBV([]Bit{b}).key != mkBV(bits[i:i+1]).key {

			return nil
		}
	}
	return x
}

func lockKey(v Val) string {
	p, ok := v.(Ptr)
	if !ok {
		undec("lock of %s", valStr(v))
	}
	return fmt.Sprintf("%d%s", p.obj, p.path)
}

func init() {
	for n, w := range map[string]int{"math/bits.Len": 64, "math/bits.Len64": 64, "math/bits.Len32": 32, "math/bits.Len16": 16, "math/bits.Len8": 8} {
		intrinsics[n] = bitsLen(w)
	}
	intrinsics["math.Float64bits"] = simple(func(in *Interp, st *State, a []Val) Val {
		return VarB("f64bits("+valKey(a[0])+")", big0, new(big.Int).Sub(pow2(64), big1))
	})
	intrinsics["math.Float32bits"] = simple(func(in *Interp, st *State, a []Val) Val {
		return VarB("f32bits("+valKey(a[0])+")", big0, new(big.Int).Sub(pow2(32), big1))
	})
	intrinsics["strconv.AppendUint"] = simple(func(in *Interp, st *State, a []Val) Val {
		base10(st, a[2])
		q := decSeg(st, st.asLin(a[1]))
		return st.appendTo(st.sliceArg(a[0], types.NewSlice(byteType)), q, seqLen(q))
	})
	intrinsics["strconv.AppendInt"] = simple(func(in *Interp, st *State, a []Val) Val {
		base10(st, a[2])
		q := st.fitUnsignedDec(st.asLin(a[1]))
		return st.appendTo(st.sliceArg(a[0], types.NewSlice(byteType)), q, seqLen(q))
	})
	intrinsics["strconv.Itoa"] = simple(func(in *Interp, st *State, a []Val) Val { return Str{st.fitUnsignedDec(st.asLin(a[0]))} })
	fi := simple(func(in *Interp, st *State, a []Val) Val {
		base10(st, a[1])
		return Str{st.fitUnsignedDec(st.asLin(a[0]))}
	})
	intrinsics["strconv.FormatInt"] = fi
	intrinsics["strconv.FormatUint"] = fi
	intrinsics["(time.Time).AppendFormat"] = simple(func(in *Interp, st *State, a []Val) Val {
		q := timeSeg(st, a[0], a[2])
		return st.appendTo(st.sliceArg(a[1], types.NewSlice(byteType)), q, seqLen(q))
	})
	intrinsics["(time.Time).Format"] = simple(func(in *Interp, st *State, a []Val) Val { return Str{timeSeg(st, a[0], a[1])} })
	intrinsics["(time.Time).IsZero"] = simple(func(in *Interp, st *State, a []Val) Val { return BAtom("zerotime:" + valKey(a[0])) })
	for _, m := range []string{"UTC", "Local"} {
		m := m
		intrinsics["(time.Time)."+m] = simple(func(in *Interp, st *State, a []Val) Val {
			return SymV{name: m + "(" + valKey(a[0]) + ")", typ: a[0].(SymV).typ}
		})
	}
	for _, m := range []string{"Truncate", "Round", "Add", "In"} {
		m := m
		intrinsics["(time.Time)."+m] = simple(func(in *Interp, st *State, a []Val) Val {
			return SymV{name: m + "(" + valKey(a[0]) + "," + valKey(a[1]) + ")", typ: a[0].(SymV).typ}
		})
	}

	// hashes
	mkHash := func(alg string, size int64) intrinsic {
		return simple(func(in *Interp, st *State, a []Val) Val {
			id := st.newObj(&Obj{kind: "hash", x: map[string]Val{"alg": mkStr(alg), "size": K(size), "c": Str{}}})
			return Model{kind: "hash", obj: id}
		})
	}
	intrinsics["crypto/sha1.New"] = mkHash("sha1", 20)
	intrinsics["crypto/sha256.New"] = mkHash("sha256", 32)
	sum := func(alg string, size int64) intrinsic {
		return simple(func(in *Interp, st *State, a []Val) Val {
			return ArrV{seq: digest(st, alg, size, st.strVal(a[0])), typ: types.NewArray(byteType, size)}
		})
	}
	intrinsics["crypto/sha1.Sum"] = sum("sha1", 20)
	intrinsics["crypto/sha256.Sum256"] = sum("sha256", 32)
	wr := func(in *Interp, st *State, m Model, a []Val, pos token.Pos) []Outcome {
		q := st.strVal(a[0])
		w := st.wobj(m.obj)
		w.x["c"] = Str{append(append([]Seg{}, w.x["c"].(Str).seq...), q...)}
		return one(st, seqLen(q), Nil{errorType})
	}
	modelMethods["hash.Write"] = wr
	modelMethods["hash.WriteString"] = wr
	modelMethods["hash.Reset"] = func(in *Interp, st *State, m Model, a []Val, pos token.Pos) []Outcome {
		st.wobj(m.obj).x["c"] = Str{}
		return one(st)
	}
	modelMethods["hash.Size"] = func(in *Interp, st *State, m Model, a []Val, pos token.Pos) []Outcome {
		return one(st, st.obj(m.obj).x["size"])
	}
	modelMethods["hash.Sum"] = func(in *Interp, st *State, m Model, a []Val, pos token.Pos) []Outcome {
		o := st.obj(m.obj)
		alg, _ := st.litOf(o.x["alg"].(Str).seq)
		q := digest(st, alg, o.x["size"].(*Lin).c.Int64(), o.x["c"].(Str).seq)
		return one(st, st.appendTo(st.sliceArg(a[0], types.NewSlice(byteType)), q, seqLen(q)))
	}

	// errors and formatting
	intrinsics["errors.New"] = simple(func(in *Interp, st *State, a []Val) Val { return st.newErr("new") })
	intrinsics["fmt.Errorf"] = simple(func(in *Interp, st *State, a []Val) Val {
		f, ok := st.litOf(a[0].(Str).seq)
		e := st.newErr("errorf").(SymV)
		if !ok || strings.Contains(f, "%w") {
			var w Val
			for _, v := range variadic(st, a[1]) {
				if isErrVal(st, v) {
					w = v
				}
			}
			if w != nil {
				st.ghost["wrap:"+e.name] = w
			}
		}
		return e
	})
	symStr := func(in *Interp, st *State, a []Val) Val { return st.symVal(types.Typ[types.String], st.fresh("text")) }
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln"} {
		intrinsics[n] = simple(symStr)
	}
	intrinsics["fmt.Sprintf"] = simple(func(in *Interp, st *State, a []Val) Val {
		if q, ok := fmtSeq(st, a); ok {
			return Str{q}
		}
		return symStr(in, st, a)
	})
	intrinsics["errors.As"] = simple(func(in *Interp, st *State, a []Val) Val {
		p, t, ok := errTarget(a[1])
		if !ok {
			undec("errors.As target %s", valStr(a[1]))
		}
		v, found := in.errAs(st, a[0], t)
		if found {
			in.store(st, p, v)
		}
		return BConst(found)
	})
	intrinsics["errors.AsType"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		t := fn.Signature.Results().At(0).Type()
		v, found := in.errAs(st, a[0], t)
		if !found {
			v = st.zero(t)
		}
		return one(st, v, BConst(found)), true
	}
	intrinsics["errors.Is"] = simple(func(in *Interp, st *State, a []Val) Val { return BConst(in.errIs(st, a[0], a[1])) })
	intrinsics["errors.Unwrap"] = simple(func(in *Interp, st *State, a []Val) Val {
		if x, ok := a[0].(SymV); ok {
			if w, ok := st.ghost["wrap:"+x.name]; ok {
				return w
			}
			if strings.HasPrefix(x.name, "!") {
				return Nil{errorType}
			}
			return SymV{name: "unwrap(" + x.name + ")", typ: errorType}
		}
		return Nil{errorType}
	})

	// reflect
	rv := func(st *State, v Val) Val {
		id := st.newObj(&Obj{kind: "rvalue", x: map[string]Val{"v": v}})
		return Model{kind: "rvalue", obj: id}
	}
	get := func(st *State, v Val) Val {
		m, ok := v.(Model)
		if !ok || (m.kind != "rvalue" && m.kind != "rtype") {
			undec("reflect value %s", valStr(v))
		}
		return st.obj(m.obj).x["v"]
	}
	intrinsics["reflect.ValueOf"] = simple(func(in *Interp, st *State, a []Val) Val { return rv(st, a[0]) })
	intrinsics["reflect.Indirect"] = simple(func(in *Interp, st *State, a []Val) Val {
		if i, ok := get(st, a[0]).(Iface); ok {
			if pt, ok := i.typ.Underlying().(*types.Pointer); ok {
				return rv(st, Iface{typ: pt.Elem(), v: in.load(st, i.v)})
			}
		}
		return a[0]
	})
	kind := func(in *Interp, st *State, a []Val) Val {
		switch x := get(st, a[0]).(type) {
		case Iface:
			return K(int64(kindOf(x.typ)))
		case Nil:
			return K(0)
		case SymV:
			if tf := st.types[x.name]; tf != nil && tf.is != nil {
				return K(int64(kindOf(tf.is)))
			}
			return VarB("kind("+x.name+")", big1, bi(26))
		}
		undec("reflect kind")
		return nil
	}
	intrinsics["(reflect.Value).Kind"] = simple(kind)
	intrinsics["(reflect.Value).IsValid"] = simple(func(in *Interp, st *State, a []Val) Val {
		return st.nilTest(get(st, a[0])).Not()
	})
	intrinsics["(reflect.Value).IsNil"] = simple(func(in *Interp, st *State, a []Val) Val {
		switch x := get(st, a[0]).(type) {
		case Iface:
			switch kindOf(x.typ) {
			case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan:
				return st.nilTest(x.v)
			}
			panic(goPanic{msg: "reflect: IsNil of " + x.typ.String()})
		case SymV:
			return BAtom("nil:value of " + x.name)
		}
		undec("reflect IsNil")
		return nil
	})
	intrinsics["(reflect.Value).Elem"] = simple(func(in *Interp, st *State, a []Val) Val {
		switch x := get(st, a[0]).(type) {
		case Iface:
			pt, ok := x.typ.Underlying().(*types.Pointer)
			if !ok {
				panic(goPanic{msg: "reflect: Elem of " + x.typ.String()})
			}
			if st.decide(st.nilTest(x.v)) {
				return rv(st, Nil{pt.Elem()})
			}
			v := in.load(st, x.v)
			if _, ok := pt.Elem().Underlying().(*types.Interface); ok {
				return rv(st, v)
			}
			return rv(st, Iface{typ: pt.Elem(), v: v})
		case SymV:
			return rv(st, SymV{name: "elem(" + x.name + ")", typ: x.typ})
		}
		undec("reflect Elem")
		return nil
	})
	intrinsics["(reflect.Value).Interface"] = simple(func(in *Interp, st *State, a []Val) Val {
		v := get(st, a[0])
		if _, ok := v.(Nil); ok {
			panic(goPanic{msg: "reflect: Interface of zero Value"})
		}
		return v
	})
	intrinsics["(reflect.Value).Type"] = simple(func(in *Interp, st *State, a []Val) Val {
		id := st.newObj(&Obj{kind: "rtype", x: map[string]Val{"v": get(st, a[0])}})
		return Model{kind: "rtype", obj: id}
	})
	intrinsics["reflect.TypeOf"] = simple(func(in *Interp, st *State, a []Val) Val {
		id := st.newObj(&Obj{kind: "rtype", x: map[string]Val{"v": a[0]}})
		return Model{kind: "rtype", obj: id}
	})
	modelMethods["rtype.Kind"] = func(in *Interp, st *State, m Model, a []Val, pos token.Pos) []Outcome {
		return one(st, kind(in, st, []Val{m}))
	}
	modelMethods["rtype.String"] = func(in *Interp, st *State, m Model, a []Val, pos token.Pos) []Outcome {
		return one(st, symStr(in, st, nil))
	}
	intrinsics["(reflect.Kind).String"] = simple(symStr)
	// scalar accessors of a reflect value of known type
	rget := func(in *Interp, st *State, a []Val) Val {
		x, ok := get(st, a[0]).(Iface)
		if !ok {
			undec("reflect accessor on an unknown type")
		}
		return x.v
	}
	for _, n := range []string{"Int", "Uint", "String", "Bytes", "Bool"} {
		intrinsics["(reflect.Value)."+n] = simple(rget)
	}
	intrinsics["(reflect.Value).Float"] = simple(func(in *Interp, st *State, a []Val) Val {
		x, ok := get(st, a[0]).(Iface)
		if !ok {
			undec("reflect accessor on an unknown type")
		}
		return in.convert(st, x.v, x.typ, types.Typ[types.Float64])
	})

	// sync
	lock := func(d int) intrinsic {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
			if in.onLock != nil {
				if o := in.onLock(in, st, a[0], d, pos); o != nil {
					return o, true
				}
			}
			k := lockKey(a[0])
			if d > 0 && st.locks[k] > 0 {
				undec("lock acquired while held at %s", in.pos(pos))
			}
			if d < 0 && st.locks[k] == 0 {
				panic(goPanic{msg: "unlock of unlocked mutex"})
			}
			st.locks[k] += d
			return one(st), true
		}
	}
	intrinsics["(*sync.Mutex).Lock"] = lock(1)
	intrinsics["(*sync.Mutex).Unlock"] = lock(-1)
	intrinsics["(*sync.RWMutex).Lock"] = lock(1)
	intrinsics["(*sync.RWMutex).Unlock"] = lock(-1)
	intrinsics["(*sync.RWMutex).RLock"] = lock(1)
	intrinsics["(*sync.RWMutex).RUnlock"] = lock(-1)

	// contexts
	invokeModels["(context.Context).Deadline"] = func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		tp := in.prog.ImportedPackage("time")
		tt := tp.Type("Time").Type()
		return one(st, SymV{name: "deadline(" + r.name + ")", typ: tt}, BAtom("hasdeadline("+r.name+")"))
	}
	invokeModels["(context.Context).Done"] = func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		return one(st, SymV{name: "done(" + r.name + ")", typ: nil})
	}
	invokeModels["(context.Context).Err"] = func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		if _, ok := st.ghost["ctxdone:"+r.name]; ok {
			return one(st, SymV{name: "!ctxerr(" + r.name + ")", typ: errorType})
		}
		d := st.clone()
		d.ghost["ctxdone:"+r.name] = BConst(true)
		return []Outcome{{st: st, vals: []Val{Nil{errorType}}}, {st: d, vals: []Val{SymV{name: "!ctxerr(" + r.name + ")", typ: errorType}}}}
	}
	bg := simple(func(in *Interp, st *State, a []Val) Val { return SymV{name: "!background", typ: nil} })
	intrinsics["context.Background"] = bg
	intrinsics["context.TODO"] = bg
}

// prefixModel handles whole packages.
func prefixModel(path string, fn *ssa.Function) func(in *Interp, st *State, args []Val, fn *ssa.Function, pos token.Pos) []Outcome {
	if strings.HasPrefix(path, modPath+"/protobuf/") && fn.Name() == "String" {
		return func(in *Interp, st *State, args []Val, fn *ssa.Function, pos token.Pos) []Outcome {
			return one(st, st.symVal(types.Typ[types.String], "text("+fn.String()+","+valKey(args[0])+")"))
		}
	}
	return nil
}
