package main

// The network: connections, the buffered reader over the stream of server frames, TLS, protobuf messages.
//
// What a server sends is an arbitrary sequence of frames: a little endian length, a type byte and a body, each
// unknown, followed at any point by a failure. A reader is at a frame boundary or a known distance into a frame.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pure runs a model on a copy of the state, so that case splits in the middle leave no trace.
func pure(f func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome) intrinsic {
	return func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		return f(in, st.clone(), a, pos), true
	}
}

func unwrapIface(v Val) Val {
	if i, ok := v.(Iface); ok {
		return i.v
	}
	return v
}

func modelOf(v Val, kind string) Model {
	m, ok := unwrapIface(v).(Model)
	if !ok || m.kind != kind {
		undec("%s expected, got %s", kind, valStr(v))
	}
	return m
}

// ---- network connections ----

func (in *Interp) namedPtr(pkg, name string) types.Type {
	p := in.prog.ImportedPackage(pkg)
	if p == nil {
		undec("package %s is not loaded", pkg)
	}
	return types.NewPointer(p.Type(name).Type())
}

var netKinds = map[string][2]string{"tcp": {"net", "TCPConn"}, "unix": {"net", "UnixConn"}, "other": {"net", "IPConn"}, "tls": {"crypto/tls", "Conn"}}

// newConn is a network connection of the given kind.
func (in *Interp) newConn(st *State, kind string, under Val) Model {
	k := netKinds[kind]
	t := in.namedPtr(k[0], k[1])
	if under == nil {
		under = Nil{}
	}
	id := st.newObj(&Obj{kind: "netconn", x: map[string]Val{"kind": mkStr(kind), "under": under}})
	return Model{kind: "netconn", obj: id, typ: t}
}

func connKind(st *State, v Val) string {
	m, ok := unwrapIface(v).(Model)
	if !ok || m.kind != "netconn" {
		return "?"
	}
	s, _ := st.litOf(st.obj(m.obj).x["kind"].(Str).seq)
	return s
}

func ioErr(st *State, what string) Val { return SymV{name: st.fresh("!io:" + what), typ: errorType} }

func init() {
	both := func(names []string, m string, f func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome) {
		for _, n := range names {
			intrinsics[n] = pure(f)
		}
		modelMethods["netconn."+m] = func(in *Interp, st *State, md Model, a []Val, pos token.Pos) []Outcome {
			return f(in, st.clone(), append([]Val{md}, a...), pos)
		}
	}
	conns := func(m string) []string {
		return []string{"(*net.conn)." + m, "(*net.TCPConn)." + m, "(*net.UnixConn)." + m, "(*net.IPConn)." + m, "(*crypto/tls.Conn)." + m}
	}
	failing := func(ev string, vals func(st *State, a []Val) (ok, bad []Val)) func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		return func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			f := st.clone()
			e := ioErr(f, ev)
			f.event(ev+"fail", modelOf(a[0], "netconn"), e).pos = in.pos(pos)
			f.ghost["neterr"] = e
			ok, bad := vals(st, a)
			args := []Val{modelOf(a[0], "netconn")}
			if len(a) > 1 {
				if s, ok := a[1].(Slice); ok {
					args = append(args, Str{st.content(s)})
				} else {
					args = append(args, a[1])
				}
			}
			st.event(ev, args...).pos = in.pos(pos)
			return []Outcome{{st: st, vals: append(ok, Nil{errorType})}, {st: f, vals: append(bad, e)}}
		}
	}
	none := func(st *State, a []Val) (ok, bad []Val) { return nil, nil }
	both(conns("Write"), "Write", failing("write", func(st *State, a []Val) (ok, bad []Val) {
		return []Val{a[1].(Slice).len}, []Val{VarB(st.fresh("written"), big0, maxLen)}
	}))
	both(conns("SetDeadline"), "SetDeadline", failing("deadline", none))
	both(conns("SetReadDeadline"), "SetReadDeadline", failing("rdeadline", none))
	both(conns("SetWriteDeadline"), "SetWriteDeadline", failing("wdeadline", none))
	both(conns("Close"), "Close", func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		st.event("connclose", modelOf(a[0], "netconn")).pos = in.pos(pos)
		return one(st, SymV{name: st.fresh("closeerr"), typ: errorType})
	})
	both(conns("Handshake"), "Handshake", failing("handshake", none))
	both(conns("HandshakeContext"), "HandshakeContext", failing("handshake", none))
	for _, m := range []string{"SetNoDelay", "SetKeepAlive", "SetKeepAlivePeriod", "SetLinger", "SetReadBuffer", "SetWriteBuffer"} {
		both(conns(m), m, func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			return one(st, SymV{name: st.fresh("sockerr"), typ: errorType})
		})
	}
	both(conns("Read"), "Read", func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		undec("direct read of a network connection at %s", in.pos(pos))
		return nil
	})
	intrinsics["crypto/tls.Client"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		m := in.newConn(st, "tls", modelOf(a[0], "netconn"))
		st.event("tlsclient", m, a[1]).pos = in.pos(pos)
		return one(st, m)
	})
	intrinsics["(*crypto/tls.Config).Clone"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome { return one(st, a[0]) })
	intrinsics["(*net.Dialer).DialContext"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		f := st.clone()
		e := ioErr(f, "dial")
		f.event("dialfail", e).pos = in.pos(pos)
		f.ghost["neterr"] = e
		outs := []Outcome{{st: f, vals: []Val{Nil{nil}, e}}}
		for _, k := range []string{"tcp", "unix", "other"} {
			if in.opts["net:"+k] || !in.opts["net:tcp"] && !in.opts["net:unix"] && !in.opts["net:other"] {
				s := st.clone()
				m := in.newConn(s, k, nil)
				s.event("dial", m, a[2], a[3]).pos = in.pos(pos)
				outs = append(outs, Outcome{st: s, vals: []Val{m, Nil{errorType}}})
			}
		}
		return outs
	})
}

// ---- the buffered reader ----

func (in *Interp) newReader(st *State, under Val, size *Lin) Model {
	if !size.isConst() {
		undec("buffered reader of unknown size")
	}
	if size.c.Cmp(bi(16)) < 0 {
		size = K(16)
	}
	id := st.newObj(&Obj{kind: "bufio", x: map[string]Val{"under": unwrapIface(under), "size": size, "cur": mkStr(""), "off": K(0), "avail": K(0), "fail": BConst(false), "mis": BConst(false), "served": BConst(false)}})
	return Model{kind: "bufio", obj: id}
}

// sframe is a server frame.
type sframe struct {
	name string
	n, t *Lin
	seq  []Seg // from the frame's start
}

func (f *sframe) total() *Lin { return AddK(f.n, 4) }

func bodySym(name string, n *Lin) *Sym { return mkSym(name+".body", AddK(n, -1), nil) }

func mkFrame(name string) *sframe {
	f := &sframe{name: name, n: VarB(name+".len", big0, bi(1<<32-1)), t: VarB(name+".type", big0, bi(255))}
	bits := bitsOf(f.n, 32)
	for i := 0; i < 4; i++ {
		f.seq = append(f.seq, segByte(fromBits(bits[8*i:8*i+8], false)))
	}
	return f
}

// frame is the frame the reader stands in; a new one at a boundary.
func (in *Interp) frame(st *State, m Model) *sframe {
	o := st.obj(m.obj)
	cur, _ := st.litOf(o.x["cur"].(Str).seq)
	if cur == "" {
		cur = st.fresh("frame")
		st.wobj(m.obj).x["cur"] = mkStr(cur)
	}
	f := mkFrame(cur)
	if !st.decide(BEq(f.n)) {
		f.seq = append(f.seq, segByte(f.t))
		b := bodySym(cur, f.n)
		f.seq = append(f.seq, segSrc(b, K(0), b.n))
	}
	return f
}

// ahead is the next n bytes of the stream.
func (in *Interp) ahead(st *State, m Model, n *Lin) []Seg {
	f := in.frame(st, m)
	off := st.obj(m.obj).x["off"].(*Lin)
	rest := Sub(f.total(), off)
	_, q := st.splitAt(f.seq, off)
	if st.decide(BGe(Sub(rest, n))) {
		q, _ = st.splitAt(q, n)
		return q
	}
	return append(append([]Seg{}, q...), segJunk(Sub(n, rest)))
}

var terminal = map[int64]string{0: "ok", 4: "ok", 17: "ok", 1: "error", 3: "challenge"}

// advance consumes n bytes.
func (in *Interp) advance(st *State, m Model, n *Lin, pos token.Pos) {
	if st.decide(BEq(n)) {
		return
	}
	f := in.frame(st, m)
	off := Add(st.obj(m.obj).x["off"].(*Lin), n)
	left := Sub(f.total(), off)
	at := st.decide(BEq(left))
	over := !at && !st.decide(BGe(left))
	class := ""
	if at {
		class = "other"
		if st.decide(BEq(f.n)) {
			class = "empty"
		} else {
			for _, k := range []int64{0, 1, 3, 4, 17} {
				if st.decide(BEq(AddK(f.t, -k))) {
					class = terminal[k]
					break
				}
			}
		}
	}
	w := st.wobj(m.obj)
	a := Sub(w.x["avail"].(*Lin), n)
	if y, k := st.evalB(BGe(a)); !k || !y {
		a = K(0)
	}
	switch {
	case at:
		w.x["cur"], w.x["off"], w.x["avail"] = mkStr(""), K(0), K(0)
		st.event("frame", w.x["under"], mkStr(class), mkStr(f.name)).pos = in.pos(pos)
	case over:
		w.x["mis"] = BConst(true)
		st.event("misaligned", w.x["under"]).pos = in.pos(pos)
		w.x["cur"], w.x["off"], w.x["avail"] = mkStr(""), K(0), K(0)
	default:
		w.x["off"], w.x["avail"] = off, a
	}
}

// readFail: the stream fails here.
func (in *Interp) readFail(st *State, m Model, pos token.Pos) Val {
	e := ioErr(st, "read")
	st.wobj(m.obj).x["fail"] = BConst(true)
	st.ghost["neterr"] = e
	st.event("readfail", st.obj(m.obj).x["under"], e).pos = in.pos(pos)
	return e
}

func (in *Interp) has(st *State, m Model, n *Lin) bool {
	y, k := st.evalB(BGe(Sub(st.obj(m.obj).x["avail"].(*Lin), n)))
	return k && y
}

func bufErr(n string) Val { return SymV{name: "!bufio." + n, typ: errorType} }

func init() {
	intrinsics["bufio.NewReaderSize"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		return one(st, in.newReader(st, a[0], st.asLin(a[1])))
	})
	intrinsics["bufio.NewReader"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		return one(st, in.newReader(st, a[0], K(4096)))
	})
	intrinsics["(*bufio.Reader).Reset"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		m := modelOf(a[0], "bufio")
		w := st.wobj(m.obj)
		w.x["under"], w.x["cur"], w.x["off"], w.x["avail"] = unwrapIface(a[1]), mkStr(""), K(0), K(0)
		w.x["fail"], w.x["mis"] = BConst(false), BConst(false)
		st.event("reset", w.x["under"]).pos = in.pos(pos)
		return one(st)
	})
	intrinsics["(*bufio.Reader).Size"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		return one(st, st.obj(modelOf(a[0], "bufio").obj).x["size"])
	})
	intrinsics["(*bufio.Reader).Buffered"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		m := modelOf(a[0], "bufio")
		v := VarB(st.fresh("buffered"), big0, bi(1<<30))
		st.facts.assumeGe0(Sub(v, st.obj(m.obj).x["avail"].(*Lin)))
		return one(st, v)
	})
	intrinsics["(*bufio.Reader).Peek"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		m := modelOf(a[0], "bufio")
		n := st.asLin(a[1])
		bt := types.NewSlice(byteType)
		if !st.decide(BGe(n)) {
			return one(st, st.zero(bt), bufErr("ErrNegativeCount"))
		}
		size := st.obj(m.obj).x["size"].(*Lin)
		if !st.decide(BGe(Sub(size, n))) {
			f := st.clone()
			e := in.readFail(f, m, pos)
			st.wobj(m.obj).x["avail"] = size
			return []Outcome{{st: st, vals: []Val{st.newBytes([]Seg{segJunk(size)}, size), bufErr("ErrBufferFull")}},
				{st: f, vals: []Val{f.zero(bt), e}}}
		}
		if st.decide(BEq(n)) {
			return one(st, st.newBytes(nil, K(0)), Nil{errorType})
		}
		q := in.ahead(st, m, n)
		var outs []Outcome
		if !in.has(st, m, n) {
			f := st.clone()
			e := in.readFail(f, m, pos)
			outs = append(outs, Outcome{st: f, vals: []Val{f.zero(bt), e}})
			st.wobj(m.obj).x["avail"] = n
		}
		return append(outs, Outcome{st: st, vals: []Val{st.newBytes(q, n), Nil{errorType}}})
	})
	discard := func(wide bool) func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		return func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			m := modelOf(a[0], "bufio")
			n := st.asLin(a[1])
			if !st.decide(BGe(n)) {
				return one(st, K(0), bufErr("ErrNegativeCount"))
			}
			var outs []Outcome
			if !in.has(st, m, n) {
				f := st.clone()
				e := in.readFail(f, m, pos)
				outs = append(outs, Outcome{st: f, vals: []Val{VarB(f.fresh("discarded"), big0, maxLen), e}})
			}
			in.advance(st, m, n, pos)
			return append(outs, Outcome{st: st, vals: []Val{n, Nil{errorType}}})
		}
	}
	intrinsics["(*bufio.Reader).Discard"] = pure(discard(false))
	intrinsics["io.CopyN"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		if s, ok := a[0].(SymV); !ok || s.name != "!io.Discard" {
			undec("io.CopyN to %s", valStr(a[0]))
		}
		return discard(true)(in, st, []Val{modelOf(a[1], "bufio"), a[2]}, pos)
	})
	full := func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		m := modelOf(a[0], "bufio")
		b := st.sliceArg(a[1], types.NewSlice(byteType))
		var outs []Outcome
		if !in.has(st, m, b.len) {
			f := st.clone()
			e := in.readFail(f, m, pos)
			outs = append(outs, Outcome{st: f, vals: []Val{VarB(f.fresh("read"), big0, maxLen), e}})
		}
		if st.decide(BEq(b.len)) {
			return one(st, K(0), Nil{errorType})
		}
		q := in.ahead(st, m, b.len)
		in.advance(st, m, b.len, pos)
		st.writeObj(b.obj, b.off, q)
		return append(outs, Outcome{st: st, vals: []Val{b.len, Nil{errorType}}})
	}
	intrinsics["io.ReadFull"] = pure(full)
	intrinsics["io.ReadAtLeast"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		b := st.sliceArg(a[1], types.NewSlice(byteType))
		if !st.linEq(b.len, st.asLin(a[2])) {
			undec("io.ReadAtLeast")
		}
		return full(in, st, a, pos)
	})
	intrinsics["(*bufio.Reader).ReadByte"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		m := modelOf(a[0], "bufio")
		f := st.clone()
		e := in.readFail(f, m, pos)
		q := in.ahead(st, m, K(1))
		in.advance(st, m, K(1), pos)
		s := st.newBytes(q, K(1))
		return []Outcome{{st: st, vals: []Val{in.load(st, in.indexAddr(st, s, K(0), types.NewPointer(byteType))), Nil{errorType}}}, {st: f, vals: []Val{K(0), e}}}
	})
	intrinsics["(*bufio.Reader).Read"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		undec("a read of unknown length at %s", in.pos(pos))
		return nil
	})
}

// ---- protobuf messages ----

type ptag struct {
	i    int
	no   int64
	wire string
	opt  string // opt, req, rep
}

func protoTags(t types.Type) []ptag {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		undec("message %s", t)
	}
	var r []ptag
	for i := 0; i < s.NumFields(); i++ {
		p := strings.Split(reflect.StructTag(s.Tag(i)).Get("protobuf"), ",")
		if len(p) < 3 {
			continue
		}
		x := ptag{i: i, wire: p[0], opt: p[2]}
		fmt.Sscan(p[1], &x.no)
		r = append(r, x)
	}
	return r
}

func msgPtr(v Val) (Ptr, types.Type) {
	p, ok := unwrapIface(v).(Ptr)
	if !ok {
		undec("message %s", valStr(v))
	}
	return p, p.typ.Underlying().(*types.Pointer).Elem()
}

func varintLit(n uint64) []Seg {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return []Seg{segLit(string(append(b, byte(n))))}
}

// marshal encodes a message whose shape is known.
func (in *Interp) marshal(st *State, v Val) []Seg {
	p, t := msgPtr(v)
	if b, k := st.evalB(p.nilq); !k || b {
		undec("marshalling of a message that may be nil")
	}
	s, ok := in.load(st, p).(Struct)
	if !ok {
		undec("marshalling of %s", valStr(v))
	}
	lenOf := func(q []Seg) []Seg {
		n := seqLen(q)
		c := st.facts.constOf(n)
		if c == nil {
			undec("marshalling of a field of unknown length")
		}
		return varintLit(c.Uint64())
	}
	var out []Seg
	for _, pt := range protoTags(t) {
		f := s.f[pt.i]
		emit := func(x Val) {
			switch pt.wire {
			case "varint":
				var l *Lin
				switch y := x.(type) {
				case Bool:
					l = K(0)
					if st.decide(y) {
						l = K(1)
					}
				case *Lin:
					l = y
				default:
					undec("marshalling of %s", valStr(x))
				}
				c := st.facts.constOf(l)
				if c == nil {
					undec("marshalling of an unknown number")
				}
				out = append(out, varintLit(uint64(pt.no<<3))...)
				out = append(out, varintLit(uint64(c.Int64()))...)
			case "bytes":
				var q []Seg
				if y, ok := x.(Ptr); ok {
					q = in.marshal(st, y)
				} else {
					q = st.strVal(x)
				}
				out = append(out, varintLit(uint64(pt.no<<3|2))...)
				out = append(out, lenOf(q)...)
				out = append(out, q...)
			default:
				undec("marshalling of wire type %s", pt.wire)
			}
		}
		if pt.opt == "rep" {
			if _, ok := f.(Nil); ok {
				continue
			}
			sl := f.(Slice)
			c := st.facts.constOf(sl.len)
			if c == nil || c.Int64() > 16 {
				undec("marshalling of a repeated field of unknown length")
			}
			for i := int64(0); i < c.Int64(); i++ {
				emit(in.load(st, in.indexAddr(st, sl, K(i), types.NewPointer(sl.elem))))
			}
			continue
		}
		switch y := f.(type) {
		case Nil:
		case Ptr:
			if st.decide(y.nilq) {
				continue
			}
			if _, ok := y.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				emit(y)
			} else {
				emit(in.load(st, y))
			}
		case Slice:
			if !st.decide(y.nilq) {
				emit(y)
			}
		default:
			undec("marshalling of field %s", valStr(f))
		}
	}
	return out
}

func init() {
	for _, pk := range []string{"github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		intrinsics[pk+".Unmarshal"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			p, t := msgPtr(a[1])
			q := st.compact(st.content(st.sliceArg(a[0], types.NewSlice(byteType))))
			bad := st.clone()
			be := SymV{name: bad.fresh("!io:unmarshal"), typ: errorType}
			bad.ghost["neterr"] = be
			bad.event("badmsg", be).pos = in.pos(pos)
			in.store(bad, p, bad.zero(t))
			outs := []Outcome{{st: bad, vals: []Val{be}}}
			// a message cannot start with field number 0
			if len(q) > 0 && (q[0].k == SByte || q[0].k == SLit) {
				if s, ok := st.litOf(q[:1]); ok && len(s) > 0 && s[0] < 8 {
					return outs
				}
				if q[0].k == SByte {
					if c := st.facts.constOf(st.asLin(q[0].v)); c != nil && c.Int64() < 8 {
						return outs
					}
				}
			}
			name := ""
			if len(q) == 1 && q[0].k == SSrc && strings.HasSuffix(q[0].sym.name, ".body") && st.isZero(q[0].off) && st.linEq(q[0].n, q[0].sym.n) {
				name = "msg(" + q[0].sym.name + ")"
			} else if len(q) == 0 || st.isZero(seqLen(q)) {
				for _, pt := range protoTags(t) {
					if pt.opt == "req" {
						return outs
					}
				}
				in.store(st, p, st.zero(t))
				return append(outs, Outcome{st: st, vals: []Val{Nil{errorType}}})
			} else {
				name = "msg(" + st.fresh("?") + ")"
			}
			s := st.zero(t).(Struct)
			s.f = append([]Val{}, s.f...)
			for _, pt := range protoTags(t) {
				fn := fmt.Sprintf("%s.%d", name, pt.no)
				v := st.symVal(t.Underlying().(*types.Struct).Field(pt.i).Type(), fn)
				if pt.opt == "req" {
					st.assumeB(st.nilTest(v), false)
				}
				s.f[pt.i] = v
			}
			in.store(st, p, s)
			st.event("goodmsg", mkStr(name)).pos = in.pos(pos)
			return append(outs, Outcome{st: st, vals: []Val{Nil{errorType}}})
		})
		intrinsics[pk+".Size"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			return one(st, seqLen(in.marshal(st, a[0])))
		})
		intrinsics[pk+".Marshal"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			f := st.clone()
			q := in.marshal(st, a[0])
			return []Outcome{{st: st, vals: []Val{st.newBytes(q, seqLen(q)), Nil{errorType}}}, {st: f, vals: []Val{f.zero(types.NewSlice(byteType)), f.newErr("marshal")}}}
		})
		intrinsics[pk+".NewBuffer"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			id := st.newObj(&Obj{kind: "pbuf", x: map[string]Val{"b": st.sliceArg(a[0], types.NewSlice(byteType))}})
			return one(st, Model{kind: "pbuf", obj: id})
		})
		intrinsics["(*"+pk+".Buffer).Bytes"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			return one(st, st.obj(modelOf(a[0], "pbuf").obj).x["b"])
		})
		intrinsics["(*"+pk+".Buffer).Marshal"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			f := st.clone()
			m := modelOf(a[0], "pbuf")
			q := in.marshal(st, a[1])
			n := st.appendTo(st.obj(m.obj).x["b"].(Slice), q, seqLen(q))
			st.wobj(m.obj).x["b"] = n
			return []Outcome{{st: st, vals: []Val{Nil{errorType}}}, {st: f, vals: []Val{f.newErr("marshal")}}}
		})
	}
	am := modPath + "/netx/connector/authentication."
	auth := func(ev string, typ int64) func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		return func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
			st = st.clone()
			n := st.fresh("auth")
			y := mkSym(n+".rest", lenVar(n), nil)
			q := []Seg{segSrc(mkSym(n+".head", K(4), nil), K(0), K(4)), segByte(K(typ)), segSrc(y, K(0), y.n)}
			args := []Val{r, Str{q}}
			if len(a) > 2 {
				if s, ok := a[2].(Slice); ok {
					args = append(args, Str{st.content(s)})
				} else {
					args = append(args, a[2])
				}
			}
			st.event(ev, append(args, a[1])...).pos = in.pos(pos)
			return one(st, st.newBytes(q, seqLen(q)))
		}
	}
	invokeModels["("+am+"Starter).Start"] = auth("start", 4)
	invokeModels["("+am+"StartContinuer).Start"] = auth("start", 4)
	invokeModels["("+am+"StartContinuer).Continue"] = auth("continue", 5)
	invokeModels["("+am+"Continuer).Continue"] = auth("continue", 5)
}

func init() {
	intrinsics["xtadrv/rt.Net"] = pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
		k, ok := st.litOf(a[0].(Str).seq)
		if !ok {
			var outs []Outcome
			for _, k := range sortedKeys(netKinds) {
				s := st.clone()
				outs = append(outs, Outcome{st: s, vals: []Val{in.newConn(s, k, nil)}})
			}
			return outs
		}
		return one(st, in.newConn(st, k, nil))
	})
}
