package main

// Decoding of abstract byte sequences as X Protocol frames and protobuf messages.

import (
	"fmt"
	"math/big"
	"strings"
)

type DField struct {
	num  int
	fd   *FieldDef
	lin  *Lin  // raw varint or fixed value
	seq  []Seg // string or bytes content
	msg  *DMsg
	opq  *Opq // one field of unknown content, by contract
	star *DStar
}

type DMsg struct {
	def *MsgDef
	f   []DField
}

type DStar struct {
	s    *Star
	alts []DAlt
}

type DAlt struct {
	st *State
	f  []DField
}

type DFrame struct {
	typ  int
	def  *MsgDef
	body []Seg
	msg  *DMsg
}

type decErr string

func (e decErr) Error() string { return string(e) }

func derr(format string, a ...interface{}) { panic(decErr(fmt.Sprintf(format, a...))) }

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

type Decoder struct {
	sc     *Schema
	fields int // fields decoded, for evidence
	frames int
}

// byteAt takes the first byte off q.
func (st *State) takeByte(q []Seg) (*Lin, []Seg) {
	q = st.compact(q)
	if len(q) == 0 {
		derr("message ends where a byte is expected")
	}
	u, rest, ok := st.headUnit(q)
	if !ok {
		derr("cannot read a byte at %s", clip(seqStr(q)))
	}
	switch x := u.(type) {
	case *Lin:
		return x, rest
	case zeroUnit:
		return K(0), rest
	case junkUnit:
		derr("unspecified (stale or uninitialised) byte at %s", clip(seqStr(q)))
	}
	derr("cannot read a byte at %s", clip(seqStr(q)))
	return nil, nil
}

// takeVarint decodes a varint.
func (st *State) takeVarint(q []Seg) (*Lin, []Seg) {
	q = st.compact(q)
	if len(q) > 0 && q[0].k == SOpq && q[0].o.kind == "varint" && q[0].full() {
		return q[0].o.l, q[1:]
	}
	var bits []Bit
	for i := 0; ; i++ {
		if i >= 10 {
			derr("varint longer than 10 bytes at %s", clip(seqStr(q)))
		}
		b, rest := st.takeByte(q)
		bs := st.bitsVal(b, 8)
		if !bs[7].isConst() {
			derr("continuation bit of a varint byte is not determined: %s", b)
		}
		bits = append(bits, bs[:7]...)
		q = rest
		if bs[7].c == 0 {
			break
		}
	}
	for i := 64; i < len(bits); i++ {
		if !bits[i].isConst() || bits[i].c != 0 {
			derr("varint exceeds 64 bits")
		}
	}
	if len(bits) > 64 {
		bits = bits[:64]
	}
	return mkBV(bits), q
}

func (st *State) takeFixed(q []Seg, n int) (*Lin, []Seg) {
	var bits []Bit
	for i := 0; i < n; i++ {
		var b *Lin
		b, q = st.takeByte(q)
		bits = append(bits, st.bitsVal(b, 8)...)
	}
	return mkBV(bits), q
}

// cut takes the first n bytes, n being a decoded length.
func (st *State) cut(q []Seg, n *Lin) (a, b []Seg) {
	q = st.compact(q)
	cum := K(0)
	for i := 0; i <= len(q); i++ {
		if st.linEq(cum, n) {
			return q[:i:i], q[i:]
		}
		if i < len(q) {
			cum = Add(cum, q[i].n)
		}
	}
	if c := st.facts.constOf(n); c != nil {
		// inside a literal or a run of bytes
		cum := K(0)
		for i, s := range q {
			d := Sub(KB(c), cum)
			y, k := st.evalB(BGe(Sub(d, s.n)))
			if !k {
				break
			}
			if !y {
				if z, k := st.evalB(BGe(AddK(d, -1))); k && z {
					h := append(q[:i:i], st.subSeg(s, K(0), d))
					t := append([]Seg{st.subSeg(s, d, Sub(s.n, d))}, q[i+1:]...)
					return h, t
				}
				break
			}
			cum = Add(cum, s.n)
		}
	}
	derr("length %s does not delimit what follows (%s bytes): %s", clip(n.String()), clip(cum.String()), clip(seqStr(q)))
	return
}

// frames decodes q as complete client frames.
func (d *Decoder) framesOf(st *State, q []Seg, body bool) []DFrame {
	var r []DFrame
	q = st.compact(q)
	for len(q) > 0 {
		if q[0].k == SOpq && q[0].o.kind == "star" {
			derr("repeated frames: %s", clip(seqStr(q)))
		}
		n, rest := st.takeFixed(q, 4)
		full := rest
		t, rest := st.takeByte(rest)
		tc := st.facts.constOf(t)
		if tc == nil {
			derr("message type byte is not a constant: %s", t)
		}
		def := d.sc.client[int(tc.Int64())]
		if def == nil {
			derr("message type %s is not a client message", tc)
		}
		fr, next := st.cut(full, n)
		fr = fr2body(st, fr)
		f := DFrame{typ: int(tc.Int64()), def: def, body: fr}
		if body {
			f.msg = d.message(st, def, fr)
		} else {
			noJunk(st, fr)
		}
		d.frames++
		r = append(r, f)
		q = st.compact(next)
	}
	return r
}

func fr2body(st *State, fr []Seg) []Seg {
	_, b := st.takeByte(fr)
	return b
}

func noJunk(st *State, q []Seg) {
	for _, s := range st.compact(q) {
		if s.k == SJunk {
			derr("unspecified (stale or uninitialised) bytes in a message: %s", clip(seqStr(q)))
		}
		if s.k == SByte {
			if _, ok := s.v.(junkUnit); ok {
				derr("unspecified byte in a message: %s", clip(seqStr(q)))
			}
		}
		if s.k == SOpq && s.o.kind == "star" {
			for _, a := range s.o.star.alts {
				noJunk(a.st, a.segs)
			}
		}
	}
}

// message decodes a message body.
func (d *Decoder) message(st *State, def *MsgDef, q []Seg) *DMsg {
	m := &DMsg{def: def}
	m.f = d.fieldsOf(st, def, q)
	for _, fd := range def.sorted() {
		n, multi := m.count(fd.num)
		if fd.label == "required" && n == 0 {
			derr("required field %s (%d) of %s is missing", fd.name, fd.num, def.name)
		}
		if fd.label != "repeated" && (n > 1 || multi) {
			derr("field %s (%d) of %s occurs more than once", fd.name, fd.num, def.name)
		}
	}
	return m
}

func (m *DMsg) count(num int) (n int, multi bool) {
	for _, f := range m.f {
		if f.star != nil {
			for _, a := range f.star.alts {
				for _, g := range a.f {
					if g.num == num {
						multi = true
					}
				}
			}
			continue
		}
		if f.num == num {
			n++
		}
	}
	return
}

func opqKind(o *Opq) string {
	if i := strings.Index(o.enc, ":"); i > 0 {
		switch o.enc[:i] {
		case "any":
			return "Mysqlx.Datatypes.Any"
		case "expr":
			return "Mysqlx.Expr.Expr"
		case "user":
			if strings.HasPrefix(o.enc, "user:AppendAny:") {
				return "Mysqlx.Datatypes.Any"
			}
			return "Mysqlx.Expr.Expr"
		}
	}
	return ""
}

func (d *Decoder) fieldsOf(st *State, def *MsgDef, q []Seg) []DField {
	var r []DField
	q = st.compact(q)
	for len(q) > 0 {
		if s := q[0]; s.k == SOpq && (s.o.kind == "field" || s.o.kind == "star") {
			if !s.full() {
				derr("part of an encoded value: %s", clip(seqStr(q)))
			}
			d.fields++
			if s.o.kind == "field" {
				fd := def.fields[s.o.tag]
				if fd == nil {
					derr("%s has no field %d", def.name, s.o.tag)
				}
				if fd.msg == nil || fd.msg.name != opqKind(s.o) {
					derr("field %d of %s is a %s, encoded as %s by %s", s.o.tag, def.name, fd.typ, opqKind(s.o), s.o.enc)
				}
				r = append(r, DField{num: s.o.tag, fd: fd, opq: s.o})
			} else {
				ds := &DStar{s: s.o.star}
				for _, a := range s.o.star.alts {
					ds.alts = append(ds.alts, DAlt{st: a.st, f: d.fieldsOf(a.st, def, a.segs)})
				}
				r = append(r, DField{star: ds})
			}
			q = st.compact(q[1:])
			continue
		}
		key, rest := st.takeVarint(q)
		kc := st.facts.constOf(key)
		if kc == nil {
			derr("field key is not a constant: %s", key)
		}
		num, wt := int(kc.Int64()>>3), int(kc.Int64()&7)
		fd := def.fields[num]
		if fd == nil {
			derr("%s has no field %d: %s", def.name, num, clip(seqStr(q)))
		}
		if fd.wire() != wt {
			derr("field %s (%d) of %s encoded with wire type %d instead of %d", fd.name, num, def.name, wt, fd.wire())
		}
		f := DField{num: num, fd: fd}
		switch wt {
		case 0:
			f.lin, rest = st.takeVarint(rest)
			if fd.enum != nil {
				d.enumOK(st, fd, f.lin)
			}
			if fd.typ == "bool" {
				if y, k := st.evalB(BGe(Sub(K(1), f.lin))); !k || !y {
					derr("bool field %s of %s is %s", fd.name, def.name, f.lin)
				}
			}
			if fd.typ == "uint32" || fd.typ == "int32" {
				if y, k := st.evalB(BGe(Sub(KB(pow2(32)), AddK(f.lin, 1)))); !k || !y {
					derr("32 bit field %s of %s is %s", fd.name, def.name, f.lin)
				}
			}
		case 1:
			f.lin, rest = st.takeFixed(rest, 8)
		case 5:
			f.lin, rest = st.takeFixed(rest, 4)
		case 2:
			var n *Lin
			n, rest = st.takeVarint(rest)
			var c []Seg
			c, rest = st.cut(rest, n)
			if fd.msg != nil {
				f.msg = d.message(st, fd.msg, c)
			} else {
				noJunk(st, c)
				f.seq = c
			}
		default:
			derr("unsupported wire type %d", wt)
		}
		d.fields++
		r = append(r, f)
		q = st.compact(rest)
	}
	return r
}

func (d *Decoder) enumOK(st *State, fd *FieldDef, l *Lin) {
	if c := st.facts.constOf(l); c != nil {
		if !c.IsInt64() || !fd.enum.defined(c.Int64()) {
			derr("%s is not a value of enum %s (field %s)", c, fd.enum.name, fd.name)
		}
		return
	}
	iv := st.facts.bound(l)
	if iv.lo != nil && iv.hi != nil && new(big.Int).Sub(iv.hi, iv.lo).Cmp(bi(64)) <= 0 {
		for v := iv.lo.Int64(); v <= iv.hi.Int64(); v++ {
			if !fd.enum.defined(v) {
				derr("field %s may be %d, not a value of enum %s", fd.name, v, fd.enum.name)
			}
		}
		return
	}
	derr("field %s is %s, not known to be a value of enum %s", fd.name, l, fd.enum.name)
}

// try runs f, reporting a decoding error.
func try(f func()) (err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case decErr:
			err = r
		case undecided:
			err = r
		default:
			panic(r)
		}
	}()
	f()
	return nil
}
