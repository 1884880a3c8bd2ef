package main

// C17: what the authentication mechanisms put on the wire.

import (
	"go/types"
)

const (
	mAuthStart = "Mysqlx.Session.AuthenticateStart"
	mAuthCont  = "Mysqlx.Session.AuthenticateContinue"
)

type authCase struct {
	driver string
	mech   string // of a start message
	proof  string // "password", "mysql41", "sha256", ""
	ident  bool   // database and user are sent
	noDB   bool   // no database was given
}

var authCases = []authCase{
	{driver: "AuthStartPlain", mech: "PLAIN", ident: true, proof: "password"},
	{driver: "AuthStartPlainConn", mech: "PLAIN", ident: true, proof: "password"},
	{driver: "AuthStartPlainConn2", mech: "PLAIN", ident: true, proof: "password"},
	{driver: "AuthStartPlainNoDB", mech: "PLAIN", ident: true, proof: "password", noDB: true},
	{driver: "AuthStartMysql41", mech: "MYSQL41"},
	{driver: "AuthStartSha256", mech: "SHA256_MEMORY"},
	{driver: "AuthContinueMysql41", ident: true, proof: "mysql41"},
	{driver: "AuthContinueMysql41Conn", ident: true, proof: "mysql41"},
	{driver: "AuthContinueSha256", ident: true, proof: "sha256"},
	{driver: "AuthContinueSha256Conn", ident: true, proof: "sha256"},
}

// byteSum is the sum of the bytes of a string parameter, as segments.
func symSegs(st *State, name string) []Seg {
	n := lenVar(name)
	return st.compact([]Seg{segSrc(mkSym(name, n, nil), K(0), n)})
}

// wantProof compares the bytes after database, NUL, user, NUL.
func wantProof(st *State, proof string, q []Seg) error {
	pass, data := symSegs(st, "pass"), symSegs(st, "data")
	switch proof {
	case "password":
		if !st.sameSeq(q, pass) {
			return merr("the proof is %s instead of the password", clip(seqStr(st.compact(q))))
		}
		return nil
	case "mysql41":
		return bothWays(st, BEq(lenVar("pass")), func(st *State, empty bool) error {
			if empty {
				if len(st.compact(q)) != 0 {
					return merr("an empty password is proved by %s instead of nothing", clip(seqStr(q)))
				}
				return nil
			}
			b, rest := st.takeByte(q)
			if !st.linEq(b, K('*')) {
				return merr("the proof does not start with '*'")
			}
			h1 := digest(st, "sha1", 20, pass)
			h2 := digest(st, "sha1", 20, append(append([]Seg{}, data...), digest(st, "sha1", 20, h1)...))
			return hexXor(st, rest, h1, h2, 20)
		})
	case "sha256":
		h1 := digest(st, "sha256", 32, pass)
		h2 := digest(st, "sha256", 32, append(append([]Seg{}, digest(st, "sha256", 32, h1)...), data...))
		return hexXor(st, q, h1, h2, 32)
	}
	return merr("unknown proof")
}

// hexXor: q is the hexadecimal text of a xor b.
func hexXor(st *State, q []Seg, a, b []Seg, n int) error {
	for i := 0; i < n; i++ {
		x := st.asLin(st.readAt(nil, a, K(int64(i))))
		y := st.asLin(st.readAt(nil, b, K(int64(i))))
		xb, yb := bitsOf(x, 8), bitsOf(y, 8)
		for _, lo := range []int{4, 0} {
			var d *Lin
			d, q = st.takeByte(q)
			bits := make([]Bit, 4)
			for k := range bits {
				bits[k] = xorBit(xb[lo+k], yb[lo+k])
			}
			nib := fromBits(bits, false)
			if !st.linEq(d, tableAtom("0123456789abcdef", nib)) && !st.linEq(d, tableAtom("0123456789ABCDEF", nib)) {
				return merr("hex digit of byte %d is %s", i, clip(d.String()))
			}
		}
	}
	if q = st.compact(q); len(q) != 0 {
		return merr("unexpected bytes after the proof: %s", clip(seqStr(q)))
	}
	return nil
}

// identity: q is database, NUL, user, NUL, proof.
func (ac authCase) identity() FM {
	return func(st *State, f DField) error {
		q := f.seq
		for _, name := range []string{"db", "user"} {
			w := symSegs(st, name)
			if ac.noDB && name == "db" {
				w = nil
			}
			a, rest := st.cut(q, seqLen(w))
			if !st.sameSeq(a, w) {
				return merr("the %s is sent as %s", name, clip(seqStr(st.compact(a))))
			}
			b, rest := st.takeByte(rest)
			if !st.linEq(b, K(0)) {
				return merr("no NUL after the %s", name)
			}
			q = rest
		}
		return wantProof(st, ac.proof, q)
	}
}

func (ac authCase) spec() (string, MSpec) {
	if ac.mech == "" {
		return mAuthCont, MSpec{One(fno(mAuthCont, "auth_data"), ac.identity())}
	}
	s := MSpec{One(fno(mAuthStart, "mech_name"), LitB(ac.mech))}
	if ac.ident {
		return mAuthStart, append(s, One(fno(mAuthStart, "auth_data"), ac.identity()))
	}
	// nothing, or nothing of substance
	return mAuthStart, append(s, OneOr(fno(mAuthStart, "auth_data"), LitB(""), func(*State) bool { return true }))
}

func (c *Ctx) runAuth(ac authCase) {
	r := c.drive(ac.driver, nil)
	n := 0
	for i := range r.outs {
		o := &r.outs[i]
		wh := "mechanism entry " + ac.driver
		if o.panic {
			c.fail(o.st.pan.pos, "building an authentication message never panics", "%s: %s", wh, o.st.pan.msg)
			c.pathOf(o.st)
			continue
		}
		for _, e := range o.st.events() {
			if e.name != "out" {
				continue
			}
			n++
			st := o.st
			err := try(func() {
				d := &Decoder{sc: c.w.schema}
				fs := d.framesOf(st, st.expand(e.seq), true)
				c.Frames += d.frames
				c.Fields += d.fields
				if len(fs) != 1 {
					derr("%d messages instead of one", len(fs))
				}
				name, sp := ac.spec()
				if fs[0].def.name != name {
					derr("the message is a %s instead of a %s", fs[0].def.name, name)
				}
				if e := sp.match(st, fs[0].msg); e != nil {
					derr("%v", e)
				}
			})
			c.ok(err == nil, wh, "mechanism name, identity and proof", "%v", err)
			c.pathOf(st)
			if len(c.Samples) < 3 {
				c.sample(ac.driver + ": " + clip(seqStr(e.seq)))
			}
		}
	}
	c.ok(n > 0, "mechanism entry "+ac.driver, "a message is built", "no path builds a message")
}

func init() {
	register(&Check{id: "C17", level: "other", technique: technique + ": byte-level provenance of authentication messages, digests as uninterpreted functions", needWorld: true, min: 30, assume: baseAssume,
		explain: "Start and Continue of every mechanism are interpreted abstractly for arbitrary scratch buffer (any content, length and capacity), credentials (also as held by the connector) and challenge; every message is parsed symbolically and its bytes compared with database, NUL, user, NUL and the proof, where SHA-1 and SHA-256 are uninterpreted functions of the bytes hashed, XOR is bit-precise and hexadecimal text is a table look-up.",
		jobs: func(tier string) []Job {
			var js []Job
			for _, ac := range authCases {
				ac := ac
				js = append(js, Job{ac.driver, 2, func(c *Ctx) { c.runAuth(ac) }})
			}
			return js
		}})
	// dst[i] = x[i] ^ y[i]
	intrinsics["crypto/subtle.XORBytes"] = simple(func(in *Interp, st *State, a []Val) Val {
		d, x, y := a[0].(Slice), a[1].(Slice), a[2].(Slice)
		n := x.len
		if !st.decide(BGe(Sub(y.len, n))) {
			n = y.len
		}
		k := st.facts.constOf(n)
		if k == nil || k.Int64() > 64 {
			undec("XORBytes of unknown length")
		}
		if !st.decide(BGe(Sub(d.len, n))) {
			panic(goPanic{msg: "subtle.XORBytes: dst too short"})
		}
		p, q := st.content(x), st.content(y)
		var out []Seg
		for i := int64(0); i < k.Int64(); i++ {
			u, v := st.asLin(st.readAt(nil, p, K(i))), st.asLin(st.readAt(nil, q, K(i)))
			ub, vb := bitsOf(u, 8), bitsOf(v, 8)
			bits := make([]Bit, 8)
			for j := range bits {
				bits[j] = xorBit(ub[j], vb[j])
			}
			out = append(out, segByte(fromBits(bits, false)))
		}
		if len(out) > 0 {
			st.writeObj(d.obj, d.off, out)
		}
		return n
	})
	intrinsics["io.WriteString"] = multi(func(in *Interp, st *State, a []Val) []Outcome {
		m, ok := a[0].(Model)
		if !ok || m.kind != "hash" {
			undec("io.WriteString to %s", valStr(a[0]))
		}
		return modelMethods["hash.Write"](in, st, m, a[1:], 0)
	})
	_ = types.Typ
}
