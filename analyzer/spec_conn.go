package main

// C13, C16, C18, C19: sending, authenticating, connecting.

import (
	"fmt"
	"go/types"
)

// exchange is what happened from one write to the next.
type exchange struct {
	write *Event
	conn  Val
	typ   int64 // message type, -1 unknown
	seq   []Seg
	term  *Event // the final message of the response
	class string // ok, error, challenge, none
	name  string
	fails []*Event // writefail, readfail, ...
	evs   []*Event
}

func msgType(st *State, q []Seg) int64 {
	r := int64(-1)
	try(func() {
		_, rest := st.cut(q, K(4))
		b, _ := st.takeByte(rest)
		if c := st.facts.constOf(b); c != nil {
			r = c.Int64()
		}
	})
	return r
}

// exchanges splits a path into its exchanges; pre is what happened before the first write.
func exchanges(st *State, evs []*Event) (pre []*Event, xs []*exchange) {
	var cur *exchange
	for _, e := range evs {
		switch e.name {
		case "write":
			cur = &exchange{write: e, conn: e.args[0], class: "none", seq: e.args[1].(Str).seq}
			cur.typ = msgType(st, cur.seq)
			xs = append(xs, cur)
			continue
		}
		if cur == nil {
			pre = append(pre, e)
			continue
		}
		cur.evs = append(cur.evs, e)
		switch e.name {
		case "frame":
			if cl := litArg(st, e, 1); cl != "other" && cur.term == nil {
				cur.term, cur.class, cur.name = e, cl, litArg(st, e, 2)
			}
		case "writefail", "readfail", "deadlinefail", "badmsg", "misaligned", "handshakefail":
			cur.fails = append(cur.fails, e)
		}
	}
	return
}

func failArg(e *Event) Val {
	if e.name == "badmsg" {
		return e.args[0]
	}
	if len(e.args) > 1 {
		return e.args[1]
	}
	return nil
}

// isErr: e is the error f, or wraps it.
func (in *Interp) isErr(st *State, e, f Val) bool {
	x, ok := f.(SymV)
	return ok && in.wraps(st, e, x.name)
}

func nonNil(in *Interp, st *State, names ...string) {
	for _, n := range names {
		st.assumeB(st.nilTest(SymV{name: n}), false)
	}
}

// ---- C16 ----

func (c *Ctx) connAuth() {
	r := c.drive("ConnAuth", func(in *Interp, st *State) { nonNil(in, st, "ctx", "cr", "a") })
	wh := "Authenticate"
	seen := map[string]bool{}
	c.eachOutcome(r, wh, func(o *Outcome, res *Event, evs []*Event) {
		st, in := o.st, r.in
		bad := func(cond bool, rule, f string, a ...interface{}) {
			c.ok(cond, wh, rule, f, a...)
			c.pathOf(st)
		}
		kind, ev := in.errKind(st, res.args[1])
		_, xs := exchanges(st, evs)
		var starts, conts []*Event
		var fail *Event
		for _, e := range evs {
			switch e.name {
			case "start":
				starts = append(starts, e)
			case "continue":
				conts = append(conts, e)
			case "writefail", "readfail", "deadlinefail", "badmsg":
				fail = e
			case "misaligned":
				bad(kind == "conn", "a malformed answer makes authentication fail", "result %s", kind)
			}
		}
		bad(len(starts) == 1, "authentication starts once", "%d starts", len(starts))
		bad(len(conts) <= 1, "a challenge is answered exactly once", "%d continuations", len(conts))
		if len(xs) > 0 && len(starts) > 0 {
			bad(st.sameSeq(xs[0].seq, starts[0].args[1].(Str).seq), "the mechanism's message is what is sent", "something else is written")
			bad(sameVal(st, starts[0].args[len(starts[0].args)-1], SymV{name: "cr"}) || valKey(starts[0].args[len(starts[0].args)-1]) == valKey(symParam(starts[0], "cr")), "the caller's credentials are used", "%s is used", valStr(starts[0].args[len(starts[0].args)-1]))
		}
		bad(len(xs) <= 2, "at most two authentication messages are sent", "%d messages", len(xs))
		if len(conts) == 1 {
			ok := len(xs) >= 1 && xs[0].class == "challenge"
			bad(ok, "a continuation answers a challenge", "a continuation is computed without a challenge")
			if ok {
				want := st.symVal(types.NewSlice(byteType), "msg("+xs[0].name+".body).1").(Slice)
				got, isStr := conts[0].args[2].(Str)
				same := isStr && st.sameSeq(got.seq, st.content(want))
				if !same && isStr && st.isZero(seqLen(got.seq)) {
					same = st.isZero(want.len)
				}
				bad(same, "the continuation is computed from that challenge", "%s is used", valStr(conts[0].args[2]))
			}
			if len(xs) == 2 {
				bad(st.sameSeq(xs[1].seq, conts[0].args[1].(Str).seq), "the continuation is what is sent", "something else is written")
			}
		}
		bad(len(xs) < 2 || len(conts) == 1, "a challenge is answered with the mechanism's continuation", "a second message without one")
		if len(xs) == 0 {
			bad(kind == "conn" && fail != nil && in.isErr(st, res.args[1], failArg(fail)), "an I/O error makes authentication fail with that error", "result %s", kind)
			return
		}
		last := xs[len(xs)-1]
		seen[last.class] = true
		if fail != nil {
			bad(kind == "conn" && in.isErr(st, res.args[1], failArg(fail)), "an I/O error makes authentication fail with that error", "result %s after %s", kind, fail.name)
			return
		}
		switch last.class {
		case "ok":
			bad(kind == "nil", "an accepted authentication succeeds", "result %s", kind)
		case "error":
			bad(kind == "server", "a server error makes authentication fail with that error", "result %s", kind)
			if kind == "server" {
				er := in.serverError(st, ev, "msg("+last.name+".body)", func(*State, bool) error { return nil })
				bad(er == nil, "a server error makes authentication fail with that error", "%v", er)
			}
		case "challenge":
			if len(xs) == 1 {
				can := BAtom("impl:a|" + modPath + "/netx/connector/authentication.StartContinuer")
				v, k := st.evalB(can)
				bad(k && !v, "a challenge is answered if the mechanism can", "the challenge is not answered")
			}
			bad(kind == "conn" || kind == "challenge", "an unanswerable or second challenge makes authentication fail", "result %s", kind)
		default:
			bad(kind == "conn", "without the server's acceptance authentication fails", "result %s", kind)
		}
	})
	for _, k := range []string{"ok", "error", "challenge"} {
		c.ok(seen[k], wh, "every kind of answer is examined", "no path with answer %s", k)
	}
}

func symParam(e *Event, name string) Val {
	if s, ok := e.args[len(e.args)-1].(SymV); ok && s.name == name {
		return s
	}
	return SymV{name: name}
}

// ---- C18, C19 ----

func mentions(q []Seg, name string) bool {
	for _, s := range q {
		if s.k == SSrc && s.sym.name == name {
			return true
		}
	}
	return false
}

func sameModel(a, b Val) bool {
	x, ok := unwrapIface(a).(Model)
	y, ok2 := unwrapIface(b).(Model)
	return ok && ok2 && x.obj == y.obj
}

func (c *Ctx) connect(prop, kind string) {
	r := c.drive("Connect", func(in *Interp, st *State) {
		nonNil(in, st, "ctx", "a")
		in.opts["merge"] = true
		in.opts["net:"+kind] = true
	})
	in := r.in
	cases := map[string]int{}
	wh := "connecting over " + kind
	c.eachOutcome(r, wh, func(o *Outcome, res *Event, evs []*Event) {
		st := o.st
		bad := func(cond bool, rule, f string, a ...interface{}) {
			c.ok(cond, wh, rule, f, a...)
			c.pathOf(st)
		}
		ek, _ := in.errKind(st, res.args[1])
		var dial, tlsc *Event
		closed := 0
		for _, e := range evs {
			switch e.name {
			case "dial":
				if dial != nil {
					bad(false, "one connection is dialled", "a second one is")
				}
				dial = e
			case "tlsclient":
				tlsc = e
			case "connclose":
				if dial != nil && (sameModel(e.args[0], dial.args[0]) || tlsc != nil && sameModel(e.args[0], tlsc.args[0])) {
					closed++
				}
			}
		}
		rc := res.args[0]
		isNilC := in.knownNil(st, rc)
		if dial == nil {
			if prop == "C19" {
				bad(ek == "conn" && isNilC, "a failed dial is an error", "result %s", ek)
			}
			return
		}
		if prop == "C19" {
			switch ek {
			case "nil":
				bad(!isNilC && in.knownNonNil(st, rc), "a successful attempt returns a connection", "returns %s", valStr(rc))
				bad(closed == 0, "a returned connection is open", "it has been closed")
				_, xs := exchanges(st, evs)
				ok := len(xs) > 0 && (xs[len(xs)-1].typ == 4 || xs[len(xs)-1].typ == 5) && xs[len(xs)-1].class == "ok" && len(xs[len(xs)-1].fails) == 0
				bad(ok, "a returned connection is authenticated", "the server did not accept the last message sent")
				for _, m := range connsIn(in, st, rc) {
					want := dial.args[0]
					if tlsc != nil {
						want = tlsc.args[0]
					}
					bad(sameModel(m, want), "the returned connection is the one established", "it uses another network connection")
				}
				cases["success"]++
			case "unknown":
				bad(false, "every path has a decided error", "error %s", valStr(res.args[1]))
			default:
				bad(closed > 0, "a failed attempt closes the network connection", "it is left open")
				_, isN := rc.(Nil)
				bad(isN, "a failed attempt returns no connection", "returns %s", valStr(rc))
				cases["failure"]++
			}
			return
		}
		// C18
		cfg := st.symVal(in.namedPtr("crypto/tls", "Config"), "cfg").(Ptr)
		nilv, known := st.evalB(cfg.nilq)
		need := false
		if kind == "tcp" {
			if !known {
				bad(false, "requested TLS is never skipped", "the TLS configuration is not considered")
				return
			}
			need = !nilv
		}
		shaken := false
		var lastConn Val
		var last *Event // final message of the previous exchange
		for _, e := range evs {
			switch e.name {
			case "tlsclient":
				bad(sameVal(st, e.args[1], cfg), "TLS uses the caller's configuration", "%s is used", valStr(e.args[1]))
			case "handshake":
				shaken = true
			case "write":
				q := e.args[1].(Str).seq
				t := msgType(st, q)
				if need {
					if shaken {
						bad(connKind(st, e.args[0]) == "tls", "after the handshake everything is written to the TLS channel", "a message is written beside it")
					} else {
						bad(t == 2, "no authentication message is written before the TLS handshake succeeded", "a message of type %d is", t)
					}
				}
				if mentions(q, "pass") {
					k := connKind(st, e.args[0])
					bad(k == "unix" || k == "tls" && shaken, "the clear-text password is only sent over TLS or a Unix socket", "it is sent over %s", k)
					bad(last != nil && litArg(st, last, 1) == "error", "the clear-text password is only sent after the server denied access", "it is sent without a server error")
					if last != nil {
						code := st.symVal(types.NewPointer(types.Typ[types.Uint32]), "msg("+litArg(st, last, 2)+".body).2").(Ptr)
						code.nilq = BConst(false)
						cv := st.facts.constOf(st.asLin(in.load(st, code)))
						bad(cv != nil && cv.Int64() == 1045, "the clear-text password is only sent after the server denied access", "the server's error code %s is not access denied (%s)", valStr(in.load(st, code)), valStr(res.args[1]))
					}
					cases["fallback"]++
				}
				lastConn = e.args[0]
			case "frame", "readfail", "misaligned":
				bad(lastConn != nil && sameModel(e.args[0], lastConn), "answers are read from the channel the message was written to", "reading from another connection")
				if e.name == "frame" && litArg(st, e, 1) != "other" {
					last = e
				}
				if need && shaken {
					bad(connKind(st, e.args[0]) == "tls", "after the handshake everything is read from the TLS channel", "bytes from before the handshake are read")
				}
			}
			if e.star != nil {
				for _, a := range e.star.alts {
					for _, x := range a.evs {
						if x.name == "frame" || x.name == "readfail" {
							ok := lastConn != nil && sameModel(x.args[0], lastConn)
							bad(ok, "answers are read from the channel the message was written to", "reading from another connection")
						}
					}
				}
			}
		}
		if need && ek == "nil" {
			bad(shaken, "requested TLS is never skipped", "a connection without TLS is returned")
			for _, m := range connsIn(in, st, rc) {
				bad(connKind(st, m) == "tls", "after the handshake all traffic uses the TLS channel", "the returned connection uses the plain one")
			}
			cases["tls"]++
		}
	})
	if prop == "C19" {
		c.ok(cases["success"] > 0 && cases["failure"] > 0, wh, "successful and failing attempts are examined", "%v", cases)
	} else if kind == "tcp" {
		c.ok(cases["tls"] > 0, wh, "attempts with TLS are examined", "%v", cases)
	}
	c.count("clear_text_fallbacks", cases["fallback"])
}

// connsIn: the network connections a connection value uses, its reader's included.
func connsIn(in *Interp, st *State, v Val) []Val {
	var r []Val
	p, ok := unwrapIface(v).(Ptr)
	if !ok {
		return nil
	}
	s, ok := in.load(st, p).(Struct)
	if !ok {
		return nil
	}
	for _, f := range s.f {
		if m, ok := unwrapIface(f).(Model); ok {
			switch m.kind {
			case "netconn":
				r = append(r, m)
			case "bufio":
				r = append(r, st.obj(m.obj).x["under"])
			}
		}
	}
	return r
}

// IsSecure holds exactly for TLS and Unix sockets.
func (c *Ctx) secure() {
	r := c.drive("ConnSecure", nil)
	n := 0
	for i := range r.outs {
		st := r.outs[i].st
		kind := ""
		for _, o := range st.heap {
			if o.kind == "netconn" {
				kind, _ = st.litOf(o.x["kind"].(Str).seq)
			}
		}
		for _, e := range st.events() {
			if e.name == "secure" {
				b, _ := e.args[0].(Bool)
				v, k := st.evalB(b)
				c.ok(k && v == (kind == "tls" || kind == "unix"), "IsSecure", "only TLS and Unix socket connections count as secure", "%s: %v", kind, v)
				n++
			}
		}
	}
	c.ok(n >= 4, "IsSecure", "every kind of connection is examined", "%d paths", n)
}

func init() {
	netAssume := append(append([]string{}, baseAssume...), "net.Conn, bufio.Reader, crypto/tls and the protobuf library behave as documented; dialling tcp gives a *net.TCPConn and unix a *net.UnixConn; an authentication mechanism's Start and Continue return one message of their type")
	reg := func(id, tech, explain string, min int, jobs func(tier string) []Job) {
		register(&Check{id: id, level: "other", technique: technique + ": " + tech, needWorld: true, min: min, assume: netAssume, explain: explain, jobs: jobs})
	}
	reg("C16", "typestate of the authentication exchange", "Authenticate is interpreted abstractly with an unknown mechanism over an arbitrary stream of server frames and failures. On every path the messages written, the challenge passed to the mechanism and the error returned are compared with the server's final messages.", 1000, func(tier string) []Job {
		return []Job{{"ConnAuth", 5, func(c *Ctx) { c.connAuth() }}}
	})
	kinds := func(prop string) func(tier string) []Job {
		return func(tier string) []Job {
			var js []Job
			for _, k := range []string{"tcp", "unix", "other"} {
				k := k
				js = append(js, Job{"connect-" + k, 5, func(c *Ctx) { c.connect(prop, k) }})
			}
			if prop == "C18" {
				js = append(js, Job{"secure", 1, func(c *Ctx) { c.secure() }})
			}
			return js
		}
	}
	reg("C18", "information flow and typestate of the connection attempt", "The connector's New is interpreted abstractly for TCP, Unix and other connections, with and without TLS configuration, any mechanism, any server frames and a failure at every step. On every path each write and read is attributed to the plain or the TLS channel; authentication messages and password bytes are traced to the writes they reach.", 300, kinds("C18"))
	reg("C19", "typestate and resource analysis of the connection attempt", "The connector's New is interpreted abstractly for TCP, Unix and other connections, with and without TLS configuration, any mechanism, any server frames and a failure at every step. Every failing path closes what was dialled and returns no connection; every succeeding one returns the open connection whose last authentication message the server accepted.", 300, kinds("C19"))
}

var _ = fmt.Sprint
