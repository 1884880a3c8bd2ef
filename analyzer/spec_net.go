package main

// C13 - C16, C18, C19: connections.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const connPkg = modPath + "/netx/connection"
const connectorPkg = modPath + "/netx/connector"

// errKind classifies an error: nil, server (reported by the server), challenge, conn (anything else).
func (in *Interp) errKind(st *State, e Val) (string, Val) {
	if in.knownNil(st, e) {
		return "nil", nil
	}
	for _, k := range [][2]string{{"MySqlXError", "server"}, {"ErrRequireAuthenticateContinue", "challenge"}} {
		t := in.namedPtr(connPkg, k[0])
		if v, ok := in.errAs(st.clone(), e, t); ok {
			return k[1], v
		}
		if v, ok := in.errAs(st.clone(), e, t.(*types.Pointer).Elem()); ok {
			return k[1], v
		}
	}
	if !in.knownNonNil(st, e) {
		return "unknown", nil
	}
	return "conn", nil
}

// fieldOf loads a field of a struct value or of what a pointer points to.
func (in *Interp) fieldOf(st *State, v Val, name string) Val {
	if p, ok := v.(Ptr); ok {
		v = in.load(st, p)
	}
	s, ok := v.(Struct)
	if !ok {
		return nil
	}
	u := s.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.f[i]
		}
	}
	return nil
}

func readers(st *State) []*Obj {
	var ids []int
	for id, o := range st.heap {
		if o.kind == "bufio" {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var r []*Obj
	for _, id := range ids {
		r = append(r, st.heap[id])
	}
	return r
}

func truth(v Val) bool { b, _ := v.(Bool); return b.op == 0 && b.v }

func litArg(st *State, e *Event, i int) string {
	if i >= len(e.args) {
		return ""
	}
	s, ok := e.args[i].(Str)
	if !ok {
		return ""
	}
	l, _ := st.litOf(s.seq)
	return l
}

func lastResult(evs []*Event) (*Event, []*Event) {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].name == "result" {
			return evs[i], evs[:i]
		}
	}
	return nil, evs
}

func (c *Ctx) eachOutcome(r *Run, wh string, f func(o *Outcome, res *Event, evs []*Event)) {
	n := 0
	for i := range r.outs {
		o := &r.outs[i]
		if o.panic {
			c.fail(o.st.pan.pos, "no sequence of server bytes or failures makes the connection panic", "%s: %s", wh, o.st.pan.msg)
			c.pathOf(o.st)
			continue
		}
		res, evs := lastResult(o.st.events())
		if res == nil {
			c.fail(wh, "every path ends with a result", "no result")
			continue
		}
		n++
		f(o, res, evs)
	}
	c.ok(n > 0, wh, "paths are examined", "no path returns")
}

// ---- C14, C15 ----

func (c *Ctx) connRead(prop string) {
	r := c.drive("ConnRead", nil)
	c.eachOutcome(r, "Read", func(o *Outcome, res *Event, evs []*Event) {
		if prop == "C14" {
			c.aligned(r.in, o, res, evs, "Read")
		} else {
			c.outcomeOf(r.in, o.st, o.st.symVal(types.Typ[types.Int32], "ct").(*Lin), evs, res.args[0], res.args[1], "Read", false)
		}
	})
}

// aligned checks C14 on one path.
func (c *Ctx) aligned(in *Interp, o *Outcome, res *Event, evs []*Event, wh string) {
	st := o.st
	kind, _ := in.errKind(st, res.args[1])
	rs := readers(st)
	if len(rs) != 1 {
		c.fail(wh, "one reader per connection", "%d readers", len(rs))
		return
	}
	x := rs[0].x
	mis, failed := truth(x["mis"]), truth(x["fail"])
	cur, _ := st.litOf(x["cur"].(Str).seq)
	off := x["off"].(*Lin)
	at := cur == "" || st.isZero(off)
	switch kind {
	case "nil", "server", "challenge":
		c.ok(!failed, wh, "a stream that ends or fails early produces an error", "reading failed but the result is %s", kind)
		c.pathOf(st)
		c.ok(failed || !mis, wh, "a response ends at a frame boundary", "bytes after the frame were consumed")
		c.pathOf(st)
		c.ok(failed || mis || at, wh, "a response ends at a frame boundary", "%s of the last frame's bytes are consumed", clip(off.String()))
		c.pathOf(st)
	default:
		c.ok(kind == "conn", wh, "every path has a decided error", "error %s", valStr(res.args[1]))
		c.pathOf(st)
	}
	for _, e := range evs {
		if e.name == "frame" && litArg(st, e, 1) == "empty" {
			c.ok(kind == "conn", wh, "a malformed length is an error", "result %s", kind)
			c.pathOf(st)
		}
	}
	c.progress(evs, wh)
}

// progress: every iteration of a reading loop consumes a whole frame and leaves the reader at a boundary.
func (c *Ctx) progress(evs []*Event, wh string) {
	for _, e := range evs {
		if e.star == nil {
			continue
		}
		for _, a := range e.star.alts {
			n, reads := 0, false
			for _, x := range a.evs {
				switch {
				case x.name == "frame" && litArg(a.st, x, 1) != "empty":
					n++
				case x.star != nil:
					reads = true
				case x.name == "frame" || x.name == "misaligned" || x.name == "readfail":
					c.fail(wh, "reading goes on only at a frame boundary", "%s and reading continues", x.name)
					c.pathOf(a.st)
				}
			}
			rs := readers(a.st)
			if len(rs) != 1 {
				continue
			}
			x := rs[0].x
			cur, _ := a.st.litOf(x["cur"].(Str).seq)
			if reads || n > 0 || cur != "" {
				c.ok(n > 0, wh, "reading never goes on without consuming a frame", "an iteration consumes no frame")
				c.pathOf(a.st)
				c.ok(cur == "" && !truth(x["mis"]) && !truth(x["fail"]), wh, "each frame is consumed whole before the next is read", "the next frame is read from the middle of this one")
				c.pathOf(a.st)
			} else {
				c.ok(false, wh, "reading never goes on without consuming a frame", "an iteration consumes no frame")
				c.pathOf(a.st)
			}
		}
	}
}

// outcomeOf checks C15 on the events of one response.
func (c *Ctx) outcomeOf(in *Interp, st *State, ct *Lin, evs []*Event, r, err Val, wh string, quiet bool) {
	bad := func(cond bool, rule, f string, a ...interface{}) {
		c.ok(cond, wh, rule, f, a...)
		c.pathOf(st)
	}
	kind, ev := in.errKind(st, err)
	var last *Event
	badmsg, readfail := false, false
	var walk func(evs []*Event, st *State, top bool)
	walk = func(evs []*Event, s *State, top bool) {
		for _, e := range evs {
			switch e.name {
			case "frame":
				cl := litArg(s, e, 1)
				if !top {
					c.ok(cl == "other", wh, "a final message ends the response", "after a message of class %s reading goes on", cl)
					c.pathOf(s)
					continue
				}
				if last != nil {
					bad(litArg(s, last, 1) == "other", "a final message ends the response", "after a message of class %s another is read", litArg(s, last, 1))
				}
				last = e
			case "badmsg":
				badmsg = badmsg || top
			case "readfail", "misaligned":
				readfail = readfail || top
			}
			if e.star != nil {
				for _, a := range e.star.alts {
					walk(a.evs, a.st, false)
				}
			}
		}
	}
	walk(evs, st, true)
	if readfail || badmsg {
		bad(kind == "conn", "an undecodable or incomplete message is an error", "result %s", kind)
		return
	}
	class := "none"
	if last != nil {
		class = litArg(st, last, 1)
	}
	rk, rv := in.errKind(st, r)
	switch class {
	case "ok":
		bad(kind == "nil" && (rk == "nil" || rk == "conn"), "an OK message reports success", "response %s, error %s", rk, kind)
	case "other", "none", "empty":
		bad(kind == "conn", "only a final message ends a response", "a %s message ends the response with %s", class, kind)
	case "challenge":
		er := bothWays(st, BEq(AddK(ct, -4)), func(s *State, v bool) error {
			switch {
			case v && kind != "challenge":
				return fmt.Errorf("a challenge during authentication gives %s", kind)
			case v:
				d := in.fieldOf(s, ev, "AuthData")
				sl, ok := d.(Slice)
				if !ok {
					return fmt.Errorf("challenge data %s", valStr(d))
				}
				want := s.symVal(types.NewSlice(byteType), "msg("+litArg(s, last, 2)+".body).1").(Slice)
				if !s.sameSeq(s.content(sl), s.content(want)) {
					return fmt.Errorf("the challenge data is %s", valStr(d))
				}
			case kind != "conn":
				return fmt.Errorf("an unsolicited challenge gives %s", kind)
			}
			return nil
		})
		bad(er == nil, "a challenge is passed on only to the authentication start", "%v", er)
	case "error":
		var e Val
		if kind == "server" {
			e = ev
			if rk == "server" {
				bad(sameVal(st, rv, ev), "one server error is reported", "response and error differ")
			}
		} else if rk == "server" {
			e = rv
		}
		if e == nil {
			bad(false, "a server error is reported", "response %s, error %s", rk, kind)
			return
		}
		name := "msg(" + litArg(st, last, 2) + ".body)"
		er := in.serverError(st, e, name, func(s *State, fatal bool) error {
			f := func(s *State, auth bool) error {
				must := fatal || auth
				if must != (kind == "server") || !must && kind != "nil" {
					return fmt.Errorf("a server error (fatal %v, answering session reset or authentication %v) gives error %s", fatal, auth, kind)
				}
				return nil
			}
			return bothWays(s, BEq(AddK(ct, -4)), func(s *State, v bool) error {
				if v {
					return f(s, true)
				}
				return bothWays(s, BEq(AddK(ct, -5)), func(s *State, v bool) error {
					if v {
						return f(s, true)
					}
					return bothWays(s, BEq(AddK(ct, -6)), f)
				})
			})
		})
		bad(er == nil, "server errors are classified and reported with severity, code, state and text", "%v", er)
	}
}

// serverError compares a reported server error with the message it came from.
func (in *Interp) serverError(st *State, e Val, name string, f func(s *State, fatal bool) error) error {
	ptr := func(no int, t types.Type) Ptr {
		return st.symVal(types.NewPointer(t), fmt.Sprintf("%s.%d", name, no)).(Ptr)
	}
	cfg := in.prog.ImportedPackage(modPath + "/protobuf/mysqlx")
	sevT := cfg.Type("Error_Severity").Type()
	u32, str := types.Typ[types.Uint32], types.Typ[types.String]
	sev := ptr(1, sevT)
	return bothWays(st, sev.nilq, func(s *State, none bool) error {
		want := Val(K(0))
		if !none {
			want = in.load(s, sev)
		}
		got := in.fieldOf(s, e, "Severity")
		if got == nil || !s.linEq(s.asLin(got), s.asLin(want)) {
			return fmt.Errorf("severity is %s", valStr(got))
		}
		code := in.fieldOf(s, e, "Code")
		if code == nil || !s.linEq(s.asLin(code), s.asLin(in.load(s, ptr(2, u32)))) {
			return fmt.Errorf("code is %s", valStr(code))
		}
		for _, x := range []struct {
			n  string
			no int
		}{{"Msg", 3}, {"SqlState", 4}} {
			v, ok := in.fieldOf(s, e, x.n).(Str)
			if !ok || !s.sameSeq(v.seq, in.load(s, ptr(x.no, str)).(Str).seq) {
				return fmt.Errorf("%s is not that of the message", x.n)
			}
		}
		return bothWays(s, BEq(AddK(s.asLin(want), -1)), f)
	})
}

func init() {
	netAssume := append(append([]string{}, baseAssume...), "net.Conn, bufio.Reader, crypto/tls and the protobuf library behave as documented")
	reg := func(id, tech, explain string, min int, jobs func(tier string) []Job) {
		register(&Check{id: id, level: "other", technique: technique + ": " + tech, needWorld: true, min: min, assume: netAssume, explain: explain, jobs: jobs})
	}
	reg("C14", "typestate of the stream position", "Read is interpreted abstractly over an arbitrary stream: every frame has an unknown length, type and body, the stream may fail at every operation, and the position within the frame is tracked through Peek, Discard and ReadFull. On every path that returns without a connection error the reader is exactly at a frame boundary; every iteration of the reading loop consumes one whole frame; malformed lengths and failures produce errors.", 200, func(tier string) []Job {
		return []Job{{"ConnRead", 5, func(c *Ctx) { c.connRead("C14") }}}
	})
	reg("C15", "case analysis of message types", "Read is interpreted abstractly for every request type over an arbitrary stream of frames. Final messages end the response, others never do, and the values returned for OK, error and challenge messages are compared with the message's fields for every severity and request type.", 200, func(tier string) []Job {
		return []Job{{"ConnRead", 5, func(c *Ctx) { c.connRead("C15") }}}
	})
}

var _ = strings.HasPrefix
