package main

// C13: one write under the deadline, one response per message.

// response is what happened while one response was read.
type response struct {
	evs []*Event
	at  *Lin // the message it answers starts here
}

func final(st *State, e *Event) bool {
	switch e.name {
	case "readfail", "misaligned":
		return true
	case "frame":
		return litArg(st, e, 1) != "other"
	}
	return false
}

func reads(st *State, e *Event) bool {
	return e.name == "frame" || e.name == "readfail" || e.name == "misaligned" || e.star != nil && len(e.star.alts) > 0
}

// responses splits the events of reading into responses, the first answering the message at cur.
func (c *Ctx) responses(in *Interp, st *State, evs []*Event, cur *Lin) (rs []*response, next *Lin) {
	var r *response
	done := false
	for _, e := range evs {
		if r != nil && done && reads(st, e) {
			rs = append(rs, r)
			r, done = nil, false
			cur = nextFrame(in.framed, cur)
		}
		if r == nil {
			if !reads(st, e) {
				continue
			}
			r = &response{at: cur}
		}
		r.evs = append(r.evs, e)
		done = done || final(st, e)
	}
	if r != nil {
		rs = append(rs, r)
		if done {
			cur = nextFrame(in.framed, cur)
		}
	}
	return rs, cur
}

func (c *Ctx) sendUnit(one bool) {
	drv, wh := "ConnSend", "Send"
	if one {
		drv, wh = "ConnWriteOne", "WriteOne"
	}
	r := c.drive(drv, func(in *Interp, st *State) { nonNil(in, st, "ctx") })
	in := r.in
	seen := map[string]int{}
	c.eachOutcome(r, wh, func(o *Outcome, res *Event, evs []*Event) {
		st := o.st
		bad := func(cond bool, rule, f string, a ...interface{}) {
			c.ok(cond, wh, rule, f, a...)
			c.pathOf(st)
		}
		if in.framed == nil {
			bad(false, "the unit of work is a sequence of messages", "not modelled")
			return
		}
		wt := in.framed
		kind, _ := in.errKind(st, res.args[1])
		empty, _ := st.evalB(BEq(wt.n))
		var dl, wr, fail *Event
		i := 0
		for ; i < len(evs); i++ {
			e := evs[i]
			stop := false
			switch e.name {
			case "deadline", "deadlinefail":
				bad(wr == nil && fail == nil, "the deadline is applied before anything is written", "it is applied later")
				want, _ := e.args[1].(SymV)
				ok := want.name == "deadline(ctx)"
				if v, k := st.evalB(BAtom("hasdeadline(ctx)")); k && !v && !ok {
					z := st.zero(in.prog.ImportedPackage("time").Type("Time").Type())
					ok = valKey(e.args[1]) == valKey(z)
				}
				if e.name == "deadlinefail" {
					fail = e
				} else {
					bad(ok, "the caller's deadline is applied", "the deadline is %s", valStr(e.args[1]))
					dl = e
				}
			case "write", "writefail":
				bad(fail == nil, "nothing is written after a failure", "a write follows")
				bad(dl != nil || fail != nil, "the deadline is applied before anything is written", "no deadline is set")
				bad(wr == nil, "the unit of work is one write", "a second write")
				if e.name == "writefail" {
					fail = e
				} else {
					wr = e
					q := e.args[1].(Str).seq
					bad(st.sameSeq(q, []Seg{segSrc(wt, K(0), wt.n)}), "the whole unit of work is written", "written: %s", clip(seqStr(st.compact(q))))
				}
			default:
				stop = wr != nil || reads(st, e)
			}
			if stop {
				break
			}
		}
		if fail != nil {
			ok := kind == "conn" && in.isErr(st, res.args[1], failArg(fail))
			bad(ok, "a failure to set the deadline or to write is returned", "error %s", valStr(res.args[1]))
			for _, e := range evs[i:] {
				bad(!reads(st, e), "nothing is read after a failure", "a response is awaited")
			}
			seen["fail"]++
			return
		}
		bad(wr != nil || empty && !one, "the unit of work is written", "nothing is")
		for _, e := range evs[i:] {
			switch e.name {
			case "write", "writefail":
				bad(false, "the unit of work is one write", "a second write")
			case "deadline", "deadlinefail":
				bad(false, "the deadline is applied before anything is written", "it is changed later")
			}
		}
		// what was read, in order, against what is returned
		var elems []Seg
		if !one {
			if s, ok := res.args[0].(Slice); ok && s.obj != 0 {
				elems = st.compact(st.content(s))
			}
		}
		cur := K(0)
		next := func() (Val, bool) {
			if one {
				return res.args[0], true
			}
			if len(elems) == 0 {
				return nil, false
			}
			e := elems[0]
			if e.k != SByte {
				return nil, false
			}
			elems = elems[1:]
			return e.v, true
		}
		explicit := func(evs []*Event, last bool) {
			var rs []*response
			rs, cur = c.responses(in, st, evs, cur)
			for k, x := range rs {
				v, ok := next()
				err := Val(Nil{errorType})
				if k == len(rs)-1 && last {
					err = res.args[1]
				}
				if !ok {
					if in.knownNil(st, err) {
						bad(false, "each response is returned, in order", "a response is missing")
						return
					}
					v = Nil{errorType}
				}
				ct := byteAtom(wt, AddK(x.at, 4))
				c.outcomeOf(in, st, ct, x.evs, v, err, wh, false)
			}
		}
		tail := evs[i:]
		from := 0
		for k, e := range tail {
			if e.star == nil || e.star.bnd == nil || len(e.star.alts) == 0 {
				continue
			}
			explicit(tail[from:k], false)
			from = k + 1
			bad(in.isBoundary(cur), "the responses match the messages one to one", "a loop starts elsewhere")
			c.iterations(in, st, e.star, &elems, wh)
			cur = e.star.bnd
			seen["loop"]++
		}
		explicit(tail[from:], true)
		if kind == "nil" {
			bad(st.linEq(cur, wt.n), "every message's response is read", "reading stops at %s of %s", clip(cur.String()), wt.n)
			bad(len(elems) == 0, "only responses are returned", "%d more values", len(elems))
			seen["done"]++
		} else {
			bad(kind != "unknown", "every path has a decided error", "error %s", valStr(res.args[1]))
			seen["error"]++
		}
	})
	for _, k := range []string{"fail", "done", "error"} {
		c.ok(seen[k] > 0, wh, "succeeding and failing paths are examined", "no path of kind %s", k)
	}
	c.ok(one || seen["loop"] > 0, wh, "units of any number of messages are examined", "no loop over the messages")
}

// iterations checks that every iteration of the loop over the messages reads one response and returns it.
func (c *Ctx) iterations(in *Interp, st *State, star *Star, elems *[]Seg, wh string) {
	bad := func(s *State, cond bool, rule, f string, a ...interface{}) {
		c.ok(cond, wh, rule, f, a...)
		c.pathOf(s)
	}
	var ret *Star
	if len(*elems) > 0 && (*elems)[0].k == SOpq && (*elems)[0].o.kind == "star" {
		ret = (*elems)[0].o.star
		*elems = (*elems)[1:]
	}
	bad(st, ret != nil, "each response is returned, in order", "the responses of the loop are not returned")
	if ret == nil {
		return
	}
	bad(st, len(ret.alts) == len(star.alts) && len(star.alts) > 0, "each response is returned, in order", "%d ways through an iteration, %d ways of returning", len(star.alts), len(ret.alts))
	if len(ret.alts) != len(star.alts) {
		return
	}
	for k, a := range star.alts {
		b := ret.alts[k]
		if b.st != a.st {
			bad(a.st, false, "each response is returned, in order", "responses and iterations differ")
			continue
		}
		rs, _ := c.responses(in, a.st, a.evs, star.bnd)
		bad(a.st, len(rs) == 1, "one response is read per message", "an iteration reads %d", len(rs))
		bad(a.st, len(b.segs) == 1 && b.segs[0].k == SByte, "one response is returned per message", "an iteration returns %s", clip(seqStr(b.segs)))
		if len(rs) != 1 || len(b.segs) != 1 || b.segs[0].k != SByte {
			continue
		}
		for _, e := range a.evs {
			switch e.name {
			case "write", "writefail", "deadline", "deadlinefail":
				bad(a.st, false, "the unit of work is one write under one deadline", "%s between responses", e.name)
			}
		}
		c.outcomeOf(in, a.st, byteAtom(in.framed, AddK(star.bnd, 4)), rs[0].evs, b.segs[0].v, Nil{errorType}, wh, false)
	}
}

func init() {
	register(&Check{id: "C13", level: "other", technique: technique + ": loop induction over message boundaries, typestate of the exchange", needWorld: true, min: 300,
		assume:  append(append([]string{}, baseAssume...), "net.Conn, bufio.Reader and the protobuf library behave as documented; what is sent is a sequence of whole messages (C01)"),
		explain: "Send is interpreted abstractly on a buffer that is any sequence of messages, WriteOne on any one message, with a failure possible at every step. The loop over the messages is generalised to an arbitrary message boundary; on every way through an iteration the events are exactly one response, interpreted for the type byte of the message at that boundary, appended to what is returned, and the next iteration starts one message later; success is only returned at the end of the buffer.",
		jobs: func(tier string) []Job {
			return []Job{{"ConnSend", 5, func(c *Ctx) { c.sendUnit(false) }}, {"ConnWriteOne", 3, func(c *Ctx) { c.sendUnit(true) }}}
		}})
}
