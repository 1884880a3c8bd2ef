package main

// Channels shared between callers. What a channel holds is unknown: other callers put and take at any time.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// chanIs tells what a channel value is: nil, shared with its object, or a context's Done channel.
func (in *Interp) chanIs(st *State, ch Val) (kind string, obj int, name string) {
	switch x := ch.(type) {
	case Nil:
		return "nil", 0, ""
	case ChanV:
		return "chan", x.obj, ""
	case SymV:
		if len(x.name) > 5 && x.name[:5] == "done(" {
			return "done", 0, x.name[5 : len(x.name)-1]
		}
	}
	undec("channel operation on %s", valStr(ch))
	return
}

// closedQ: may the channel be closed / open at this moment?
func (in *Interp) closedQ(st *State, obj int) (open, closed bool) {
	if in.pool == nil {
		undec("channel operation outside a shared object")
	}
	cur, ok := st.obj(obj).x["closed"].(Bool)
	if !ok || cur.op != 0 {
		undec("state of channel")
	}
	if cur.v {
		return false, true // a closed channel stays closed
	}
	if in.pool.held(st) {
		return true, in.pool.mayClose
	}
	return true, in.pool.mayClose || in.pool.everClosed()
}

type chanCase struct {
	st    *State
	v     Val
	recv  bool
	ok    Bool
	def   bool
	panic bool
	msg   string
}

// recvCases: the ways a receive can proceed. A receive that cannot proceed is not among them.
func (in *Interp) recvCases(st *State, ch Val, et types.Type, pos token.Pos) (cs []chanCase, always bool) {
	k, obj, name := in.chanIs(st, ch)
	switch k {
	case "nil":
		return nil, false
	case "done":
		s := st.clone()
		_, was := s.ghost["ctxdone:"+name]
		s.ghost["ctxdone:"+name] = BConst(true)
		return []chanCase{{st: s, v: s.zero(et), ok: BConst(false)}}, was
	}
	open, closed := in.closedQ(st, obj)
	if open || closed { // an element
		s := st.clone()
		v := SymV{name: s.fresh("!idle"), typ: et}
		s.event("take", v).pos = in.pos(pos)
		cs = append(cs, chanCase{st: s, v: v, ok: BConst(true)})
	}
	if closed {
		s := st.clone()
		s.wobj(obj).x["closed"] = BConst(true)
		s.event("empty", ch).pos = in.pos(pos)
		cs = append(cs, chanCase{st: s, v: s.zero(et), ok: BConst(false)})
	}
	return cs, closed && !open
}

func (in *Interp) sendCases(st *State, ch, v Val, pos token.Pos) (cs []chanCase, always bool) {
	k, obj, _ := in.chanIs(st, ch)
	switch k {
	case "nil":
		return nil, false
	case "done":
		undec("send on a context's channel")
	}
	open, closed := in.closedQ(st, obj)
	if closed {
		s := st.clone()
		cs = append(cs, chanCase{st: s, panic: true, msg: "send on closed channel"})
	}
	if open {
		s := st.clone()
		e := s.event("put", v, ch, BConst(in.pool.held(s)), in.pool.phase(s), BConst(in.pool.current(s, ch)))
		e.pos = in.pos(pos)
		cs = append(cs, chanCase{st: s})
	}
	return cs, false
}

func (in *Interp) caseOut(c chanCase, pos token.Pos, vals []Val) Outcome {
	if c.panic {
		c.st.pan = &PanicVal{pos: in.pos(pos), msg: c.msg}
		return Outcome{st: c.st, panic: true}
	}
	return Outcome{st: c.st, vals: vals}
}

func (in *Interp) selectStmt(p *Path, x *ssa.Select) []Outcome {
	st := p.st
	var outs []Outcome
	must := false
	tt := x.Type().(*types.Tuple)
	nrecv := 0
	var empties []Val
	for i, s := range x.States {
		ch := in.val(p, s.Chan)
		if s.Dir == types.SendOnly {
			cs, always := in.sendCases(st, ch, in.val(p, s.Send), s.Pos)
			must = must || always
			for _, c := range cs {
				outs = append(outs, in.caseOut(c, s.Pos, in.selVals(c, tt, i, -1)))
			}
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		cs, always := in.recvCases(st, ch, et, s.Pos)
		must = must || always
		for _, c := range cs {
			c.recv = true
			outs = append(outs, in.caseOut(c, s.Pos, in.selVals(c, tt, i, nrecv)))
		}
		if _, ok := ch.(ChanV); ok {
			empties = append(empties, ch)
		}
		nrecv++
	}
	if !x.Blocking {
		if !must {
			s := st.clone()
			for _, ch := range empties {
				s.event("empty", ch).pos = in.pos(x.Pos())
			}
			outs = append(outs, Outcome{st: s, vals: in.selVals(chanCase{st: s, def: true}, tt, -1, -1)})
		}
	} else if !must && in.pool != nil {
		waits := false
		for _, s := range x.States {
			if k, _, _ := in.chanIs(st, in.val(p, s.Chan)); k == "done" {
				waits = true // ends when the caller's context does
			}
		}
		if !waits {
			in.pool.block(in.pos(x.Pos()), "select without default")
		}
	}
	return outs
}

func (in *Interp) selVals(c chanCase, tt *types.Tuple, idx, nrecv int) []Val {
	vals := []Val{K(int64(idx)), BConst(false)}
	if c.recv {
		vals[1] = c.ok
	}
	for i := 2; i < tt.Len(); i++ {
		if i-2 == nrecv {
			vals = append(vals, c.v)
		} else {
			vals = append(vals, c.st.zero(tt.At(i).Type()))
		}
	}
	return vals
}

func (in *Interp) recv(st *State, ch Val, commaOk bool, t types.Type, pos token.Pos) []Outcome {
	et := t
	if commaOk {
		et = t.(*types.Tuple).At(0).Type()
	}
	cs, always := in.recvCases(st, ch, et, pos)
	if k, _, _ := in.chanIs(st, ch); !always && k != "done" && in.pool != nil {
		in.pool.block(in.pos(pos), "receive")
	}
	var outs []Outcome
	for _, c := range cs {
		vals := []Val{c.v}
		if commaOk {
			vals = append(vals, c.ok)
		}
		outs = append(outs, in.caseOut(c, pos, vals))
	}
	return outs
}

func (in *Interp) chanSend(st *State, ch, v Val, pos token.Pos) []Outcome {
	cs, _ := in.sendCases(st, ch, v, pos)
	if in.pool != nil {
		in.pool.block(in.pos(pos), "send")
	}
	var outs []Outcome
	for _, c := range cs {
		outs = append(outs, in.caseOut(c, pos, nil))
	}
	return outs
}

func (in *Interp) chanClose(st *State, ch Val, pos token.Pos) []Outcome {
	k, obj, _ := in.chanIs(st, ch)
	switch k {
	case "nil":
		panic(goPanic{msg: "close of nil channel"})
	case "done":
		undec("close of a context's channel")
	}
	open, closed := in.closedQ(st, obj)
	var outs []Outcome
	if closed {
		s := st.clone()
		outs = append(outs, in.caseOut(chanCase{st: s, panic: true, msg: "close of closed channel"}, pos, nil))
	}
	if open {
		s := st.clone()
		s.wobj(obj).x["closed"] = BConst(true)
		if !in.pool.held(s) {
			in.pool.sawClose()
		}
		outs = append(outs, Outcome{st: s})
	}
	return outs
}
