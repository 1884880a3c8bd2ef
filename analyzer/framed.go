package main

// Framed buffers: a symbolic buffer that is a sequence of messages, and loops that walk it message by message.

import (
	"go/token"
	"strings"
)

// frameLen is the little-endian 32 bit number at offset off of sym.
func frameLen(s *Sym, off *Lin) *Lin {
	var bits []Bit
	for i := 0; i < 4; i++ {
		b := byteAtom(s, AddK(off, int64(i)))
		for j := 0; j < 8; j++ {
			bits = append(bits, bitOf(b, j))
		}
	}
	return mkBV(bits)
}

// nextFrame is the offset of the message after the one at off.
func nextFrame(s *Sym, off *Lin) *Lin { return Add(AddK(off, 4), frameLen(s, off)) }

// isBoundary: off is known to be the start of a message or the end of the buffer.
func (in *Interp) isBoundary(off *Lin) bool {
	if off.isConst() {
		return off.c.Sign() == 0
	}
	a := off.single()
	return a != nil && strings.HasPrefix(a.key, "fb#")
}

// frameAt assumes that a whole message starts at off.
func (st *State) frameAt(s *Sym, off *Lin) bool {
	n := frameLen(s, off)
	return st.assumeB(BGe(AddK(Sub(s.n, off), -1)), true) && st.assumeB(BGe(AddK(n, -1)), true) && st.assumeB(BGe(Sub(s.n, nextFrame(s, off))), true)
}

// stepsFrame: vb is one message past va.
func (in *Interp) stepsFrame(B *State, va, vb *Lin) bool {
	return in.framed != nil && in.isBoundary(va) && B.linEq(vb, nextFrame(in.framed, va))
}

// framedSlice is the offset in the framed buffer where the slice, which reaches to its end, starts.
func (in *Interp) framedSlice(st *State, s Slice) *Lin {
	if in.framed == nil || s.obj == 0 {
		return nil
	}
	o := st.heap[s.obj]
	if o == nil || !o.isq || len(o.seq) == 0 || o.seq[0].k != SSrc || o.seq[0].sym != in.framed {
		return nil
	}
	if !st.linEq(Add(s.off, s.len), in.framed.n) {
		return nil
	}
	return s.off
}

func init() {
	// rt.Frames(b): b is any sequence of messages; rt.Frame(b): b is one message.
	frames := func(single bool) intrinsic {
		return pure(func(in *Interp, st *State, a []Val, pos token.Pos) []Outcome {
			s := a[0].(Slice)
			q := st.content(s)
			if len(q) != 1 || q[0].k != SSrc {
				undec("framed buffer %s", seqStr(q))
			}
			in.framed = q[0].sym
			y := in.framed
			var outs []Outcome
			if !single {
				e := st.clone()
				if e.assumeB(BEq(y.n), true) {
					outs = append(outs, Outcome{st: e})
				}
			}
			n := st.clone()
			ok := n.frameAt(y, K(0))
			if single {
				ok = ok && n.assumeB(BEq(Sub(y.n, nextFrame(y, K(0)))), true)
			}
			if ok {
				outs = append(outs, Outcome{st: n})
			}
			return outs
		})
	}
	intrinsics["xtadrv/rt.Frames"] = frames(false)
	intrinsics["xtadrv/rt.Frame"] = frames(true)
}
