package main

// Nesting: which builder accepts operations (C12), errors stay (C09).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opArgs are arbitrary arguments for calling fn on recv; callbacks do nothing.
func (in *Interp) opArgs(st *State, fn *ssa.Function, recv Val) []Val {
	args := []Val{recv}
	for i, p := range fn.Params[1:] {
		name := fmt.Sprintf("op.%s.%d", fn.Name(), i)
		if sig, ok := p.Type().Underlying().(*types.Signature); ok {
			var cl Val
			for _, n := range []string{"NoopB", "NoopI", "NoopU"} {
				f := in.prog.ImportedPackage("xtadrv/rt").Func(n)
				if types.Identical(f.Signature.Params().At(0).Type(), sigParam0(sig)) && sig.Params().Len() == 1 && types.Identical(f.Signature.Results(), sig.Results()) {
					cl = Closure{fn: f}
				}
			}
			if cl == nil {
				cl = Nil{typ: p.Type()}
			}
			args = append(args, cl)
			continue
		}
		args = append(args, st.symVal(p.Type(), name))
	}
	return args
}

func sigParam0(s *types.Signature) types.Type {
	if s.Params().Len() == 0 {
		return types.Typ[types.Invalid]
	}
	return s.Params().At(0).Type()
}

// opMethod finds the operation under analysis in the method set of t.
func (in *Interp) opMethod(t types.Type) *ssa.Function {
	ms := in.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == in.op && s.Obj().Exported() {
			return in.prog.MethodValue(s)
		}
	}
	return nil
}

func opRecv(v Val) (Val, types.Type) {
	i, ok := v.(Iface)
	if !ok {
		undec("operation on %s", valStr(v))
	}
	return i.v, i.typ
}

func init() {
	intrinsics["xtadrv/rt.CallOp"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		r, t := opRecv(a[0])
		m := in.opMethod(t)
		if m == nil {
			return one(st), true
		}
		outs := in.callFn(st, m, in.opArgs(st, m, r), nil)
		for i := range outs {
			outs[i].vals = nil
		}
		return outs, true
	}
	intrinsics["xtadrv/rt.TryOp"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		r, t := opRecv(a[0])
		m := in.opMethod(t)
		if m == nil {
			return one(st), true
		}
		outs := in.callFn(st, m, in.opArgs(st, m, r), nil)
		for i := range outs {
			o := &outs[i]
			o.vals = nil
			if o.panic {
				e := o.st.event("refused", mkStr(o.st.pan.msg))
				e.pos = o.st.pan.pos
				o.st.pan = nil
				o.panic = false
			} else {
				e := o.st.event("accepted", mkStr(in.op))
				e.pos = in.pos(pos)
			}
		}
		return outs, true
	}
}

// exportedMethods of a type of the root package.
func (w *World) exportedMethods(typ string) []string {
	o := w.prog.ImportedPackage(modPath).Pkg.Scope().Lookup(typ)
	if o == nil {
		panic(undecided("type " + typ + " is gone"))
	}
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(o.Type()))
	var r []string
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj(); f.Exported() {
			r = append(r, f.Name())
		}
	}
	return r
}

type nestCase struct {
	driver string
	typ    string // whose methods are tried
	want   int    // refusals on a path
	frames []FrameSpec
	fails  bool // nothing is transmitted
}

func expectOpen(ctxop string) FrameSpec {
	const m, cm = "Mysqlx.Expect.Open", "Mysqlx.Expect.Open.Condition"
	return FrameSpec{m, "expect", func(p *Params, o *Outcome) MSpec {
		v := enumVal(m, "op", ctxop)
		return MSpec{
			OneOr(fno(m, "op"), NumK(v), func(*State) bool { return v == enumVal(m, "op", "EXPECT_CTX_COPY_PREV") }),
			One(fno(m, "cond"), Msg(MSpec{
				One(fno(cm, "condition_key"), NumK(int64(theSchema.enums["Mysqlx.Expect.Open.Condition.Key"].vals["EXPECT_NO_ERROR"]))),
				OneOr(fno(cm, "condition_value"), LitB("1"), func(*State) bool { return false }),
			})),
		}
	}}
}

var expectClose = FrameSpec{"Mysqlx.Expect.Close", "expect", func(p *Params, o *Outcome) MSpec { return MSpec{} }}

var txStart, txCommit, txSnap = sqlText("tx", "START TRANSACTION"), sqlText("tx", "COMMIT"), sqlText("tx", "START TRANSACTION WITH CONSISTENT SNAPSHOT")

var nestCases = []nestCase{
	{driver: "OuterInTx", typ: "XPipe", want: 2, frames: []FrameSpec{txStart, deallocFrame("id"), txCommit}},
	{driver: "OuterInExpect", typ: "XPipe", want: 2, frames: []FrameSpec{expectOpen("EXPECT_CTX_COPY_PREV"), deallocFrame("id"), expectClose}},
	{driver: "OuterInInsertF", typ: "XPipe", want: 2, frames: []FrameSpec{insertRows("name", "", "v,")}},
	{driver: "OuterInUpdateF", typ: "XPipe", want: 2, frames: []FrameSpec{pairsUpdate("name", "", "c1", "v1")}},
	{driver: "OuterDeep", typ: "Builder", want: 5, frames: []FrameSpec{txStart, expectOpen("EXPECT_CTX_COPY_PREV"), deallocFrame("id1"), expectClose, deallocFrame("id2"), txCommit}},
	{driver: "OuterDeepF", typ: "Builder", want: 2, frames: []FrameSpec{txStart, insertRows("name", "", "v,"), txCommit}},
	{driver: "OuterDeepU", typ: "Builder", want: 2, frames: []FrameSpec{txStart, pairsUpdate("name", "", "c1", "v1"), txCommit}},
	{driver: "KeptTx", typ: "Builder", want: 2, frames: []FrameSpec{txStart, deallocFrame("id1"), txCommit, deallocFrame("id2")}},
	{driver: "KeptExpect", typ: "Builder", want: 2, frames: []FrameSpec{expectOpen("EXPECT_CTX_COPY_PREV"), deallocFrame("id1"), expectClose, deallocFrame("id2")}},
	{driver: "KeptInner", typ: "Builder", want: 2, frames: []FrameSpec{txStart, expectOpen("EXPECT_CTX_COPY_PREV"), deallocFrame("id1"), expectClose, deallocFrame("id2"), txCommit}},
	{driver: "KeptLater", typ: "Builder", want: 2, frames: []FrameSpec{txStart, deallocFrame("id1"), txCommit, txStart, deallocFrame("id2"), txCommit}},
	{driver: "KeptFailed", typ: "Builder", want: 1, fails: true},
	{driver: "KeptBroken", typ: "Builder", want: 1, fails: true},
	{driver: "KeptInsert", typ: "Insert", want: 2, frames: []FrameSpec{insertRows("name", "", "v,"), deallocFrame("id")}},
	{driver: "KeptUpdate", typ: "Update", want: 2, frames: []FrameSpec{pairsUpdate("name", "", "c1", "v1"), deallocFrame("id")}},
}

func (c *Ctx) runNest(nc nestCase) {
	for _, m := range c.w.exportedMethods(nc.typ) {
		m := m
		r := c.w.drive(nc.driver, func(in *Interp, st *State) { in.op = m })
		wh := fmt.Sprintf("(%s).%s in situation %s", nc.typ, m, nc.driver)
		c.accountQuiet(r, wh)
		c.count("operation_situations", 1)
		nsent := 0
		p := c.params(nc.driver)
		for i := range r.outs {
			o := &r.outs[i]
			if o.panic {
				c.fail(o.st.pan.pos, "no panic elsewhere", "%s: %s", wh, o.st.pan.msg)
				c.pathOf(o.st)
				continue
			}
			ref := 0
			for _, e := range o.st.events() {
				switch e.name {
				case "refused":
					ref++
					c.ok(strings.HasPrefix(argText(e, 0), "panic("), e.pos, "refusal is deliberate", "%s: %s", wh, argText(e, 0))
				case "accepted":
					c.fail(wh, "an operation on a builder that is not the innermost active one panics", "accepted at %s", e.pos)
					c.pathOf(o.st)
				}
			}
			sent, res, enc := sentOf(o.st)
			if enc == nil && !nc.fails {
				c.ok(ref == nc.want, wh, "every misuse is refused", "%d refusals instead of %d", ref, nc.want)
			}
			if res == nil {
				c.fail(wh, "the enclosing builder accepts operations again", "Send was not reached")
				continue
			}
			if len(sent) == 0 {
				c.ok(enc != nil || nc.fails, wh, "a refused operation leaves the unit of work usable", "nothing is transmitted")
				c.pathOf(o.st)
				continue
			}
			nsent++
			if nc.fails {
				c.fail(wh, "a failed unit of work stays failed", "transmitted")
				continue
			}
			bc := BCase{driver: nc.driver, frames: nc.frames}
			c.checkSent(bc, r, o, sent, res, p, wh)
		}
		c.ok(nsent > 0 || nc.fails, wh, "the unit of work can be transmitted", "no path transmits anything")
	}
}

func argText(e *Event, i int) string {
	if s, ok := e.args[i].(Str); ok && len(s.seq) == 1 {
		return s.seq[0].lit
	}
	return valStr(e.args[i])
}

var stickyCases = []string{"StickyArg", "StickyWidth", "StickyLevel", "StickyCallback", "StickyInner", "StickyExpect", "StickyInsertF", "StickyUpdateF"}

// runSticky: after a failed step no operation makes the unit of work transmissible.
func (c *Ctx) runSticky(driver string) {
	for _, m := range c.w.exportedMethods("Builder") {
		m := m
		if m == "Reset" || m == "Send" {
			continue
		}
		r := c.w.drive(driver, func(in *Interp, st *State) { in.op = m })
		wh := fmt.Sprintf("%s followed by %s", driver, m)
		c.accountQuiet(r, wh)
		c.count("failure_operation_pairs", 1)
		for i := range r.outs {
			o := &r.outs[i]
			if o.panic {
				c.fail(o.st.pan.pos, "an error is never turned into a panic", "%s: %s", wh, o.st.pan.msg)
				c.pathOf(o.st)
				continue
			}
			sent, res, enc := sentOf(o.st)
			failed := driver != "StickyArg" || enc != nil
			if !failed {
				continue
			}
			c.ok(len(sent) == 0, wh, "a failed step suppresses transmission", "transmitted")
			c.pathOf(o.st)
			c.ok(res != nil && r.in.knownNonNil(o.st, res.args[1]), wh, "Send reports the failure", "it does not")
			c.pathOf(o.st)
		}
	}
}

// ---- callbacks that may fail ----

func cbErr(names ...string) (func(in *Interp, st *State, p *Params) string, func(in *Interp, st *State, p *Params) string) {
	return func(in *Interp, st *State, p *Params) string {
			for _, n := range names {
				if in.knownNonNil(st, p.val(st, n)) {
					return "callback error " + n
				}
			}
			return ""
		}, func(in *Interp, st *State, p *Params) string {
			for _, n := range names {
				if !in.knownNil(st, p.val(st, n)) {
					return "callback error " + n + " may be set"
				}
			}
			return ""
		}
}

func withErr(bc BCase, names ...string) BCase {
	bc.refuse, bc.mustRefuse = cbErr(names...)
	return bc
}

// assume restricts a numeric parameter.
func assumeEq(name string, k int64) func(in *Interp, st *State, p *Params) {
	return func(in *Interp, st *State, p *Params) { st.facts.assumeEq0(AddK(p.num(name)(st), -k)) }
}
func assumeMin(name string, k int64) func(in *Interp, st *State, p *Params) {
	return func(in *Interp, st *State, p *Params) { st.facts.assumeGe0(AddK(p.num(name)(st), -k)) }
}

func init() {
	setLevel := func(s string) FrameSpec { return sqlText("tx", "SET TRANSACTION ISOLATION LEVEL "+s) }
	levels := [][]FrameSpec{
		{txStart},
		{setLevel("READ UNCOMMITTED"), txStart},
		{setLevel("READ COMMITTED"), txStart},
		{setLevel("REPEATABLE READ"), txStart},
		{setLevel("SERIALIZABLE"), txStart},
		{txSnap},
	}
	names := []string{"Default", "ReadUncommitted", "ReadCommitted", "RepeatableRead", "Serializable", "Snapshot"}
	for k, l := range levels {
		fr := append(append([]FrameSpec{}, l...), deallocFrame("id"), txCommit)
		builderCases = append(builderCases, withErr(BCase{driver: "Tx", label: "Tx/" + names[k], level: "IsolationLevel" + names[k], frames: fr, cost: 1}, "e"))
		fr = append(append([]FrameSpec{}, l...), stmtFrame1("stmt", "arg"), txCommit)
		fr2 := append(append([]FrameSpec{}, l...), txCommit)
		builderCases = append(builderCases, withErr(BCase{driver: "TxEmpty", label: "TxEmpty/" + names[k], level: "IsolationLevel" + names[k], frames: fr2, cost: 1}, "e"))
		fr2 = append(append([]FrameSpec{}, l...), insertRows("=t", "", "v,"), deleteFrame("=t", ""), txCommit)
		builderCases = append(builderCases, BCase{driver: "TxCrud", label: "TxCrud/" + names[k], level: "IsolationLevel" + names[k], frames: fr2, cost: 1})
		builderCases = append(builderCases, BCase{driver: "TxStmt", label: "TxStmt/" + names[k], level: "IsolationLevel" + names[k], frames: fr, cost: 1})
	}
	unknown := BCase{driver: "Tx", label: "Tx/unknown level", level: "*", frames: []FrameSpec{txStart}, never: true, cost: 1}
	unknown.refuse = func(in *Interp, st *State, p *Params) string { return "unknown level" }
	unknown.mustRefuse = func(in *Interp, st *State, p *Params) string { return "the isolation level is unknown" }
	builderCases = append(builderCases, unknown)
	builderCases = append(builderCases,
		withErr(BCase{driver: "TxSeq", frames: []FrameSpec{deallocFrame("id1"), txStart, deallocFrame("id2"), txCommit, deallocFrame("id3")}, cost: 1}, "e"),
		withErr(BCase{driver: "TxTx", frames: []FrameSpec{txSnap, deallocFrame("id1"), txCommit, txStart, deallocFrame("id2"), txCommit}, cost: 1}, "e1", "e2"),
		withErr(BCase{driver: "TxNested", frames: []FrameSpec{txStart, deallocFrame("id1"), txSnap, deallocFrame("id2"), txCommit, deallocFrame("id3"), txCommit}, cost: 1}, "e1", "e2"),
		withErr(BCase{driver: "Expect", label: "Expect/copy", level: "OpenExpectCtxCopyPrev", frames: []FrameSpec{expectOpen("EXPECT_CTX_COPY_PREV"), deallocFrame("id"), expectClose}, cost: 1}, "e"),
		withErr(BCase{driver: "Expect", label: "Expect/empty", level: "OpenExpectCtxEmpty", frames: []FrameSpec{expectOpen("EXPECT_CTX_EMPTY"), deallocFrame("id"), expectClose}, cost: 1}, "e"),
		withErr(BCase{driver: "ExpectNested", frames: []FrameSpec{expectOpen("EXPECT_CTX_EMPTY"), deallocFrame("id1"), expectOpen("EXPECT_CTX_COPY_PREV"), deallocFrame("id2"), expectClose, expectClose, deallocFrame("id3")}, cost: 1}, "e1", "e2"),
		withErr(BCase{driver: "ExpectTx", frames: []FrameSpec{expectOpen("EXPECT_CTX_COPY_PREV"), txStart, deallocFrame("id"), txCommit, expectClose}, cost: 1}, "e1", "e2"),
		BCase{driver: "TxEmptySeq", frames: []FrameSpec{deallocFrame("id1"), txStart, txCommit, deallocFrame("id2")}, cost: 1},
		withErr(BCase{driver: "ExpectEmpty", label: "ExpectEmpty/copy", level: "OpenExpectCtxCopyPrev", frames: []FrameSpec{expectOpen("EXPECT_CTX_COPY_PREV"), expectClose}, cost: 1}, "e"),
		withErr(BCase{driver: "ExpectEmpty", label: "ExpectEmpty/empty", level: "OpenExpectCtxEmpty", frames: []FrameSpec{expectOpen("EXPECT_CTX_EMPTY"), expectClose}, cost: 1}, "e"),
		BCase{driver: "ExpectEmptyNested", frames: []FrameSpec{expectOpen("EXPECT_CTX_EMPTY"), expectOpen("EXPECT_CTX_COPY_PREV"), expectClose, expectClose, deallocFrame("id")}, cost: 1},
		BCase{driver: "TxExpectEmpty", frames: []FrameSpec{setLevel("SERIALIZABLE"), txStart, expectOpen("EXPECT_CTX_EMPTY"), expectClose, txCommit}, cost: 1},
		BCase{driver: "ExpectStmt", frames: []FrameSpec{expectOpen("EXPECT_CTX_COPY_PREV"), stmtFrame1("stmt", "arg"), expectClose, deallocFrame("id")}, cost: 1},
		withErr(BCase{driver: "InsertFErr", frames: []FrameSpec{insertRows("name", ""), deallocFrame("id")}, cost: 1}, "e"),
		withErr(BCase{driver: "UpdateFErr", frames: []FrameSpec{pairsUpdate("name", ""), deallocFrame("id")}, cost: 1}, "e"),
		BCase{driver: "InsertFFail", frames: []FrameSpec{insertRows("=t", "", "v1,", "v2,")}, cost: 3},
	)
	register(&Check{id: "C09", level: "other", technique: technique + ": error-state dataflow and effect (transmission) analysis", needWorld: true, min: 100, assume: baseAssume,
		explain: "Every builder operation is interpreted abstractly with every value encoder and every callback allowed to fail; on each abstract path on which something failed no transmission event occurs and the error Send returns is provably non-nil, on every other path the sender's result is returned and no path panics. A failed step of every kind followed by every exported operation is still failed.",
		jobs: func(tier string) []Job {
			js := withValues(caseJobs(func(bc BCase) bool { return true }))(tier)
			for _, d := range stickyCases {
				d := d
				js = append(js, Job{d, 2, func(c *Ctx) { c.runSticky(d) }})
			}
			return js
		}})
	register(&Check{id: "C10", level: "other", technique: technique + ": symbolic frame sequence of the transaction helper", needWorld: true, min: 30, assume: baseAssume,
		explain: "The transaction helper is interpreted abstractly for each isolation level constant (taken from the type-checked program) and for the set of all other values, with bodies that succeed or fail; the transmitted frames are compared with level statement, start, body, COMMIT, and no transmission occurs when the body failed or the level is unknown.",
		jobs:    caseJobs(func(bc BCase) bool { return hasGroup(bc, "tx") })})
	register(&Check{id: "C11", level: "other", technique: technique + ": symbolic frame sequence of expectation blocks", needWorld: true, min: 30, assume: baseAssume,
		explain: "Expectation blocks are interpreted abstractly for each context constant, nested and with bodies that succeed or fail; each transmits an open message with the no-error condition and the requested context operation, the body, and one close message. The condition encoders are decoded for arbitrary arguments.",
		jobs: func(tier string) []Job {
			return append(caseJobs(func(bc BCase) bool { return hasGroup(bc, "expect") })(tier), encJobs("expect")...)
		}})
	register(&Check{id: "C12", level: "other", technique: technique + ": typestate of nested builders over all exported operations", needWorld: true, min: 100, assume: baseAssume,
		explain: "Every exported operation is called with arbitrary arguments on every builder that is not the innermost active one (enclosing builders inside each kind of callback, nested builders and handles kept after their callback): on every abstract path the call panics and what is transmitted afterwards is exactly what it would have been without the call.",
		jobs: func(tier string) []Job {
			var js []Job
			for _, nc := range nestCases {
				nc := nc
				js = append(js, Job{nc.driver, 3, func(c *Ctx) { c.runNest(nc) }})
			}
			return js
		}})
}

