package main

// Specifications of the builder operations: C01, C02, C03, C04, C05.

import (
	"fmt"
	"strings"
)

// FrameSpec is one expected message.
type FrameSpec struct {
	msg   string // full message name
	group string // which property owns the content: "sql", "crud", "tx", "expect", ""
	spec  func(p *Params, o *Outcome) MSpec
}

// BCase is a driver together with what it has to transmit.
type BCase struct {
	driver string
	frames []FrameSpec
	fresh  bool // no earlier operations in what is sent
	cost   int
	// refuse: why nothing may be sent on this outcome ("" if it has to be sent)
	refuse func(in *Interp, st *State, p *Params) string
	// mustRefuse: why nothing must be sent
	mustRefuse func(in *Interp, st *State, p *Params) string
	refs       []int // InsertRow: statement frame indices that store the ids
	thorough   bool
	label      string
	level      string // constant of the root package the parameter level (or oc) equals; "*" for any other value
	never      bool   // no path transmits
}

func (bc BCase) name() string {
	if bc.label != "" {
		return bc.label
	}
	return bc.driver
}

// pre restricts the driver's parameters.
func (bc BCase) pre(c *Ctx) func(in *Interp, st *State) {
	if bc.level == "" {
		return nil
	}
	p := c.params(bc.driver)
	root := constsOf(c.w.prog.ImportedPackage(modPath).Pkg)
	par := "level"
	if p.types[par] == nil {
		par = "oc"
	}
	return func(in *Interp, st *State) {
		if bc.level != "*" {
			k, ok := root[bc.level]
			if !ok {
				undec("constant %s is gone", bc.level)
			}
			assumeEq(par, k)(in, st, p)
			return
		}
		max := int64(0)
		for n, k := range root {
			if strings.HasPrefix(n, "IsolationLevel") && k > max {
				max = k
			}
		}
		assumeMin(par, max+1)(in, st, p)
	}
}

func (w *World) fno(msg, field string) int {
	m := w.schema.msgs[msg]
	if m == nil {
		panic(undecided("no message " + msg))
	}
	for _, f := range m.fields {
		if f.name == field {
			return f.num
		}
	}
	panic(undecided("no field " + field + " in " + msg))
}

var theSchema = frozenSchema()

func fno(msg, field string) int { return (&World{schema: theSchema}).fno(msg, field) }

func enumVal(msg, field, val string) int64 {
	m := theSchema.msgs[msg]
	for _, f := range m.fields {
		if f.name == field && f.enum != nil {
			if v, ok := f.enum.vals[val]; ok {
				return int64(v)
			}
		}
	}
	panic(undecided("no enum value " + val + " of " + msg + "." + field))
}

const (
	mStmt    = "Mysqlx.Sql.StmtExecute"
	mPrep    = "Mysqlx.Prepare.Prepare"
	mOneOf   = "Mysqlx.Prepare.Prepare.OneOfMessage"
	mExec    = "Mysqlx.Prepare.Execute"
	mDealloc = "Mysqlx.Prepare.Deallocate"
	mInsert  = "Mysqlx.Crud.Insert"
	mUpdate  = "Mysqlx.Crud.Update"
	mDelete  = "Mysqlx.Crud.Delete"
	mColl    = "Mysqlx.Crud.Collection"
	mColumn  = "Mysqlx.Crud.Column"
	mRow     = "Mysqlx.Crud.Insert.TypedRow"
	mUpOp    = "Mysqlx.Crud.UpdateOperation"
	mColID   = "Mysqlx.Expr.ColumnIdentifier"
	mExpr    = "Mysqlx.Expr.Expr"
)

func stmtFrame(stmt, args string) FrameSpec {
	return FrameSpec{mStmt, "sql", func(p *Params, o *Outcome) MSpec {
		s := MSpec{One(fno(mStmt, "stmt"), Bytes(p.str(stmt)))}
		if args != "" {
			s = append(s, p.values(fno(mStmt, "args"), args))
		}
		return s
	}}
}

func stmtFrame1(stmt string, args ...string) FrameSpec {
	return FrameSpec{mStmt, "sql", func(p *Params, o *Outcome) MSpec {
		return MSpec{One(fno(mStmt, "stmt"), Bytes(p.str(stmt))), fixedVals(fno(mStmt, "args"), p, args)}
	}}
}

func fixedVals(num int, p *Params, args []string) FSpec {
	return Each(num, func(*State) *Lin { return K(int64(len(args))) }, func(i *Lin) FM {
		return func(st *State, f DField) error {
			c := st.facts.constOf(i)
			if c == nil || c.Int64() >= int64(len(args)) {
				return merr("more values than given")
			}
			return ValOf(p.v(args[c.Int64()]))(st, f)
		}
	})
}

func sqlText(group, text string) FrameSpec {
	return FrameSpec{mStmt, group, func(p *Params, o *Outcome) MSpec {
		return MSpec{One(fno(mStmt, "stmt"), LitB(text))}
	}}
}

func prepFrame(id, stmt string) FrameSpec {
	return FrameSpec{mPrep, "sql", func(p *Params, o *Outcome) MSpec {
		return MSpec{
			One(fno(mPrep, "stmt_id"), Num(p.num(id))),
			One(fno(mPrep, "stmt"), Msg(MSpec{
				One(fno(mOneOf, "type"), NumK(enumVal(mOneOf, "type", "STMT"))),
				One(fno(mOneOf, "stmt_execute"), Msg(MSpec{One(fno(mStmt, "stmt"), Bytes(p.str(stmt)))})),
			})),
		}
	}}
}

func execFrame(id, list string, args ...string) FrameSpec {
	return FrameSpec{mExec, "sql", func(p *Params, o *Outcome) MSpec {
		s := MSpec{One(fno(mExec, "stmt_id"), Num(p.num(id)))}
		if list != "" {
			return append(s, p.values(fno(mExec, "args"), list))
		}
		return append(s, fixedVals(fno(mExec, "args"), p, args))
	}}
}

func deallocFrame(id string) FrameSpec {
	return FrameSpec{mDealloc, "sql", func(p *Params, o *Outcome) MSpec {
		return MSpec{One(fno(mDealloc, "stmt_id"), Num(p.num(id)))}
	}}
}

func collSpec(msg string, p *Params, name string) []FSpec {
	return []FSpec{
		One(fno(msg, "collection"), Msg(MSpec{One(fno(mColl, "name"), Bytes(p.str(name)))})),
		One(fno(msg, "data_model"), NumK(enumVal(msg, "data_model", "TABLE"))),
	}
}

func colsSpec(p *Params, cols string) FSpec {
	return Each(fno(mInsert, "projection"), p.length(cols), func(i *Lin) FM {
		return Msg(MSpec{One(fno(mColumn, "name"), Bytes(p.elemStr(cols, i)))})
	})
}

// rowSpec: the values of one row.
func rowSpec(n func(st *State) *Lin, v func(i *Lin) func(st *State) Val) FM {
	return Msg(MSpec{Each(fno(mRow, "field"), n, func(i *Lin) FM { return ValOf(v(i)) })})
}

// insertFrame: rows of the list of lists data; width says whether the rows have to be as wide as the columns.
func insertFrame(name, cols, data string, width bool) FrameSpec {
	return FrameSpec{mInsert, "crud", func(p *Params, o *Outcome) MSpec {
		s := MSpec(collSpec(mInsert, p, name))
		s = append(s, colsSpec(p, cols))
		return append(s, Each(fno(mInsert, "row"), p.length(data), func(i *Lin) FM {
			row := elemName(p.sym(data), i)
			el := p.sym(data).elem.Underlying().(*sliceT).Elem()
			n := func(*State) *Lin { return lenVar(row) }
			if width {
				n = p.length(cols)
			}
			return rowSpec(n, func(j *Lin) func(st *State) Val {
				return func(st *State) Val { return st.symElem(mkSym(row, lenVar(row), el), j) }
			})
		}))
	}}
}

// insertRows: one row per list parameter.
func insertRows(name, cols string, rows ...string) FrameSpec {
	return FrameSpec{mInsert, "crud", func(p *Params, o *Outcome) MSpec {
		s := MSpec(collSpec(mInsert, p, name))
		if cols != "" {
			s = append(s, colsSpec(p, cols))
		}
		return append(s, Each(fno(mInsert, "row"), func(*State) *Lin { return K(int64(len(rows))) }, func(i *Lin) FM {
			return func(st *State, f DField) error {
				c := st.facts.constOf(i)
				if c == nil || c.Int64() >= int64(len(rows)) {
					return merr("more rows than given")
				}
				r := rows[c.Int64()]
				if r == "" {
					return rowSpec(func(*State) *Lin { return K(0) }, nil)(st, f)
				}
				if strings.Contains(r, ",") {
					vs := strings.Split(strings.TrimSuffix(r, ","), ",")
					return Msg(MSpec{fixedVals(fno(mRow, "field"), p, vs)})(st, f)
				}
				return rowSpec(p.length(r), func(j *Lin) func(st *State) Val { return p.elem(r, j) })(st, f)
			}
		}))
	}}
}

func critSpec(msg string, p *Params, crit string) FSpec {
	return OneOr(fno(msg, "criteria"), ValOf(p.v(crit)), func(st *State) bool {
		b, k := st.evalB(st.nilTest(p.val(st, crit)))
		return k && b
	})
}

func assignSpec(col func(st *State) []Seg, val func(st *State) Val) FM {
	return Msg(MSpec{
		One(fno(mUpOp, "source"), Msg(MSpec{One(fno(mColID, "name"), Bytes(col))})),
		One(fno(mUpOp, "operation"), NumK(enumVal(mUpOp, "operation", "SET"))),
		One(fno(mUpOp, "value"), ValOf(val)),
	})
}

// updateFrame: n assignments; element i is given by a.
func updateFrame(name, crit string, n func(p *Params) *Lin, a func(p *Params, i *Lin) FM) FrameSpec {
	return FrameSpec{mUpdate, "crud", func(p *Params, o *Outcome) MSpec {
		s := MSpec(collSpec(mUpdate, p, name))
		if crit != "" {
			s = append(s, critSpec(mUpdate, p, crit))
		}
		return append(s, Each(fno(mUpdate, "operation"), func(*State) *Lin { return n(p) }, func(i *Lin) FM { return a(p, i) }))
	}}
}

func pairsUpdate(name, crit string, kv ...string) FrameSpec {
	return updateFrame(name, crit, func(*Params) *Lin { return K(int64(len(kv) / 2)) }, func(p *Params, i *Lin) FM {
		return func(st *State, f DField) error {
			c := st.facts.constOf(i)
			if c == nil || c.Int64() >= int64(len(kv)/2) {
				return merr("more assignments than given")
			}
			k := c.Int64() * 2
			return assignSpec(p.str(kv[k]), p.v(kv[k+1]))(st, f)
		}
	})
}

func mapUpdate(name, crit, set string) FrameSpec {
	return updateFrame(name, crit, func(*Params) *Lin { return lenVar(set) }, func(p *Params, i *Lin) FM {
		mt := p.types[set].Underlying().(*mapT)
		return assignSpec(
			func(st *State) []Seg { return st.symElem(mkSym(set+".keys", lenVar(set), mt.Key()), i).(Str).seq },
			func(st *State) Val { return st.symElem(mkSym(set+".vals", lenVar(set), mt.Elem()), i) })
	})
}

func listUpdate(name, crit, set string) FrameSpec {
	return updateFrame(name, crit, func(p *Params) *Lin { return lenVar(set) }, func(p *Params, i *Lin) FM {
		return assignSpec(
			func(st *State) []Seg { return st.symElem(p.sym(set), i).(Struct).f[0].(Str).seq },
			func(st *State) Val { return st.symElem(p.sym(set), i).(Struct).f[1] })
	})
}

func deleteFrame(name, crit string) FrameSpec {
	return FrameSpec{mDelete, "crud", func(p *Params, o *Outcome) MSpec {
		s := MSpec(collSpec(mDelete, p, name))
		if crit != "" {
			s = append(s, critSpec(mDelete, p, crit))
		}
		return s
	}}
}

// refFrame: the statement storing the id of InsertRow number k in the variable its expression refers to.
func refFrame(k int) FrameSpec {
	return FrameSpec{mStmt, "crud", func(p *Params, o *Outcome) MSpec {
		return MSpec{One(fno(mStmt, "stmt"), func(st *State, f DField) error {
			ref, err := refVar(o, k)
			if err != nil {
				return err
			}
			for _, at := range []string{"", "@"} {
				w := append([]Seg{segLit("SET " + at)}, ref...)
				w = append(w, segLit(" = LAST_INSERT_ID()"))
				if st.sameSeq(f.seq, w) {
					return nil
				}
			}
			return merr("the statement is %s, the returned expression refers to variable %s", clip(seqStr(f.seq)), clip(seqStr(ref)))
		})}
	}}
}

// refVar is the variable name the k-th "ref" event's expression refers to.
func refVar(o *Outcome, k int) (name []Seg, err error) {
	n := 0
	for _, e := range o.st.events() {
		if e.name != "ref" {
			continue
		}
		if n == k {
			st := o.st
			s, ok := e.args[0].(Slice)
			if !ok {
				return nil, merr("the expression for the id was not built")
			}
			err = try(func() {
				d := &Decoder{sc: theSchema}
				def := &MsgDef{name: "caller's message", fields: map[int]*FieldDef{1: {num: 1, name: "value", label: "required", typ: mExpr, msg: theSchema.msgs[mExpr]}}}
				m := d.message(st, def, st.content(s))
				sp := MSpec{One(1, Msg(MSpec{
					One(fno(mExpr, "type"), NumK(enumVal(mExpr, "type", "VARIABLE"))),
					One(fno(mExpr, "variable"), func(st *State, f DField) error { name = f.seq; return nil }),
				}))}
				if e := sp.match(st, m); e != nil {
					derr("%v", e)
				}
			})
			return name, err
		}
		n++
	}
	return nil, merr("InsertRow returned no expression for the id")
}

// differ: the two texts are provably different.
func (st *State) differ(a, b []Seg) bool {
	a, b = st.compact(a), st.compact(b)
	for len(a) > 0 && len(b) > 0 && segKey(a[0]) == segKey(b[0]) {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && segKey(a[len(a)-1]) == segKey(b[len(b)-1]) {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) == 1 && len(b) == 1 && a[0].k == SOpq && b[0].k == SOpq && a[0].o.kind == "dec" && b[0].o.kind == "dec" && a[0].full() && b[0].full() {
		_, no := st.facts.isEq0(Sub(a[0].o.l, b[0].o.l))
		return no
	}
	la, ok1 := st.litOf(a)
	lb, ok2 := st.litOf(b)
	return ok1 && ok2 && la != lb
}

// rowWidthRefusal: some row's width is known to differ from the number of columns.
func rowWidthRefusal(data, cols string) func(in *Interp, st *State, p *Params) string {
	return func(in *Interp, st *State, p *Params) string {
		if st.knownDifferent("len("+data+"[", "len("+cols+")") {
			return "row width"
		}
		return ""
	}
}

// knownDifferent: the facts hold that some length with the given prefix differs from the other length.
func (st *State) knownDifferent(prefix, other string) bool {
	var oth *Lin
	var cand []*Lin
	for _, a := range atomList {
		n := a.String()
		if n == other {
			oth = linAtom(a)
		} else if strings.HasPrefix(n, prefix) {
			cand = append(cand, linAtom(a))
		}
	}
	if oth == nil {
		return false
	}
	for _, l := range cand {
		if _, no := st.facts.isEq0(Sub(l, oth)); no {
			return true
		}
	}
	return false
}

var builderCases = []BCase{
	{driver: "Empty"},
	{driver: "StmtExecute", frames: []FrameSpec{stmtFrame("stmt", "args")}, cost: 1},
	{driver: "Prepare", frames: []FrameSpec{prepFrame("id", "stmt")}, cost: 1},
	{driver: "Execute", frames: []FrameSpec{execFrame("id", "args")}, cost: 1},
	{driver: "Deallocate", frames: []FrameSpec{deallocFrame("id")}, cost: 1},
	{driver: "Fresh", frames: []FrameSpec{prepFrame("id", "stmt")}, fresh: true, cost: 1},
	{driver: "Seq3", frames: []FrameSpec{prepFrame("id1", "stmt"), execFrame("id2", "", "arg"), deallocFrame("id3")}, cost: 3},
	{driver: "SeqCrud", frames: []FrameSpec{pairsUpdate("t1", "", "c1", "v1"), deleteFrame("t2", ""), stmtFrame("stmt", "")}, cost: 4},
	{driver: "AfterReset", frames: []FrameSpec{prepFrame("id", "stmt")}, fresh: true, cost: 2, refuse: neverRefuse},
	{driver: "AfterSendReset", frames: []FrameSpec{deallocFrame("id")}, fresh: true, cost: 1, refuse: neverRefuse},
	{driver: "SendTwice", frames: []FrameSpec{stmtFrame("s1", ""), deallocFrame("id")}, cost: 1},

	{driver: "Insert", frames: []FrameSpec{insertFrame("name", "cols", "data", true)}, refuse: rowWidthRefusal("data", "cols"), cost: 3},
	{driver: "InsertRow", frames: []FrameSpec{insertRows("name", "cols", "row"), refFrame(0)}, refs: []int{1}, cost: 3},
	{driver: "InsertRow2", frames: []FrameSpec{insertRows("n1", "", ""), refFrame(0), insertRows("n2", "", ""), refFrame(1)}, refs: []int{1, 3}, cost: 3},
	{driver: "InsertRowNested", frames: []FrameSpec{insertRows("n1", "", ""), refFrame(0), sqlText("tx", "START TRANSACTION"), insertRows("n2", "", ""), refFrame(1), sqlText("tx", "COMMIT"), insertRows("n3", "", ""), refFrame(2)}, refs: []int{1, 4, 7}, cost: 3},
	{driver: "InsertF", frames: []FrameSpec{insertFrame("name", "cols", "data", false)}, refuse: rowWidthRefusal("data", "cols"), cost: 3},
	{driver: "InsertFV", frames: []FrameSpec{insertRows("name", "cols", "a,b,c")}, cost: 3},
	{driver: "InsertF2", frames: []FrameSpec{insertRows("name", "cols", "r1", "r2")}, cost: 15, thorough: true},
	{driver: "Update", frames: []FrameSpec{mapUpdate("name", "crit", "set")}, cost: 3},
	{driver: "UpdateF", frames: []FrameSpec{listUpdate("name", "crit", "set")}, cost: 3},
	{driver: "UpdateF2", frames: []FrameSpec{pairsUpdate("name", "crit", "c1", "v1", "c2", "v2")}, cost: 4},
	{driver: "Delete", frames: []FrameSpec{deleteFrame("name", "crit")}, cost: 1},
}

func neverRefuse(in *Interp, st *State, p *Params) string { return "!" }

// sentOf returns the transmissions and the reported result of an outcome.
func sentOf(st *State) (sent []*Event, res *Event, encfail *Event) {
	for _, e := range st.events() {
		switch e.name {
		case "sent":
			sent = append(sent, e)
		case "result":
			res = e
		case "encfail":
			encfail = e
		}
	}
	return
}

func where(driver string, o *Outcome) string { return "operation sequence " + driver }

// runCase checks one case for one property.
func (c *Ctx) runCase(bc BCase) {
	r := c.drive(bc.driver, bc.pre(c))
	p := c.params(bc.driver)
	nsent := 0
	wh := "entry " + bc.name() + " (" + strings.Join(frameNames(bc.frames), ", ") + ")"
	for i := range r.outs {
		o := &r.outs[i]
		if o.panic {
			c.fail(o.st.pan.pos, "no operation panics", "%s: %s", wh, o.st.pan.msg)
			c.pathOf(o.st)
			continue
		}
		sent, res, enc := sentOf(o.st)
		if res == nil {
			c.fail(wh, "every path reaches Send", "path without result")
			c.pathOf(o.st)
			continue
		}
		if len(sent) == 0 {
			c.checkRefused(bc, r, o, res, enc, p, wh)
			continue
		}
		nsent++
		c.checkSent(bc, r, o, sent, res, p, wh)
	}
	c.ok(nsent > 0 || bc.never, wh, "the operation can be transmitted", "no path transmits anything")
}

func frameNames(fs []FrameSpec) []string {
	var r []string
	for _, f := range fs {
		r = append(r, f.msg[strings.LastIndex(f.msg, ".")+1:])
	}
	return r
}

func (c *Ctx) checkRefused(bc BCase, r *Run, o *Outcome, res, enc *Event, p *Params, wh string) {
	cause := ""
	if bc.refuse != nil {
		cause = bc.refuse(r.in, o.st, p)
	}
	if cause != "!" && enc != nil {
		cause = "encoder"
	}
	if cause == "!" {
		cause = ""
	}
	switch c.id {
	case "C02":
		if bc.fresh {
			c.ok(cause != "", wh, "Reset leaves a usable builder", "nothing is transmitted")
			c.pathOf(o.st)
		}
	case "C01", "C04", "C05", "C10", "C11", "C12":
		c.ok(cause != "", wh, "what can be encoded is transmitted", "nothing is transmitted although nothing failed")
		c.pathOf(o.st)
	}
	if c.id == "C09" {
		c.ok(cause != "", wh, "what can be encoded is transmitted", "nothing is transmitted although nothing failed")
		c.pathOf(o.st)
		c.ok(r.in.knownNonNil(o.st, res.args[1]), wh, "Send reports the failure", "Send returns error %s", valStr(res.args[1]))
		c.pathOf(o.st)
	}
}

func (c *Ctx) checkSent(bc BCase, r *Run, o *Outcome, sent []*Event, res *Event, p *Params, wh string) {
	st := o.st
	if !c.ok(len(sent) == 1, wh, "one transmission", "%d transmissions", len(sent)) {
		return
	}
	if bc.mustRefuse != nil {
		why := bc.mustRefuse(r.in, st, p)
		c.ok(why == "", wh, "nothing is transmitted", "transmitted although %s", why)
		c.pathOf(st)
		if why != "" {
			return
		}
	}
	q := st.expand(sent[0].seq)
	pre := []Seg(nil)
	if !bc.fresh {
		pre = []Seg{segSrc(mkSym("prefix", lenVar("prefix"), nil), K(0), lenVar("prefix"))}
	}
	var rest []Seg
	err := try(func() {
		a, b := st.cut(q, seqLen(pre))
		if !st.sameSeq(a, pre) {
			derr("the bytes already built changed: %s", clip(seqStr(a)))
		}
		rest = b
	})
	if c.id == "C02" {
		c.ok(err == nil, wh, "earlier bytes are preserved", "%v", err)
		c.pathOf(st)
		if bc.fresh && err == nil {
			err = c.frames(bc, o, rest, p, wh, false)
			c.ok(err == nil, wh, "after Reset only the new operations are sent", "%v", err)
			c.pathOf(st)
		}
		return
	}
	if err != nil {
		c.fail(wh, "earlier bytes are preserved", "%v", err)
		c.pathOf(st)
		return
	}
	if c.id == "C09" {
		// the outcome of the transmission is reported
		c.ok(valKey(res.args[1]) == valKey(SymV{name: "sinkerr", typ: errorType}), wh, "Send returns the sender's error", "Send returns %s", valStr(res.args[1]))
		_, _, enc := sentOf(st)
		c.ok(enc == nil, wh, "a failed step suppresses transmission", "transmitted although encoding failed")
		c.pathOf(st)
		return
	}
	err = c.frames(bc, o, rest, p, wh, true)
	switch c.id {
	case "C01":
		c.ok(err == nil, wh, "complete frames of the right types in call order", "%v", err)
		c.pathOf(st)
	case "C03":
		c.ok(err == nil, wh, "bodies decode as their message", "%v", err)
		c.pathOf(st)
	default:
		if err != nil {
			c.fail(wh, "content", "%v", err)
			c.pathOf(st)
		}
	}
	if c.id == "C05" && len(bc.refs) > 0 && err == nil {
		for i := range bc.refs {
			for j := 0; j < i; j++ {
				a, e1 := refVar(o, i)
				b, e2 := refVar(o, j)
				c.ok(e1 == nil && e2 == nil && st.differ(a, b), wh, "each InsertRow has its own variable", "%s and %s may be equal", clip(seqStr(a)), clip(seqStr(b)))
				c.pathOf(st)
			}
		}
	}
	if len(c.Samples) < 3 {
		c.sample(bc.driver + ": " + seqStr(sent[0].seq))
	}
}

// frames decodes what follows the earlier bytes and compares it with the expectation, as far as property c.id asks.
func (c *Ctx) frames(bc BCase, o *Outcome, q []Seg, p *Params, wh string, own bool) error {
	st := o.st
	body := c.id != "C01" && c.id != "C02"
	d := &Decoder{sc: c.w.schema}
	return try(func() {
		fs := d.framesOf(st, q, body)
		c.Frames += d.frames
		c.Fields += d.fields
		if len(fs) != len(bc.frames) {
			derr("%d messages instead of %d", len(fs), len(bc.frames))
		}
		for i, f := range fs {
			want := bc.frames[i]
			if f.def.name != want.msg {
				derr("message %d is a %s instead of a %s", i, f.def.name, want.msg)
			}
			if !body || want.spec == nil || !owns(c.id, want.group) {
				continue
			}
			err := want.spec(p, o).match(st, f.msg)
			c.ok(err == nil, wh, "message "+f.def.name+" carries what was given", "%v", err)
			c.pathOf(st)
		}
	})
}

func owns(id, group string) bool {
	switch id {
	case "C04":
		return group == "sql"
	case "C05":
		return group == "crud"
	case "C10":
		return group == "tx"
	case "C11":
		return group == "expect"
	case "C12":
		return true
	}
	return false
}

func hasGroup(bc BCase, gs ...string) bool {
	for _, f := range bc.frames {
		for _, g := range gs {
			if f.group == g {
				return true
			}
		}
	}
	return false
}

func caseJobs(sel func(bc BCase) bool) func(tier string) []Job {
	return func(tier string) []Job {
		var js []Job
		for _, bc := range builderCases {
			bc := bc
			if bc.thorough && tier != "thorough" || !sel(bc) {
				continue
			}
			js = append(js, Job{bc.name(), bc.cost, func(c *Ctx) { c.runCase(bc) }})
		}
		return js
	}
}

var _ = fmt.Sprint
