package main

// Expression constructors: C08.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// conSpec is what a constructor has to denote.
type conSpec struct {
	op   string // operator
	fn   string // or function
	unit bool   // the last argument is a unit, transmitted as octets
	col  bool   // a column reference
}

var constructors = map[string]conSpec{
	"Column": {col: true}, "Default": {op: "default"},
	"Not": {op: "!"}, "Plus": {op: "sign_plus"}, "Minus": {op: "sign_minus"},
	"And": {op: "&&"}, "Or": {op: "||"}, "Xor": {op: "xor"},
	"Eq": {op: "=="}, "Neq": {op: "!="}, "Lte": {op: "<="}, "Lt": {op: "<"}, "Gt": {op: ">"}, "Gte": {op: ">="},
	"BitAnd": {op: "&"}, "BitOr": {op: "|"}, "BitXor": {op: "^"}, "LeftShift": {op: "<<"}, "RightShift": {op: ">>"},
	"Add": {op: "+"}, "Sub": {op: "-"}, "Mul": {op: "*"}, "Div": {op: "/"}, "IntDiv": {op: "div"}, "Mod": {op: "%"},
	"Is": {op: "is"}, "IsNot": {op: "is_not"}, "Regexp": {op: "regexp"}, "NotRegexp": {op: "not_regexp"},
	"Like": {op: "like"}, "NotLike": {op: "not_like"}, "ContIn": {op: "cont_in"}, "NotContIn": {op: "not_cont_in"},
	"Overlaps": {op: "overlaps"}, "NotOverlaps": {op: "not_overlaps"}, "Between": {op: "between"}, "NotBetween": {op: "not_between"},
	"In": {op: "in"}, "InV": {op: "in"}, "NotIn": {op: "not_in"}, "NotInV": {op: "not_in"},
	"DateAdd": {op: "date_add", unit: true}, "DateSub": {op: "date_sub", unit: true},
	"Concat": {fn: "CONCAT"}, "RowCount": {fn: "ROW_COUNT"}, "LastInsertID": {fn: "LAST_INSERT_ID"},
}

var dateUnits = map[string]string{
	"UnitMicroSecond": "MICROSECOND", "UnitSecond": "SECOND", "UnitMinute": "MINUTE", "UnitHour": "HOUR", "UnitDay": "DAY",
	"UnitWeek": "WEEK", "UnitMonth": "MONTH", "UnitQuarter": "QUARTER", "UnitYear": "YEAR",
	"UnitSecondMicrosecond": "SECOND_MICROSECOND", "UnitMinuteMicrosecond": "MINUTE_MICROSECOND", "UnitMinuteSecond": "MINUTE_SECOND",
	"UnitHourMicrosecond": "HOUR_MICROSECOND", "UnitHourSecond": "HOUR_SECOND", "UnitHourMinute": "HOUR_MINUTE",
	"UnitDayMicrosecond": "DAY_MICROSECOND", "UnitDaySecond": "DAY_SECOND", "UnitDayMinute": "DAY_MINUTE", "UnitDayHour": "DAY_HOUR",
}

func init() {
	intrinsics["xtadrv/rt.Make"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		f := in.prog.ImportedPackage(modPath).Func(in.op)
		if f == nil {
			undec("constructor %s is gone", in.op)
		}
		var args []Val
		for i, p := range f.Params {
			args = append(args, st.symVal(p.Type(), fmt.Sprintf("arg%d", i)))
		}
		return in.callFn(st, f, args, nil), true
	}
	var jobs []Job
	for _, n := range sortedKeys(constructors) {
		n := n
		cost := 1
		jobs = append(jobs, Job{n, cost, func(c *Ctx) { c.construct(n, constructors[n], "Construct") }})
	}
	for _, n := range []string{"Eq", "In", "NotIn", "InV", "Concat", "DateAdd", "Column", "Between"} {
		n := n
		jobs = append(jobs, Job{n + " again", 2, func(c *Ctx) { c.construct(n, constructors[n], "Construct2") }})
	}
	jobs = append(jobs, Job{"other constructors", 1, otherConstructors}, Job{"units", 1, unitConsts})
	register(&Check{id: "C08", level: "other", technique: technique + ": provenance of operands, frozen table of operators", needWorld: true, min: 150, assume: baseAssume,
		explain: "Every exported function of the root package that makes an expression is called abstractly with arbitrary operands and the expression built (also a second time); the transmitted Expr is parsed symbolically and must be the operator or function the frozen table (MySQL's X Protocol operator names) gives for that constructor, with exactly the operands in argument order. Constructors missing from the table must denote something else than those in it.",
		jobs:    func(string) []Job { return jobs }})
}

// conOperands are the operands of a constructor call, as element matchers over parameters.
func (c *Ctx) conOperands(f *ssa.Function, cs conSpec) (n func(st *State) *Lin, at func(i *Lin) FM) {
	type part struct {
		single FM
		list   *Sym
	}
	var ps []part
	for i, p := range f.Params {
		name := fmt.Sprintf("arg%d", i)
		p := p
		switch u := p.Type().Underlying().(type) {
		case *types.Slice:
			ps = append(ps, part{list: mkSym(name, lenVar(name), u.Elem())})
		case *types.Interface:
			ps = append(ps, part{single: ValOf(func(st *State) Val { return st.symVal(p.Type(), name) })})
		case *types.Basic:
			if cs.unit && u.Info()&types.IsString != 0 {
				ps = append(ps, part{single: Msg(scalarSpec(false, "V_OCTETS", octets(func(st *State) []Seg { return st.symVal(p.Type(), name).(Str).seq }, nil, "")))})
				continue
			}
			ps = append(ps, part{single: func(st *State, f DField) error { return merr("operand %s cannot be checked", name) }})
		}
	}
	n = func(st *State) *Lin {
		t := K(0)
		for _, p := range ps {
			if p.list != nil {
				t = Add(t, p.list.n)
			} else {
				t = AddK(t, 1)
			}
		}
		return t
	}
	at = func(i *Lin) FM {
		return func(st *State, f DField) error {
			base := K(0)
			for _, p := range ps {
				if p.list == nil {
					if st.linEq(i, base) {
						return p.single(st, f)
					}
					base = AddK(base, 1)
					continue
				}
				// the list is last: everything from base on
				y, k := st.evalB(BGe(Sub(i, base)))
				if k && y {
					return ValOf(func(st *State) Val { return st.symElem(p.list, Sub(i, base)) })(st, f)
				}
				base = Add(base, p.list.n)
			}
			return merr("operand %s is not one of the arguments", i)
		}
	}
	return
}

func (c *Ctx) conExpr(f *ssa.Function, cs conSpec) MSpec {
	n, at := c.conOperands(f, cs)
	switch {
	case cs.col:
		return MSpec{One(fno(mExpr, "type"), NumK(enumVal(mExpr, "type", "IDENT"))),
			One(fno(mExpr, "identifier"), Msg(MSpec{One(fno(mColID, "name"), Bytes(func(st *State) []Seg { return st.symVal(f.Params[0].Type(), "arg0").(Str).seq }))}))}
	case cs.fn != "":
		return MSpec{One(fno(mExpr, "type"), NumK(enumVal(mExpr, "type", "FUNC_CALL"))),
			One(fno(mExpr, "function_call"), Msg(MSpec{
				One(fno(mFunc, "name"), Msg(MSpec{One(fno(mIdent, "name"), func(st *State, f DField) error {
					if l, ok := st.litOf(f.seq); !ok || !strings.EqualFold(l, cs.fn) {
						return merr("function %s instead of %s", clip(seqStr(f.seq)), cs.fn)
					}
					return nil
				})})),
				Each(fno(mFunc, "param"), n, at),
			}))}
	}
	return MSpec{One(fno(mExpr, "type"), NumK(enumVal(mExpr, "type", "OPERATOR"))),
		One(fno(mExpr, "operator"), Msg(MSpec{One(fno(mOper, "name"), LitB(cs.op)), Each(fno(mOper, "param"), n, at)}))}
}

func (c *Ctx) construct(name string, cs conSpec, driver string) {
	f := c.w.prog.ImportedPackage(modPath).Func(name)
	if f == nil {
		return // not offered any more
	}
	wh := relPos(c.w.prog.Fset.Position(f.Pos()).String()) + " " + name
	r := c.drive(driver, func(in *Interp, st *State) { in.op = name })
	sp := MSpec{
		One(fno(mDelete, "collection"), func(*State, DField) error { return nil }),
		OneOr(fno(mDelete, "data_model"), func(*State, DField) error { return nil }, func(*State) bool { return true }),
		One(fno(mDelete, "criteria"), Msg(c.conExpr(f, cs))),
	}
	nsent := 0
	for i := range r.outs {
		o := &r.outs[i]
		if o.panic {
			c.fail(o.st.pan.pos, "no operand makes the constructor panic", "%s: %s", wh, o.st.pan.msg)
			c.pathOf(o.st)
			continue
		}
		sent, _, enc := sentOf(o.st)
		if len(sent) == 0 {
			c.ok(enc != nil, wh, "the expression is transmitted", "refused although every operand can be encoded")
			c.pathOf(o.st)
			continue
		}
		nsent++
		err := c.delSpec(o.st, sent[0], sp)
		c.ok(err == nil, wh, "the constructor denotes its operator and operands", "%v", err)
		c.pathOf(o.st)
		if len(c.Samples) < 3 {
			c.sample(name + ": " + seqStr(sent[0].seq))
		}
	}
	c.ok(nsent > 0, wh, "the expression can be transmitted", "no path transmits it")
	c.count("constructors", 1)
}

func (c *Ctx) delSpec(st *State, sent *Event, sp MSpec) (err error) {
	if e := try(func() {
		q := st.expand(sent.seq)
		_, rest := st.cut(q, lenVar("prefix"))
		d := &Decoder{sc: c.w.schema}
		fs := d.framesOf(st, rest, true)
		c.Frames += d.frames
		c.Fields += d.fields
		if len(fs) != 1 || fs[0].def.name != mDelete {
			derr("not one Delete message")
		}
		err = sp.match(st, fs[0].msg)
	}); e != nil {
		return e
	}
	return err
}

// otherConstructors: exported functions making expressions that the table does not know.
func otherConstructors(c *Ctx) {
	root := c.w.prog.ImportedPackage(modPath)
	known := map[string]string{}
	for n, cs := range constructors {
		known[cs.op+"|"+cs.fn] = n
	}
	n := 0
	for _, name := range root.Pkg.Scope().Names() {
		f := root.Func(name)
		if f == nil || !token.IsExported(name) || f.Signature.Results().Len() != 1 {
			continue
		}
		if types.TypeString(types.Unalias(f.Signature.Results().At(0).Type()), nil) != modPath+"/xproto.AppendExprFunc" {
			continue
		}
		n++
		if _, ok := constructors[name]; ok {
			continue
		}
		wh := relPos(c.w.prog.Fset.Position(f.Pos()).String()) + " " + name
		r := c.drive("Construct", func(in *Interp, st *State) { in.op = name })
		for i := range r.outs {
			o := &r.outs[i]
			sent, _, _ := sentOf(o.st)
			if o.panic || len(sent) == 0 {
				continue
			}
			key := ""
			grab := func(pre, post string) FM {
				return func(st *State, f DField) error {
					l, ok := st.litOf(f.seq)
					if ok {
						key = pre + l + post
					}
					return nil
				}
			}
			any := func(num int) FSpec {
				return OneOr(num, func(*State, DField) error { return nil }, func(*State) bool { return true })
			}
			var ops MSpec
			for num := range theSchema.msgs[mExpr].fields {
				if num != fno(mExpr, "operator") && num != fno(mExpr, "function_call") {
					ops = append(ops, any(num))
				}
			}
			all := func(num int) FSpec {
				var seen *Lin
				return Each(num, func(*State) *Lin { return seen }, func(i *Lin) FM {
					return func(st *State, f DField) error { seen = AddK(i, 1); return nil }
				})
			}
			_ = all
			ops = append(ops, OneOr(fno(mExpr, "operator"), func(st *State, f DField) error {
				for _, g := range f.msg.f {
					if g.star == nil && g.num == fno(mOper, "name") {
						grab("", "|")(st, g)
					}
				}
				return nil
			}, func(*State) bool { return true }), OneOr(fno(mExpr, "function_call"), func(st *State, f DField) error {
				for _, g := range f.msg.f {
					if g.star == nil && g.num == fno(mFunc, "name") && g.msg != nil {
						for _, h := range g.msg.f {
							if h.num == fno(mIdent, "name") {
								grab("|", "")(st, h)
							}
						}
					}
				}
				return nil
			}, func(*State) bool { return true }))
			sp := MSpec{any(fno(mDelete, "collection")), any(fno(mDelete, "data_model")), One(fno(mDelete, "criteria"), Msg(ops))}
			if err := c.delSpec(o.st, sent[0], sp); err != nil || key == "" {
				continue
			}
			same := known[key]
			alias := strings.TrimSuffix(same, "V") == strings.TrimSuffix(name, "V")
			c.ok(same == "" || alias, wh, "different constructors denote different operations", "%s and %s both denote %s", name, same, strings.Trim(key, "|"))
			if same == "" {
				known[key] = name
			}
		}
	}
	c.ok(n > 20, modPath, "the constructors are present", "only %d found", n)
}

func unitConsts(c *Ctx) {
	sc := c.w.prog.ImportedPackage(modPath).Pkg.Scope()
	seen := map[string]string{}
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || k.Val().Kind() != constant.String || !strings.HasSuffix(k.Type().String(), ".DateUnit") {
			continue
		}
		v := constant.StringVal(k.Val())
		wh := relPos(c.w.prog.Fset.Position(k.Pos()).String()) + " " + n
		if w, ok := dateUnits[n]; ok {
			c.ok(v == w, wh, "the unit constant names its unit", "%s is %q instead of %q", n, v, w)
		}
		c.ok(seen[v] == "", wh, "different units are different", "%s and %s are both %q", n, seen[v], v)
		seen[v] = n
	}
}
