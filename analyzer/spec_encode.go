package main

// The encoders of the xproto package a caller may use directly: session, authentication, capability and
// expectation messages, and the expressions no constructor of the main package builds.

type encCase struct {
	driver string
	msg    string
	group  string // "expect": C11 compares the content
	fresh  bool   // the message is built on its own rather than appended
	spec   func(p *Params, st *State) MSpec
}

const (
	mOpen = "Mysqlx.Expect.Open"
	mCond = "Mysqlx.Expect.Open.Condition"
	mCap  = "Mysqlx.Connection.CapabilitiesSet"
)

func condKey(s string) int64 {
	return int64(theSchema.enums["Mysqlx.Expect.Open.Condition.Key"].vals[s])
}

func condNoError(p *Params, st *State, name string) FM {
	want := "0"
	if b, ok := p.val(st, name).(Bool); ok {
		v, k := st.evalB(b)
		if !k {
			return func(*State, DField) error { return merr("the condition does not depend on the flag") }
		}
		if v {
			want = "1"
		}
	}
	return Msg(MSpec{One(fno(mCond, "condition_key"), NumK(condKey("EXPECT_NO_ERROR"))), One(fno(mCond, "condition_value"), LitB(want))})
}

func condField(p *Params, name string) FM {
	return Msg(MSpec{One(fno(mCond, "condition_key"), NumK(condKey("EXPECT_FIELD_EXIST"))), OneOr(fno(mCond, "condition_value"), Bytes(p.str(name)), func(st *State) bool {
		v, k := st.evalB(BEq(lenVar(name)))
		return k && v
	})})
}

func openSpec(op string, conds ...FM) MSpec {
	v := enumVal(mOpen, "op", op)
	s := MSpec{OneOr(fno(mOpen, "op"), NumK(v), func(*State) bool { return v == enumVal(mOpen, "op", "EXPECT_CTX_COPY_PREV") })}
	if len(conds) == 1 {
		return append(s, One(fno(mOpen, "cond"), conds[0]))
	}
	return append(s, Each(fno(mOpen, "cond"), func(*State) *Lin { return K(int64(len(conds))) }, func(i *Lin) FM {
		return func(st *State, f DField) error {
			if k := st.facts.constOf(i); k != nil && k.IsInt64() && k.Int64() < int64(len(conds)) {
				return conds[k.Int64()](st, f)
			}
			return merr("a condition too many")
		}
	}))
}

var encCases = []encCase{
	{driver: "EncReset", msg: "Mysqlx.Session.Reset"},
	{driver: "EncAuthStart", msg: mAuthStart, fresh: true},
	{driver: "EncAuthContinue", msg: mAuthCont, fresh: true},
	{driver: "EncCapability", msg: mCap, fresh: true},
	{driver: "EncOpen", msg: mOpen, group: "expect", spec: func(p *Params, st *State) MSpec { return openSpec("EXPECT_CTX_EMPTY") }},
	{driver: "EncOpenNoError", msg: mOpen, group: "expect", spec: func(p *Params, st *State) MSpec {
		return openSpec("EXPECT_CTX_COPY_PREV", condNoError(p, st, "v"))
	}},
	{driver: "EncOpenField", msg: mOpen, group: "expect", spec: func(p *Params, st *State) MSpec {
		return openSpec("EXPECT_CTX_EMPTY", condField(p, "field"))
	}},
	{driver: "EncOpenBoth", msg: mOpen, group: "expect", spec: func(p *Params, st *State) MSpec {
		return openSpec("EXPECT_CTX_COPY_PREV", condField(p, "f1"), condNoError(p, st, "v"), condField(p, "f2"))
	}},
	{driver: "EncClose", msg: "Mysqlx.Expect.Close", group: "expect", spec: func(p *Params, st *State) MSpec { return MSpec{} }},
	{driver: "EncPlaceholder", msg: mDelete},
	{driver: "EncVariable", msg: mDelete},
	{driver: "EncColumn", msg: mDelete},
}

func (c *Ctx) runEnc(ec encCase) {
	r := c.drive(ec.driver, nil)
	p := c.params(ec.driver)
	wh := "encoder entry " + ec.driver
	n := 0
	for i := range r.outs {
		o := &r.outs[i]
		st := o.st
		if o.panic {
			c.fail(st.pan.pos, "building a message never panics", "%s: %s", wh, st.pan.msg)
			c.pathOf(st)
			continue
		}
		for _, e := range st.events() {
			if e.name != "out" {
				continue
			}
			n++
			err := try(func() {
				q := st.expand(e.seq)
				if !ec.fresh {
					pre := p.str("p")(st)
					a, b := st.cut(q, seqLen(pre))
					if !st.sameSeq(a, pre) {
						derr("the bytes already built changed: %s", clip(seqStr(a)))
					}
					q = b
				}
				d := &Decoder{sc: c.w.schema}
				fs := d.framesOf(st, q, true)
				c.Frames += d.frames
				c.Fields += d.fields
				if len(fs) != 1 || fs[0].def.name != ec.msg {
					derr("not one message %s", ec.msg)
				}
				if c.id != "C03" && ec.spec != nil {
					if e := ec.spec(p, st).match(st, fs[0].msg); e != nil {
						derr("%v", e)
					}
				}
			})
			rule := "bodies decode as their message"
			if c.id != "C03" {
				rule = "the message carries the requested keys and values"
			}
			c.ok(err == nil, wh, rule, "%v", err)
			c.pathOf(st)
		}
	}
	c.ok(n > 0, wh, "the message can be built", "no path builds it")
}

func encJobs(group string) []Job {
	var js []Job
	for _, ec := range encCases {
		ec := ec
		if group == "" || ec.group == group {
			js = append(js, Job{ec.driver, 1, func(c *Ctx) { c.runEnc(ec) }})
		}
	}
	return js
}

func withEncoders(jobs func(tier string) []Job) func(tier string) []Job {
	return func(tier string) []Job { return append(jobs(tier), encJobs("")...) }
}
