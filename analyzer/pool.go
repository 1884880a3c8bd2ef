package main

// C20, C21: a thread-modular analysis of the connection pool.
//
// The pool's fields may only be touched under its mutex. The set of values they can have when the mutex is free is
// computed as a fixpoint over all exported methods: at each acquisition any of them may be found (other callers ran
// in between), at each release the values left behind are added. Values left by a completed Close, and those any
// method makes of them, are the closed ones. What the channel holds is unknown at every moment.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type poolVal struct {
	fields []string // canonical values of the fields
	closed []bool   // of the channels
	after  bool     // a Close has completed
}

func (v poolVal) key() string { return fmt.Sprint(v.fields, v.closed, v.after) }

type PoolCtx struct {
	vals     map[string]poolVal // what may be found at an acquisition
	rely     func(v poolVal) bool
	mayClose bool // some method closes the channel without the mutex
	grew     bool
	written  map[int]bool // fields some method writes
	wrote    map[int]bool
	races    map[string]string
	blocks   map[string]string
	obj      int
	typ      *types.Struct
	init     []Val
	chans    []int
	initial  poolVal
	shared   bool
	name     string
}

func (p *PoolCtx) held(st *State) bool {
	for k, n := range st.locks {
		if n > 0 && strings.HasPrefix(k, fmt.Sprintf("%d/", p.obj)) || n > 0 && k == fmt.Sprint(p.obj) {
			return true
		}
	}
	return false
}

func (p *PoolCtx) sawClose() {
	if !p.mayClose {
		p.mayClose = true
		p.grew = true
	}
}

// everClosed: some sequence of calls leaves a channel closed.
func (p *PoolCtx) everClosed() bool {
	for _, v := range p.vals {
		for _, c := range v.closed {
			if c {
				return true
			}
		}
	}
	return false
}

func (p *PoolCtx) block(pos, what string) { p.blocks[pos] = what }

// phase: has the pool been seen closed on this path?
func (p *PoolCtx) phase(st *State) Val {
	if v, ok := st.ghost["pool:after"]; ok {
		return v
	}
	return BConst(false)
}

// current: is ch what the pool's fields hold now (the mutex being held)?
func (p *PoolCtx) current(st *State, ch Val) bool {
	s, ok := st.obj(p.obj).val.(Struct)
	if !ok {
		return false
	}
	for _, f := range s.f {
		if c, ok := f.(ChanV); ok && c == ch {
			return true
		}
	}
	return false
}

func isSync(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// canon is the canonical form of the pool's fields.
func (p *PoolCtx) canon(st *State) poolVal {
	s, ok := st.obj(p.obj).val.(Struct)
	if !ok {
		undec("the pool is not a struct")
	}
	var v poolVal
	for i, f := range s.f {
		v.fields = append(v.fields, p.canonField(st, i, f))
	}
	for _, c := range p.chans {
		b, ok := st.obj(c).x["closed"].(Bool)
		if !ok || b.op != 0 {
			undec("channel state")
		}
		v.closed = append(v.closed, b.v)
	}
	return v
}

func (p *PoolCtx) canonField(st *State, i int, f Val) string {
	if isSync(p.typ.Field(i).Type()) {
		return "-"
	}
	switch x := f.(type) {
	case ChanV:
		for k, c := range p.chans {
			if c == x.obj {
				return fmt.Sprintf("chan%d", k)
			}
		}
		undec("a pool field holds a channel made later")
	case Nil:
		return "nil"
	case Bool:
		if x.op == 0 {
			return fmt.Sprint(x.v)
		}
	case *Lin:
		if x.isConst() {
			return x.String()
		}
	}
	if sameVal(st, p.init[i], f) {
		return "init"
	}
	undec("field %s of the pool holds %s", p.typ.Field(i).Name(), valStr(f))
	return ""
}

// apply gives the pool's fields the values v.
func (p *PoolCtx) apply(st *State, v poolVal) {
	w := st.wobj(p.obj)
	s := w.val.(Struct)
	n := Struct{typ: s.typ, f: append([]Val{}, s.f...)}
	for i, c := range v.fields {
		ft := p.typ.Field(i).Type()
		switch {
		case c == "-":
		case c == "init":
			n.f[i] = p.init[i]
		case c == "nil":
			n.f[i] = Nil{ft}
		case strings.HasPrefix(c, "chan"):
			var k int
			fmt.Sscan(c[4:], &k)
			n.f[i] = ChanV{p.chans[k]}
		case c == "true" || c == "false":
			n.f[i] = BConst(c == "true")
		default:
			var k int64
			fmt.Sscan(c, &k)
			n.f[i] = K(k)
		}
	}
	w.val = n
	for k, c := range v.closed {
		st.wobj(p.chans[k]).x["closed"] = BConst(c)
	}
	if v.after {
		st.ghost["pool:after"] = BConst(true)
	}
}

func (p *PoolCtx) add(v poolVal) {
	if _, ok := p.vals[v.key()]; !ok {
		p.vals[v.key()] = v
		p.grew = true
	}
}

func (p *PoolCtx) onLock(in *Interp, st *State, mu Val, d int, pos token.Pos) []Outcome {
	m, ok := mu.(Ptr)
	if !ok || !p.shared || m.obj != p.obj {
		return nil
	}
	k := lockKey(mu)
	if d < 0 {
		if st.locks[k] == 0 {
			panic(goPanic{msg: "unlock of unlocked mutex"})
		}
		st.locks[k] += d
		v := p.canon(st)
		a, _ := p.phase(st).(Bool)
		v.after = a.v
		p.add(v)
		st.event("release", mkStr(v.key()))
		return one(st)
	}
	if st.locks[k] > 0 {
		p.block(in.pos(pos), "lock already held")
		return []Outcome{}
	}
	var outs []Outcome
	keys := make([]string, 0, len(p.vals))
	for k := range p.vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	seen, _ := p.phase(st).(Bool)
	for _, key := range keys {
		v := p.vals[key]
		if p.rely != nil && !p.rely(v) || seen.v && !v.after {
			continue // once closed, always closed: the closed values are those every method keeps
		}
		s := st.clone()
		s.locks[k] += d
		p.apply(s, v)
		s.event("acquire", mkStr(key)).pos = in.pos(pos)
		outs = append(outs, Outcome{st: s})
	}
	return outs
}

// onAccess: the pool's fields are only touched under the mutex, unless no method writes them.
func (p *PoolCtx) onAccess(in *Interp, st *State, ptr Ptr, write bool, pos string) {
	if !p.shared || ptr.obj != p.obj {
		return
	}
	if ptr.path == "" {
		if write {
			p.races[pos] = "the whole pool is written"
		}
		return
	}
	i := 0
	fmt.Sscan(strings.Split(ptr.path[1:], "/")[0], &i)
	if isSync(p.typ.Field(i).Type()) {
		return
	}
	if write && !p.written[i] {
		p.written[i] = true
		p.grew = true
	}
	if !p.held(st) && p.written[i] {
		w := "read"
		if write {
			w = "written"
		}
		p.races[pos] = fmt.Sprintf("field %s is %s without the mutex", p.typ.Field(i).Name(), w)
	}
}

func (p *PoolCtx) share(in *Interp, st *State, v Val) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	ptr, ok := v.(Ptr)
	if !ok || ptr.path != "" {
		undec("the pool is not a pointer to a struct")
	}
	p.obj = ptr.obj
	s, ok := st.obj(p.obj).val.(Struct)
	if !ok {
		undec("the pool is not a struct")
	}
	p.typ = s.typ.Underlying().(*types.Struct)
	p.init = append([]Val{}, s.f...)
	p.chans = nil
	for _, f := range s.f {
		if c, ok := f.(ChanV); ok {
			p.chans = append(p.chans, c.obj)
		}
	}
	p.shared = true
	p.initial = p.canon(st)
	p.add(p.initial)
}

// run interprets one method under interference.
func (p *PoolCtx) run(c *Ctx, driver string, rely func(v poolVal) bool, prep func(st *State)) *Run {
	p.shared, p.rely = false, rely
	return c.w.drive(driver, func(in *Interp, st *State) {
		in.pool = p
		for _, n := range []string{"ctx", "cn"} {
			st.assumeB(st.nilTest(SymV{name: n}), false)
		}
		in.onLock = p.onLock
		if prep != nil {
			prep(st)
		}
	})
}

// newPool computes the fixpoint.
func newPool(c *Ctx) *PoolCtx {
	p := &PoolCtx{vals: map[string]poolVal{}, written: map[int]bool{}, races: map[string]string{}, blocks: map[string]string{}}
	for pass := 0; pass < 12; pass++ {
		p.grew = false
		p.races, p.blocks = map[string]string{}, map[string]string{}
		for _, d := range []string{"PoolSend", "PoolClose"} {
			r := p.run(c, d, nil, nil)
			if r.und != "" {
				c.fail("pool", "every path is decided", "undecided: %s", r.und)
				return nil
			}
			if d != "PoolClose" {
				continue
			}
			for _, o := range r.outs {
				last := ""
				for _, e := range o.st.events() {
					if e.name == "release" {
						last, _ = o.st.litOf(e.args[0].(Str).seq)
					}
				}
				v, ok := p.vals[last]
				if o.panic || !ok {
					continue
				}
				v.after = true
				p.add(v)
			}
		}
		if !p.grew {
			c.count("pool_states", len(p.vals))
			return p
		}
	}
	c.fail("pool", "every path is decided", "undecided: the pool's states do not stabilise")
	return nil
}

// connTypes tracks each connection through the events of a path.
type connUse struct {
	name   string
	from   string // take, dial
	used   int
	failed bool
	put    int
	closed int
	bad    string
}

func trackConns(evs []*Event) (map[string]*connUse, []string) {
	m := map[string]*connUse{}
	var order []string
	get := func(v Val) *connUse {
		s, ok := v.(SymV)
		if !ok {
			n := "unknown:" + valStr(v)
			if m[n] == nil {
				m[n] = &connUse{name: n, bad: "not a connection of this call"}
				order = append(order, n)
			}
			return m[n]
		}
		if m[s.name] == nil {
			m[s.name] = &connUse{name: s.name}
			order = append(order, s.name)
		}
		return m[s.name]
	}
	for _, e := range evs {
		switch e.name {
		case "take", "dial":
			get(e.args[0]).from = e.name
		case "use", "usefail", "put", "connclose":
			u := get(e.args[0])
			if u.from == "" && u.bad == "" {
				u.bad = e.name + " of a connection this call does not have"
			}
			if u.put > 0 && u.bad == "" {
				u.bad = e.name + " after it was put back"
			}
			if u.closed > 0 && u.bad == "" {
				u.bad = e.name + " after it was closed"
			}
			switch e.name {
			case "use":
				u.used++
			case "usefail":
				u.used++
				u.failed = true
			case "put":
				u.put++
			case "connclose":
				u.closed++
			}
		}
	}
	return m, order
}

// eventLists yields the events of a path and of each iteration of its loops.
func eventLists(evs []*Event, f func(evs []*Event, loop bool)) {
	f(evs, false)
	for _, e := range evs {
		if e.star != nil {
			for _, a := range e.star.alts {
				eventLists(a.evs, func(x []*Event, _ bool) { f(x, true) })
			}
		}
	}
}

func poolRule(o *Outcome) string { return strings.Join(o.st.trail, " ") }

// ownership checks C20 on one path.
func (c *Ctx) ownership(o *Outcome, wh string) (uses int) {
	eventLists(o.st.events(), func(evs []*Event, loop bool) {
		m, order := trackConns(evs)
		for _, n := range order {
			u := m[n]
			c.ok(u.bad == "", wh, "a connection is used only between taking it and putting it back or closing it", "%s: %s", n, u.bad)
			c.pathOf(o.st)
			c.ok(u.bad != "" || u.put+u.closed == 1, wh, "a connection is put back or closed exactly once", "%s (%s) is put back %d times and closed %d times", n, u.from, u.put, u.closed)
			c.pathOf(o.st)
			c.ok(!(u.failed && u.put > 0), wh, "a connection on which the call failed is never handed out again", "%s failed and is put back", n)
			c.pathOf(o.st)
			uses += u.used
		}
	})
	return
}

func (c *Ctx) races(p *PoolCtx) {
	for _, pos := range sortedKeys(p.races) {
		c.fail(pos, "the pool's shared fields are only touched under its mutex", "%s", p.races[pos])
	}
	for _, pos := range sortedKeys(p.blocks) {
		c.fail(pos, "no call blocks for ever", "%s may never proceed", p.blocks[pos])
	}
	c.ok(true, "pool", "shared fields and blocking operations examined", "")
}

func poolErr(in *Interp, st *State) Val {
	for g, id := range st.glob {
		if g.Name() == "ErrPoolClosed" && g.Pkg.Pkg.Path() == modPath+"/netx/pool" {
			return st.obj(id).val
		}
	}
	return nil
}

func (c *Ctx) poolC20() {
	p := newPool(c)
	if p == nil {
		return
	}
	c.races(p)
	for _, mode := range []string{"any", "done"} {
		mode := mode
		r := p.run(c, "PoolSend", nil, func(st *State) {
			if mode == "done" {
				st.ghost["ctxdone:ctx"] = BConst(true)
			}
		})
		c.account(r)
		n := 0
		for i := range r.outs {
			o := &r.outs[i]
			wh := "pool Send"
			if mode == "done" {
				wh = "pool Send with a finished context"
			}
			if o.panic {
				c.fail(o.st.pan.pos, "sending never panics", "%s: %s", wh, o.st.pan.msg)
				c.pathOf(o.st)
				continue
			}
			uses := c.ownership(o, wh)
			var res, use *Event
			fails, dialfail := false, false
			var order []string
			for _, e := range o.st.events() {
				switch e.name {
				case "result":
					res = e
				case "use", "usefail":
					use = e
					fails = e.name == "usefail"
				case "dialfail":
					dialfail = true
				}
				order = append(order, e.name)
			}
			if res == nil {
				c.fail(wh, "every path ends with a result", "no result")
				continue
			}
			n++
			failed := r.in.knownNonNil(o.st, res.args[1])
			succeeded := r.in.knownNil(o.st, res.args[1])
			if mode == "done" {
				c.ok(uses == 0 && failed, wh, "a finished context is reported without using a connection", "%d connections used, error %s", uses, valStr(res.args[1]))
				c.pathOf(o.st)
				continue
			}
			c.ok(uses <= 1, wh, "one call uses one connection", "%d uses", uses)
			c.pathOf(o.st)
			if use == nil {
				c.ok(failed, wh, "without a connection the call fails", "returns error %s after %s", valStr(res.args[1]), strings.Join(order, " "))
				c.pathOf(o.st)
				if dialfail {
					c.ok(valKey(res.args[1]) == valKey(SymV{name: "!connerr", typ: errorType}) || r.in.wraps(o.st, res.args[1], "!connerr"), wh, "a connection failure is reported", "returns %s", valStr(res.args[1]))
				}
				continue
			}
			same := sameVal(o.st, use.args[2], o.st.symVal(types.NewSlice(byteType), "wt"))
			c.ok(same, wh, "the unit of work is passed on unchanged", "%s is passed", valStr(use.args[2]))
			c.pathOf(o.st)
			if fails {
				c.ok(failed && (valKey(res.args[1]) == valKey(SymV{name: "!senderr", typ: errorType}) || r.in.wraps(o.st, res.args[1], "!senderr")), wh, "a failed send is reported", "returns error %s", valStr(res.args[1]))
			} else {
				c.ok(succeeded, wh, "a successful send is reported as such", "returns error %s", valStr(res.args[1]))
				c.ok(sameVal(o.st, res.args[0], use.args[3]), wh, "the responses are those of the connection", "returns %s", valStr(res.args[0]))
			}
			c.pathOf(o.st)
		}
		c.ok(n > 0, "pool Send", "the pool can be used", "no path returns")
	}
}

// wraps: e wraps the named error.
func (in *Interp) wraps(st *State, e Val, name string) bool {
	for i := 0; i < 10; i++ {
		x, ok := e.(SymV)
		if !ok {
			return false
		}
		if x.name == name {
			return true
		}
		w, ok := st.ghost["wrap:"+x.name]
		if !ok {
			return false
		}
		e = w
	}
	return false
}

func (c *Ctx) poolC21() {
	p := newPool(c)
	if p == nil {
		return
	}
	c.races(p)
	after := func(v poolVal) bool { return v.after }
	nAfter := 0
	for _, v := range p.vals {
		if v.after {
			nAfter++
		}
	}
	c.ok(nAfter > 0, "pool Close", "closing reaches a state", "no path of Close completes under the mutex")

	// any method, any interleaving: no panic, nothing becomes idle in a closed pool
	for _, d := range []string{"PoolSend", "PoolClose"} {
		r := p.run(c, d, nil, nil)
		c.account(r)
		for i := range r.outs {
			o := &r.outs[i]
			wh := "pool " + d[4:]
			if o.panic {
				c.fail(o.st.pan.pos, "closing concurrently with other calls never panics", "%s: %s", wh, o.st.pan.msg)
				c.pathOf(o.st)
				continue
			}
			eventLists(o.st.events(), func(evs []*Event, _ bool) {
				for _, e := range evs {
					if e.name != "put" {
						continue
					}
					held, _ := e.args[2].(Bool)
					ph, _ := e.args[3].(Bool)
					cur, _ := e.args[4].(Bool)
					c.ok(held.v && cur.v && !ph.v, e.pos, "a connection becomes idle only in a pool known to be open", "%s puts a connection back although the pool may have been closed meanwhile", wh)
					c.pathOf(o.st)
				}
			})
			if d == "PoolClose" {
				c.checkDrain(p, o, wh)
			}
		}
	}
	// after a Close
	r := p.run(c, "PoolSend", after, nil)
	c.account(r)
	for i := range r.outs {
		o := &r.outs[i]
		wh := "pool Send after Close"
		if o.panic {
			c.fail(o.st.pan.pos, "sending on a closed pool never panics", "%s: %s", wh, o.st.pan.msg)
			c.pathOf(o.st)
			continue
		}
		var res *Event
		used := ""
		for _, e := range o.st.events() {
			switch e.name {
			case "result":
				res = e
			case "take", "dial", "use", "usefail", "put":
				used = e.name
			}
		}
		if res == nil {
			c.fail(wh, "every path ends with a result", "no result")
			continue
		}
		want := poolErr(r.in, o.st)
		c.ok(used == "", wh, "a closed pool uses no connection", "%s happens", used)
		c.pathOf(o.st)
		is := want != nil && (valKey(want) == valKey(res.args[1]))
		if w, ok := want.(SymV); ok && !is {
			is = r.in.wraps(o.st, res.args[1], w.name)
		}
		c.ok(is, wh, "sending on a closed pool returns the pool-closed error", "returns %s", valStr(res.args[1]))
		c.pathOf(o.st)
	}
	r = p.run(c, "PoolClose", after, nil)
	c.account(r)
	for i := range r.outs {
		o := &r.outs[i]
		if o.panic {
			c.fail(o.st.pan.pos, "closing again never panics", "%s", o.st.pan.msg)
			c.pathOf(o.st)
		}
	}
}

// checkDrain: on return from Close every channel that held idle connections when the pool was marked closed has been
// seen empty after that, and every connection taken was closed.
func (c *Ctx) checkDrain(p *PoolCtx, o *Outcome, wh string) {
	eventLists(o.st.events(), func(evs []*Event, _ bool) {
		m, order := trackConns(evs)
		for _, n := range order {
			u := m[n]
			c.ok(u.closed == 1 && u.put == 0 && u.used == 0 && u.bad == "", wh, "Close closes every idle connection once", "%s is closed %d times (%s)", n, u.closed, u.bad)
			c.pathOf(o.st)
		}
	})
	var open poolVal // what was found when the pool was marked closed
	marked := false
	var empty = map[int]bool{}
	chan0 := func(v poolVal) []int {
		var r []int
		for _, f := range v.fields {
			if strings.HasPrefix(f, "chan") {
				k := 0
				fmt.Sscan(f[4:], &k)
				r = append(r, p.chans[k])
			}
		}
		return r
	}
	var acq poolVal
	for _, e := range o.st.events() {
		switch e.name {
		case "acquire":
			k, _ := o.st.litOf(e.args[0].(Str).seq)
			acq = p.vals[k]
			if !marked {
				empty = map[int]bool{}
			}
		case "release":
			k, _ := o.st.litOf(e.args[0].(Str).seq)
			if v := p.vals[k]; fmt.Sprint(v.fields, v.closed) != fmt.Sprint(acq.fields, acq.closed) {
				open, marked = acq, true // nothing is put without the mutex, so what was empty under it stays so
			}
		case "empty":
			if ch, ok := e.args[0].(ChanV); ok {
				empty[ch.obj] = true
			}
		}
	}
	if !marked {
		// the pool was closed already, or closing changes nothing (then Send after Close is not refused)
		return
	}
	for _, ch := range chan0(open) {
		c.ok(empty[ch], wh, "Close returns only after no idle connection is left", "the idle connections are not drained after the pool was marked closed")
		c.pathOf(o.st)
	}
}

func init() {
	intrinsics["xtadrv/rt.Share"] = func(in *Interp, st *State, a []Val, fn *ssa.Function, pos token.Pos) ([]Outcome, bool) {
		if in.pool == nil {
			undec("Share outside the pool analysis")
		}
		in.pool.share(in, st, a[0])
		return one(st), true
	}
	cm := modPath + "/netx."
	invokeModels["("+cm+"Sender).Send"] = func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		f := st.clone()
		resp := f.symVal(types.NewSlice(types.NewInterfaceType(nil, nil)), f.fresh("resp"))
		f.event("usefail", r, a[0], a[1], resp).pos = in.pos(pos)
		resp2 := st.symVal(types.NewSlice(types.NewInterfaceType(nil, nil)), st.fresh("resp"))
		st.event("use", r, a[0], a[1], resp2).pos = in.pos(pos)
		return []Outcome{{st: st, vals: []Val{resp2, Nil{errorType}}}, {st: f, vals: []Val{resp, SymV{name: "!senderr", typ: errorType}}}}
	}
	invokeModels["("+cm+"Conn).Close"] = func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		st.event("connclose", r).pos = in.pos(pos)
		return one(st, SymV{name: st.fresh("closeerr"), typ: errorType})
	}
	invokeModels["("+cm+"Conn).IsSecure"] = func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		return one(st, BAtom("secure("+r.name+")"))
	}
	invokeModels["("+cm+"Connector).New"] = func(in *Interp, st *State, r SymV, a []Val, pos token.Pos) []Outcome {
		f := st.clone()
		f.event("dialfail").pos = in.pos(pos)
		v := SymV{name: st.fresh("!dialled"), typ: nil}
		st.event("dial", v).pos = in.pos(pos)
		return []Outcome{{st: st, vals: []Val{v, Nil{errorType}}}, {st: f, vals: []Val{Nil{nil}, SymV{name: "!connerr", typ: errorType}}}}
	}
	register(&Check{id: "C20", level: "other", technique: technique + ": thread-modular ownership typestate of pooled connections", needWorld: true, min: 20, assume: append(append([]string{}, baseAssume...), "channels and mutexes behave as the Go specification says"),
		explain: "Send of the pool is interpreted abstractly under arbitrary interference: at each acquisition of the mutex the pool's fields have any value some sequence of calls can leave behind (computed as a fixpoint over all methods), at each channel operation the channel may hold anything. On every path each connection taken from the channel or dialled goes through used, then put back or closed exactly once, failed ones are closed, and the error returned tells whether the call succeeded.",
		jobs: func(tier string) []Job {
			return []Job{{"pool", 2, func(c *Ctx) { c.poolC20() }}}
		}})
	register(&Check{id: "C21", level: "other", technique: technique + ": thread-modular state-set fixpoint, lock-set discipline", needWorld: true, min: 8, assume: append(append([]string{}, baseAssume...), "channels and mutexes behave as the Go specification says"),
		explain: "Send and Close of the pool are interpreted abstractly under arbitrary interference. The fields some method writes are only touched under the mutex; no path panics, blocks for ever or puts a connection into the channel unless, under the mutex, the pool is known to be open; Close returns only after it saw the channel empty after marking the pool closed, having closed every connection it took; with the pool in any state a completed Close can leave, Send takes no connection and returns the pool-closed error.",
		jobs: func(tier string) []Job {
			return []Job{{"pool", 2, func(c *Ctx) { c.poolC21() }}}
		}})
}
