package main

// Tables decided on the type-checked program: collations, server error codes, generated bindings.

import (
	"embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//go:embed schema/*.json
var tablesFS embed.FS

func table(name string, v interface{}) {
	b, err := tablesFS.ReadFile("schema/" + name)
	must(err)
	must(json.Unmarshal(b, v))
}

type collTable struct {
	IDs    map[string]string `json:"ids"`
	Consts map[string]int64  `json:"consts"`
}

// constsOf are the package-level integer constants of a package.
func constsOf(p *types.Package) map[string]int64 {
	r := map[string]int64{}
	for _, n := range p.Scope().Names() {
		if c, ok := p.Scope().Lookup(n).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok && c.Val().Kind() == constant.Int {
				r[n] = v
			}
		}
	}
	return r
}

func (c *Ctx) posOf(p *packages.Package, n string) string {
	if o := p.Types.Scope().Lookup(n); o != nil {
		return relPos(p.Fset.Position(o.Pos()).String()) + " " + n
	}
	return p.PkgPath + "." + n
}

func relPos(s string) string { return strings.TrimPrefix(s, repoDir+"/") }

func (c *Ctx) pkg(path string) *packages.Package {
	p := c.w.byPath[modPath+"/"+path]
	if p == nil {
		panic(undecided("package " + path + " is gone"))
	}
	return p
}

func c24(c *Ctx) {
	var want map[string]int64
	table("errs.json", &want)
	p := c.pkg("netx/connection/errs")
	got := constsOf(p.Types)
	n := 0
	for _, k := range sortedKeys(want) {
		v, ok := got[k]
		if !ok {
			continue
		}
		n++
		c.ok(v == want[k], c.posOf(p, k), "the constant has MySQL's number", "%s is %d, MySQL assigns %d", k, v, want[k])
	}
	c.ok(n > len(want)/2, p.PkgPath, "the table is present", "only %d of %d codes found", n, len(want))
	c.count("constants", n)
	c.sample(fmt.Sprintf("ErAccessDeniedError = %d", got["ErAccessDeniedError"]))
}

func c23consts(c *Ctx) {
	var t collTable
	table("collations.json", &t)
	p := c.pkg("collation")
	got := constsOf(p.Types)
	n := 0
	for _, k := range sortedKeys(t.Consts) {
		v, ok := got[k]
		if !ok {
			continue
		}
		n++
		c.ok(v == t.Consts[k], c.posOf(p, k), "the constant has MySQL's id", "%s is %d, MySQL's id is %d", k, v, t.Consts[k])
	}
	c.ok(n > len(t.Consts)/2, p.PkgPath, "the table is present", "only %d of %d collations found", n, len(t.Consts))
	c.count("constants", n)
}

const collMax = 512

// c23text: the text form, with the id partitioned into the single values below collMax and all values from there on.
func c23text(c *Ctx) {
	var t collTable
	table("collations.json", &t)
	names := map[string]bool{}
	for _, n := range t.IDs {
		names[n] = true
	}
	seen := map[string]int{}
	for k := int64(0); k <= collMax; k++ {
		k := k
		pre := func(in *Interp, st *State) {
			v := st.symVal(c.params("CollationString").types["c"], "c").(*Lin)
			if k < collMax {
				st.facts.assumeEq0(AddK(v, -k))
			} else {
				st.facts.assumeGe0(AddK(v, -k))
			}
		}
		where := fmt.Sprintf("Collation(%d).String()", k)
		if k == collMax {
			where = fmt.Sprintf("Collation(c).String() for c >= %d", k)
		}
		r := c.w.drive("CollationString", pre)
		c.accountQuiet(r, where)
		for _, o := range r.outs {
			if o.panic {
				c.fail(where, "no panic", "%s at %s", o.st.pan.msg, o.st.pan.pos)
				continue
			}
			var ev *Event
			for _, e := range o.st.events() {
				if e.name == "r" {
					ev = e
				}
			}
			q := ev.args[0].(Str).seq
			s, lit := o.st.litOf(q)
			want, known := t.IDs[strconv.FormatInt(k, 10)]
			switch {
			case known:
				c.ok(lit && s == want, where, "a known id has its MySQL name", "%s, expected %q", seqStr(q), want)
			case lit:
				c.ok(!names[s], where, "an unknown id has no known name", "%q", s)
				seen[s]++
				c.ok(seen[s] == 1, where, "placeholders are distinct", "%q occurs again", s)
			default:
				// the id as a whole occurs in the text, in decimal and with a constant before it
				dec := false
				for _, g := range o.st.expand(q) {
					if b, isLin := g.v.(*Lin); g.k == SLit || g.k == SByte && isLin && o.st.facts.constOf(b) != nil {
						continue
					}
					id := c.params("CollationString").num("c")(o.st)
					dec = g.k == SOpq && g.o.kind == "dec" && (modConst(Sub(g.o.l, id)) || modConst(Add(g.o.l, id)))
					break
				}
				c.ok(dec, where, "placeholders are distinct", "%s does not contain the whole id", seqStr(q))
			}
		}
		ps := &State{}
		_ = ps
		// binary
		r = c.w.drive("CollationIsBinary", func(in *Interp, st *State) { pre(in, st) })
		c.accountQuiet(r, "IsBinary")
		for _, o := range r.outs {
			ok := false
			if !o.panic {
				for _, e := range o.st.events() {
					if e.name == "r" {
						b, isb := e.args[0].(Bool)
						if isb {
							v, kn := o.st.evalB(b)
							ok = kn && v == (k == 63)
						}
					}
				}
			}
			c.ok(ok, fmt.Sprintf("Collation(%d).IsBinary()", k), "only the binary collation is binary", "wrong or undecided answer")
		}
	}
	c.count("id_partitions", collMax+1)
}

// accountQuiet is account without recording the driver name.
func (c *Ctx) accountQuiet(r *Run, where string) {
	d := c.Drivers
	c.account(r)
	c.Drivers = d
	if len(d) == 0 || d[len(d)-1] != r.name {
		c.Drivers = append(c.Drivers, r.name)
	}
	if r.und != "" && len(c.Viol) > 0 {
		c.Viol[len(c.Viol)-1].Where = where
	}
}

// ---- generated bindings ----

type rawField struct {
	name, typeName, def string
	num, label, typ     int
	hasDef              bool
}
type rawEnum struct {
	name string
	vals map[string]int
}
type rawMsg struct {
	name   string
	fields []rawField
	enums  []rawEnum
	msgs   []rawMsg
}
type rawFile struct {
	name, pkg string
	msgs      []rawMsg
	enums     []rawEnum
}

type pbField struct {
	num, wire int
	v         uint64
	b         []byte
}

func pbParse(b []byte) (r []pbField) {
	uv := func() uint64 {
		var x uint64
		for s := uint(0); ; s += 7 {
			if len(b) == 0 || s > 63 {
				panic(undecided("malformed descriptor"))
			}
			c := b[0]
			b = b[1:]
			x |= uint64(c&0x7f) << s
			if c < 0x80 {
				return x
			}
		}
	}
	take := func(n int) []byte {
		if n < 0 || n > len(b) {
			panic(undecided("malformed descriptor"))
		}
		x := b[:n]
		b = b[n:]
		return x
	}
	for len(b) > 0 {
		t := uv()
		f := pbField{num: int(t >> 3), wire: int(t & 7)}
		switch f.wire {
		case 0:
			f.v = uv()
		case 1:
			take(8)
		case 2:
			f.b = take(int(uv()))
		case 5:
			take(4)
		default:
			panic(undecided("malformed descriptor"))
		}
		r = append(r, f)
	}
	return
}

func rawEnumOf(b []byte) rawEnum {
	e := rawEnum{vals: map[string]int{}}
	for _, f := range pbParse(b) {
		switch f.num {
		case 1:
			e.name = string(f.b)
		case 2:
			n, v := "", 0
			for _, g := range pbParse(f.b) {
				if g.num == 1 {
					n = string(g.b)
				} else if g.num == 2 {
					v = int(int32(g.v))
				}
			}
			e.vals[n] = v
		}
	}
	return e
}

func rawMsgOf(b []byte) rawMsg {
	var m rawMsg
	for _, f := range pbParse(b) {
		switch f.num {
		case 1:
			m.name = string(f.b)
		case 2:
			var x rawField
			for _, g := range pbParse(f.b) {
				switch g.num {
				case 1:
					x.name = string(g.b)
				case 3:
					x.num = int(g.v)
				case 4:
					x.label = int(g.v)
				case 5:
					x.typ = int(g.v)
				case 6:
					x.typeName = strings.TrimPrefix(string(g.b), ".")
				case 7:
					x.def, x.hasDef = string(g.b), true
				}
			}
			m.fields = append(m.fields, x)
		case 3:
			m.msgs = append(m.msgs, rawMsgOf(f.b))
		case 4:
			m.enums = append(m.enums, rawEnumOf(f.b))
		}
	}
	return m
}

func rawFileOf(b []byte) rawFile {
	var r rawFile
	for _, f := range pbParse(b) {
		switch f.num {
		case 1:
			r.name = string(f.b)
		case 2:
			r.pkg = string(f.b)
		case 4:
			r.msgs = append(r.msgs, rawMsgOf(f.b))
		case 5:
			r.enums = append(r.enums, rawEnumOf(f.b))
		}
	}
	return r
}

var rawTypes = map[string]int{"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "fixed64": 6, "fixed32": 7, "bool": 8, "string": 9, "bytes": 12, "uint32": 13, "sfixed32": 15, "sfixed64": 16, "sint32": 17, "sint64": 18}
var rawLabels = map[string]int{"optional": 1, "required": 2, "repeated": 3}

// descriptorOf finds the embedded descriptor of a bindings package.
func descriptorOf(p *packages.Package) []byte {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Names) != 1 || !strings.HasSuffix(v.Names[0].Name, "_rawDesc") || len(v.Values) != 1 {
					continue
				}
				if tv := p.TypesInfo.Types[v.Values[0]]; tv.Value != nil && tv.Value.Kind() == constant.String {
					return []byte(constant.StringVal(tv.Value))
				}
				cl, ok := v.Values[0].(*ast.CompositeLit)
				if !ok {
					continue
				}
				var b []byte
				for _, e := range cl.Elts {
					tv := p.TypesInfo.Types[e]
					if tv.Value == nil {
						panic(undecided("descriptor of " + p.PkgPath + " is not constant"))
					}
					x, _ := constant.Int64Val(tv.Value)
					b = append(b, byte(x))
				}
				return b
			}
		}
	}
	return nil
}

// constMap evaluates a package-level map literal of constants.
func constMap(p *packages.Package, name string) map[string]string {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Names) != len(v.Values) {
					continue
				}
				for i, n := range v.Names {
					if n.Name != name {
						continue
					}
					cl, ok := v.Values[i].(*ast.CompositeLit)
					if !ok {
						return nil
					}
					r := map[string]string{}
					for _, e := range cl.Elts {
						kv, ok := e.(*ast.KeyValueExpr)
						if !ok {
							return nil
						}
						str := func(x ast.Expr) string {
							c := p.TypesInfo.Types[x].Value
							if c == nil {
								return "?"
							}
							if c.Kind() == constant.String {
								return constant.StringVal(c)
							}
							return c.ExactString()
						}
						r[str(kv.Key)] = str(kv.Value)
					}
					return r
				}
			}
		}
	}
	return nil
}

func c25(c *Ctx) {
	repo, frozen := repoSchema(), frozenSchema()
	// the shipped definition files still define the protocol
	for _, n := range sortedKeys(frozen.msgs) {
		fm, rm := frozen.msgs[n], repo.msgs[n]
		if rm == nil {
			c.fail(fm.file, "the definition files define the protocol", "message %s is gone", n)
			continue
		}
		for _, f := range fm.sorted() {
			g := rm.fields[f.num]
			c.ok(g != nil && g.name == f.name && g.label == f.label && g.typ == f.typ && g.def == f.def, fm.file, "the definition files define the protocol", "field %d (%s) of %s differs from the protocol", f.num, f.name, n)
		}
	}
	for _, n := range sortedKeys(frozen.enums) {
		fe, re := frozen.enums[n], repo.enums[n]
		if re == nil {
			c.fail(fe.file, "the definition files define the protocol", "enum %s is gone", n)
			continue
		}
		for _, k := range sortedKeys(fe.vals) {
			v, ok := re.vals[k]
			c.ok(ok && v == fe.vals[k], fe.file, "the definition files define the protocol", "value %s of %s differs from the protocol", k, n)
		}
	}
	// the embedded descriptors and the Go declarations
	seenM, seenE := map[string]bool{}, map[string]bool{}
	for _, path := range sortedKeys(c.w.byPath) {
		if !strings.HasPrefix(path, modPath+"/protobuf/") {
			continue
		}
		p := c.w.byPath[path]
		raw := descriptorOf(p)
		if raw == nil {
			c.fail(path, "the bindings embed their descriptor", "no descriptor found")
			continue
		}
		rf := rawFileOf(raw)
		rel := strings.TrimPrefix(path, modPath+"/")
		c.count("descriptors", 1)
		depth := ""
		var enum func(scope, gosc string, e rawEnum)
		enum = func(scope, gosc string, e rawEnum) {
			full := scope + "." + e.name
			d := repo.enums[full]
			seenE[full] = true
			if !c.ok(d != nil, rel, "descriptor matches the definition file", "enum %s is not defined", full) {
				return
			}
			c.ok(reflect.DeepEqual(d.vals, e.vals), rel, "descriptor matches the definition file", "enum %s: descriptor %v, definition %v", full, e.vals, d.vals)
			gname := gosc + e.name
			cpre := gosc
			if gosc == "" {
				cpre = e.name + "_"
			}
			for _, k := range sortedKeys(d.vals) {
				o, ok := p.Types.Scope().Lookup(cpre + k).(*types.Const)
				if !c.ok(ok, rel+" "+cpre+k, "enum constants match", "constant missing") {
					continue
				}
				v, _ := constant.Int64Val(o.Val())
				c.ok(v == int64(d.vals[k]), c.posOf(p, cpre+k), "enum constants match", "%s is %d, the definition says %d", cpre+k, v, d.vals[k])
				nm, ok := o.Type().(*types.Named)
				c.ok(ok && nm.Obj().Name() == gname, c.posOf(p, cpre+k), "enum constants match", "%s has type %s, expected %s", cpre+k, o.Type(), gname)
			}
			names, values := constMap(p, gname+"_name"), constMap(p, gname+"_value")
			wn, wv := map[string]string{}, map[string]string{}
			for k, v := range d.vals {
				wn[strconv.Itoa(v)] = k
				wv[k] = strconv.Itoa(v)
			}
			c.ok(reflect.DeepEqual(names, wn), c.posOf(p, gname+"_name"), "enum name table matches", "got %v", names)
			c.ok(reflect.DeepEqual(values, wv), c.posOf(p, gname+"_value"), "enum value table matches", "got %v", values)
		}
		var msg func(scope, gosc string, m rawMsg)
		msg = func(scope, gosc string, m rawMsg) {
			full := scope + "." + m.name
			gname := gosc + m.name
			d := repo.msgs[full]
			seenM[full] = true
			if !c.ok(d != nil, rel, "descriptor matches the definition file", "message %s is not defined", full) {
				return
			}
			c.ok(len(m.fields) == len(d.fields), rel, "descriptor matches the definition file", "%s has %d fields, defined %d", full, len(m.fields), len(d.fields))
			for _, f := range m.fields {
				c.count("fields", 1)
				g := d.fields[f.num]
				if !c.ok(g != nil && g.name == f.name, rel, "descriptor matches the definition file", "%s field %d (%s) is not defined", full, f.num, f.name) {
					continue
				}
				wt, tn := rawTypes[g.typ], ""
				if g.msg != nil {
					wt, tn = 11, g.msg.name
				} else if g.enum != nil {
					wt, tn = 14, g.enum.name
				}
				c.ok(f.label == rawLabels[g.label] && f.typ == wt && f.typeName == tn, rel, "descriptor matches the definition file", "%s.%s: label/type %d/%d %s, defined as %s %s", full, f.name, f.label, f.typ, f.typeName, g.label, g.typ)
				c.ok(f.hasDef == g.hasDef && f.def == strings.Trim(g.def, `"`), rel, "descriptor matches the definition file", "%s.%s: default %q, defined %q", full, f.name, f.def, g.def)
			}
			c.goStruct(p, rel, gname, full, d)
			for _, e := range m.enums {
				enum(full, gname+"_", e)
			}
			for _, x := range m.msgs {
				msg(full, gname+"_", x)
			}
		}
		for _, e := range rf.enums {
			enum(rf.pkg, "", e)
		}
		for _, m := range rf.msgs {
			msg(rf.pkg, "", m)
		}
		c.ok(depth == "", rel, "flat", "")
	}
	for _, n := range sortedKeys(repo.msgs) {
		c.ok(seenM[n], repo.msgs[n].file, "every message has a binding", "no binding for %s", n)
	}
	for _, n := range sortedKeys(repo.enums) {
		c.ok(seenE[n], repo.enums[n].file, "every enum has a binding", "no binding for %s", n)
	}
	c.count("messages", len(seenM))
	c.count("enums", len(seenE))
}

func camel(s string) string {
	var b strings.Builder
	up := true
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z':
			up = true
		case up && ch >= 'a' && ch <= 'z':
			b.WriteByte(ch - 32)
			up = false
		default:
			b.WriteByte(ch)
			up = false
		}
	}
	return b.String()
}

// goStruct compares the struct of a message with its definition.
func (c *Ctx) goStruct(p *packages.Package, rel, gname, full string, d *MsgDef) {
	o := p.Types.Scope().Lookup(gname)
	if !c.ok(o != nil, rel, "every message has a Go type", "type %s is missing", gname) {
		return
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !c.ok(ok, rel, "every message has a Go type", "%s is not a struct", gname) {
		return
	}
	seen := map[int]bool{}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		where := relPos(p.Fset.Position(st.Field(i).Pos()).String()) + " " + gname + "." + st.Field(i).Name()
		parts := strings.Split(tag, ",")
		if !c.ok(len(parts) >= 4, where, "struct tags match the definition", "tag %q", tag) {
			continue
		}
		num, _ := strconv.Atoi(parts[1])
		f := d.fields[num]
		if !c.ok(f != nil && !seen[num], where, "struct tags match the definition", "field number %s", parts[1]) {
			continue
		}
		seen[num] = true
		wire := map[string]string{"double": "fixed64", "float": "fixed32", "fixed64": "fixed64", "fixed32": "fixed32", "sfixed64": "fixed64", "sfixed32": "fixed32", "sint32": "zigzag32", "sint64": "zigzag64", "string": "bytes", "bytes": "bytes"}[f.typ]
		if wire == "" {
			wire = "varint"
		}
		gt := map[string]string{"double": "float64", "float": "float32", "int64": "int64", "uint64": "uint64", "int32": "int32", "fixed64": "uint64", "fixed32": "uint32", "bool": "bool", "string": "string", "bytes": "[]byte", "uint32": "uint32", "sfixed32": "int32", "sfixed64": "int64", "sint32": "int32", "sint64": "int64"}[f.typ]
		if f.msg != nil {
			wire = "bytes"
			gt = "*" + goName(f.msg.name, f.msg.file)
		} else if f.enum != nil {
			wire = "varint"
			gt = goName(f.enum.name, f.enum.file)
		}
		switch {
		case f.label == "repeated":
			gt = "[]" + gt
		case f.msg == nil && f.typ != "bytes":
			gt = "*" + gt
		}
		lab := map[string]string{"optional": "opt", "required": "req", "repeated": "rep"}[f.label]
		c.ok(parts[0] == wire && parts[2] == lab, where, "struct tags match the definition", "tag %q, defined as %s %s", tag, f.label, f.typ)
		def := ""
		if j := strings.Index(tag, ",def="); j >= 0 {
			def = tag[j+5:]
		}
		want := strings.Trim(f.def, `"`)
		switch {
		case f.enum != nil && f.hasDef:
			want = strconv.Itoa(f.enum.vals[f.def])
		case f.typ == "bool" && f.hasDef:
			want = map[string]string{"true": "1", "false": "0"}[f.def]
		}
		c.ok(def == want, where, "struct tags match the definition", "tag %q, default %q", tag, want)
		name := ""
		for _, x := range parts[3:] {
			if strings.HasPrefix(x, "name=") {
				name = x[5:]
			}
		}
		c.ok(name == f.name && st.Field(i).Name() == camel(f.name), where, "struct tags match the definition", "tag %q names field %s", tag, f.name)
		got := types.TypeString(st.Field(i).Type(), func(q *types.Package) string { return q.Name() })
		got = strings.ReplaceAll(got, "byte", "uint8")
		c.ok(got == strings.ReplaceAll(gt, "byte", "uint8"), where, "field types match the definition", "Go type %s, expected %s", got, gt)
	}
	for _, f := range d.sorted() {
		c.ok(seen[f.num], rel+" "+gname, "every field is bound", "field %s of %s has no Go field", f.name, full)
		if f.hasDef {
			n := "Default_" + gname + "_" + camel(f.name)
			k, ok := p.Types.Scope().Lookup(n).(*types.Const)
			if !c.ok(ok, rel+" "+n, "default constants match", "constant missing") {
				continue
			}
			want := strings.Trim(f.def, `"`)
			if f.enum != nil {
				want = strconv.Itoa(f.enum.vals[f.def])
			}
			got := k.Val().ExactString()
			if k.Val().Kind() == constant.String {
				got = constant.StringVal(k.Val())
			}
			c.ok(got == want, c.posOf(p, n), "default constants match", "%s, defined %s", got, want)
		}
	}
}

// goName is the qualified Go name of a message or enum.
func goName(full, file string) string {
	pk := strings.TrimSuffix(file[strings.LastIndex(file, "/")+1:], ".proto")
	parts := strings.Split(full, ".")
	skip := 1
	if pk != "mysqlx" {
		skip = 2
	}
	return pk + "." + strings.Join(parts[skip:], "_")
}

// c25getters: each accessor yields its own field, or the default when that is absent.
func c25getters(c *Ctx) {
	repo := repoSchema()
	for _, n := range sortedKeys(repo.msgs) {
		d := repo.msgs[n]
		q := goName(n, d.file)
		dot := strings.Index(q, ".")
		p := c.w.byPath[modPath+"/protobuf/"+q[:dot]]
		if p == nil {
			continue
		}
		tn, ok := p.Types.Scope().Lookup(q[dot+1:]).(*types.TypeName)
		if !ok {
			continue
		}
		sp := c.w.prog.Package(p.Types)
		sp.Build()
		ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(tn.Type()))
		for _, f := range d.sorted() {
			sel := ms.Lookup(p.Types, "Get"+camel(f.name))
			if sel == nil {
				continue
			}
			fn := c.w.prog.MethodValue(sel)
			c.getter(fn, tn, f, p)
		}
	}
}

func (c *Ctx) getter(fn *ssa.Function, tn *types.TypeName, f *FieldDef, p *packages.Package) {
	where := relPos(p.Fset.Position(fn.Pos()).String()) + " " + tn.Name() + "." + fn.Name()
	in := c.w.interp()
	run := &Run{name: where, in: in}
	st := c.w.initState()
	recv := st.symVal(types.NewPointer(tn.Type()), "x")
	run = c.w.runOn(run, st, fn, []Val{recv})
	c.accountQuiet(run, where)
	s := tn.Type().Underlying().(*types.Struct)
	idx := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == camel(f.name) {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	ft := s.Field(idx).Type()
	for _, o := range run.outs {
		if o.panic {
			c.fail(where, "accessors do not panic", "%s", o.st.pan.msg)
			continue
		}
		got := o.vals[0]
		var zero Val
		res := fn.Signature.Results().At(0).Type()
		if f.hasDef {
			k, ok := p.Types.Scope().Lookup("Default_" + tn.Name() + "_" + camel(f.name)).(*types.Const)
			if ok {
				zero = o.st.constVal(ssa.NewConst(k.Val(), res))
			}
		} else if f.enum != nil && f.label != "repeated" {
			zero = K(int64(f.enum.vals[f.enum.order[0]]))
		} else {
			zero = o.st.zero(res)
		}
		isNil := func(v Val) (bool, bool) {
			return o.st.evalB(o.st.nilTest(v))
		}
		xnil, known := isNil(recv)
		ok := false
		if known && xnil {
			ok = zero != nil && sameVal(o.st, got, zero)
		} else if known {
			fv := in.load(o.st, in.fieldAddr(o.st, recv, idx, types.NewPointer(ft)))
			if _, isp := ft.(*types.Pointer); isp && f.msg == nil {
				fnil, fk := isNil(fv)
				switch {
				case !fk:
				case fnil:
					ok = zero != nil && sameVal(o.st, got, zero)
				default:
					ok = sameVal(o.st, got, in.load(o.st, fv))
				}
			} else {
				ok = sameVal(o.st, got, fv)
			}
		}
		c.ok(ok, where, "accessors return their field or its default", "returns %s", valStr(got))
		c.pathOf(o.st)
	}
}

var _ = sort.Strings

func init() {
	register(&Check{id: "C23", level: "other", technique: "constant evaluation on the type-checked program; abstract interpretation of the text conversion partitioned by id", needWorld: true, min: 500,
		assume:  []string{"the frozen list of MySQL collations (schema/collations.json) is MySQL's", "the models of strconv used are faithful"},
		explain: "Every exported collation constant is evaluated by the type checker and compared with the frozen table of MySQL collations; String and IsBinary are interpreted abstractly for every id (single values below 512 and the set of all larger ones) after abstract interpretation of the package initialiser, and the result compared with the table.",
		jobs:    func(string) []Job { return []Job{{"constants", 1, c23consts}, {"text", 2, c23text}} }})
	register(&Check{id: "C24", level: "other", technique: "constant evaluation on the type-checked program against a frozen table", needWorld: true, min: 500,
		assume:  []string{"the frozen list of MySQL error numbers (schema/errs.json) is MySQL's"},
		explain: "Every exported error code constant is evaluated by the type checker and compared with the frozen table of MySQL's error numbers.",
		jobs:    func(string) []Job { return []Job{{"codes", 1, c24}} }})
	register(&Check{id: "C25", level: "other", technique: "cross-check of definition files, struct tags, Go types, constants and decoded embedded descriptors", needWorld: true, min: 1000,
		assume:  []string{"the frozen copy of the X Protocol definition files is the protocol", "the protobuf runtime interprets descriptors and struct tags as documented"},
		explain: "The definition files are parsed; every message, field, enum value and default is compared with the descriptor bytes embedded in the bindings (decoded from the constants in the syntax tree), with the struct tags and Go types, and with the enum constants and tables of the type-checked bindings; the definition files are compared with a frozen copy of the protocol.",
		jobs:    func(string) []Job { return []Job{{"bindings", 1, c25}, {"accessors", 2, c25getters}} }})
}

// modConst: the term is constant modulo 2^64.
func modConst(l *Lin) bool {
	for _, t := range l.t {
		if new(big.Int).And(t.c, new(big.Int).Sub(pow2(64), big1)).Sign() != 0 {
			return false
		}
	}
	return true
}
