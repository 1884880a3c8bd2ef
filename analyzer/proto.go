package main

// The X Protocol schema: a parser for the proto2 subset of the protocol definition files.

import (
	"embed"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

//go:embed schema/*.proto
var schemaFS embed.FS

type FieldDef struct {
	name    string
	num     int
	label   string // optional, required, repeated
	typ     string // scalar name or fully qualified message/enum
	msg     *MsgDef
	enum    *EnumDef
	def     string
	hasDef  bool
	rawType string
	scope   string
}

type MsgDef struct {
	name   string
	fields map[int]*FieldDef
	opts   map[string]string
	file   string
}

type EnumDef struct {
	name  string
	vals  map[string]int
	order []string
	file  string
}

type Schema struct {
	msgs   map[string]*MsgDef
	enums  map[string]*EnumDef
	client map[int]*MsgDef // by client message id
	server map[int]*MsgDef
	files  []string
}

func (m *MsgDef) sorted() []*FieldDef {
	var r []*FieldDef
	for _, f := range m.fields {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].num < r[j].num })
	return r
}

func (e *EnumDef) defined(v int64) bool {
	for _, x := range e.vals {
		if int64(x) == v {
			return true
		}
	}
	return false
}

func protoTokens(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return r
			}
			i += j + 4
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r = append(r, s[i:j+1])
			i = j + 1
		case c == '_' || c == '.' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '.' || s[j] == '-' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			r = append(r, s[i:j])
			i = j
		default:
			r = append(r, string(c))
			i++
		}
	}
	return r
}

type protoParser struct {
	t   []string
	i   int
	s   *Schema
	pkg string
	f   string
}

func (p *protoParser) next() string {
	if p.i >= len(p.t) {
		panic(undecided("unexpected end of " + p.f))
	}
	x := p.t[p.i]
	p.i++
	return x
}

func (p *protoParser) want(s string) {
	if x := p.next(); x != s {
		panic(undecided(fmt.Sprintf("%s: expected %q, got %q", p.f, s, x)))
	}
}

func (p *protoParser) skipStmt() {
	for p.next() != ";" {
	}
}

func (p *protoParser) block() {
	d := 1
	p.want("{")
	for d > 0 {
		switch p.next() {
		case "{":
			d++
		case "}":
			d--
		}
	}
}

func (p *protoParser) file() {
	for p.i < len(p.t) {
		switch x := p.next(); x {
		case "syntax", "import", "option":
			p.skipStmt()
		case "package":
			p.pkg = p.next()
			p.want(";")
		case "message":
			p.message(p.pkg)
		case "enum":
			p.enum(p.pkg)
		case "extend":
			p.next()
			p.block()
		case ";":
		default:
			panic(undecided(fmt.Sprintf("%s: unexpected %q", p.f, x)))
		}
	}
}

func (p *protoParser) num() int {
	s := p.next()
	n, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		panic(undecided(fmt.Sprintf("%s: bad number %q", p.f, s)))
	}
	return int(n)
}

func (p *protoParser) enum(scope string) {
	e := &EnumDef{name: scope + "." + p.next(), vals: map[string]int{}, file: p.f}
	p.want("{")
	for {
		x := p.next()
		if x == "}" {
			break
		}
		if x == "option" || x == "reserved" {
			p.skipStmt()
			continue
		}
		if x == ";" {
			continue
		}
		p.want("=")
		e.vals[x] = p.num()
		e.order = append(e.order, x)
		for p.next() != ";" {
		}
	}
	p.s.enums[e.name] = e
}

func (p *protoParser) message(scope string) {
	m := &MsgDef{name: scope + "." + p.next(), fields: map[int]*FieldDef{}, opts: map[string]string{}, file: p.f}
	p.s.msgs[m.name] = m
	p.want("{")
	for {
		x := p.next()
		switch x {
		case "}":
			return
		case ";":
		case "message":
			p.message(m.name)
		case "enum":
			p.enum(m.name)
		case "option":
			if p.t[p.i] == "(" {
				p.next()
				n := p.next()
				p.want(")")
				p.want("=")
				m.opts[n] = p.next()
				p.want(";")
			} else {
				p.skipStmt()
			}
		case "reserved", "extensions":
			p.skipStmt()
		case "optional", "required", "repeated":
			f := &FieldDef{label: x, rawType: p.next(), scope: m.name}
			f.name = p.next()
			p.want("=")
			f.num = p.num()
			for {
				y := p.next()
				if y == ";" {
					break
				}
				if y == "default" {
					p.want("=")
					f.def = p.next()
					f.hasDef = true
				}
			}
			if m.fields[f.num] != nil {
				panic(undecided(fmt.Sprintf("%s: field number %d of %s used twice", p.f, f.num, m.name)))
			}
			m.fields[f.num] = f
		default:
			panic(undecided(fmt.Sprintf("%s: unexpected %q in message %s", p.f, x, m.name)))
		}
	}
}

var scalarTypes = map[string]int{ // wire types
	"int32": 0, "int64": 0, "uint32": 0, "uint64": 0, "sint32": 0, "sint64": 0, "bool": 0,
	"fixed64": 1, "sfixed64": 1, "double": 1, "string": 2, "bytes": 2, "fixed32": 5, "sfixed32": 5, "float": 5,
}

func (s *Schema) link() {
	for _, m := range s.msgs {
		for _, f := range m.fields {
			if _, ok := scalarTypes[f.rawType]; ok {
				f.typ = f.rawType
				continue
			}
			sc := f.scope
			for {
				n := sc + "." + f.rawType
				if sc == "" {
					n = f.rawType
				}
				if x := s.msgs[n]; x != nil {
					f.typ, f.msg = n, x
					break
				}
				if x := s.enums[n]; x != nil {
					f.typ, f.enum = n, x
					break
				}
				if sc == "" {
					panic(undecided("unknown type " + f.rawType + " of " + m.name + "." + f.name))
				}
				i := strings.LastIndex(sc, ".")
				if i < 0 {
					sc = ""
				} else {
					sc = sc[:i]
				}
			}
		}
	}
	s.client, s.server = map[int]*MsgDef{}, map[int]*MsgDef{}
	reg := func(en, opt string, tab map[int]*MsgDef) {
		e := s.enums[en]
		if e == nil {
			return
		}
		for _, m := range s.msgs {
			if v, ok := m.opts[opt]; ok {
				tab[e.vals[v]] = m
			}
		}
	}
	reg("Mysqlx.ClientMessages.Type", "client_message_id", s.client)
	reg("Mysqlx.ServerMessages.Type", "server_message_id", s.server)
}

func (f *FieldDef) wire() int {
	if f.msg != nil {
		return 2
	}
	if f.enum != nil {
		return 0
	}
	return scalarTypes[f.typ]
}

func newSchema() *Schema { return &Schema{msgs: map[string]*MsgDef{}, enums: map[string]*EnumDef{}} }

func (s *Schema) add(name, text string) {
	p := &protoParser{t: protoTokens(text), s: s, f: name}
	p.file()
	s.files = append(s.files, name)
}

// frozenSchema is the X Protocol as published (the files the repository was generated from).
func frozenSchema() *Schema {
	s := newSchema()
	es, err := schemaFS.ReadDir("schema")
	must(err)
	for _, e := range es {
		b, err := schemaFS.ReadFile("schema/" + e.Name())
		must(err)
		s.add(e.Name(), string(b))
	}
	s.link()
	return s
}

// repoSchema is what the repository ships now.
func repoSchema() *Schema {
	s := newSchema()
	fs, err := filepath.Glob(filepath.Join(repoDir, "protobuf", "*.proto"))
	must(err)
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		must(err)
		s.add("protobuf/"+filepath.Base(f), string(b))
	}
	s.link()
	return s
}
