package main

// Classification of value encoders: func(buffer, tag, value) (buffer, error).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (st *State) frameRule(l *Lin) bool { return true }

// ClassInfo says what an encoder does with an arbitrary value.
type ClassInfo struct {
	kind   string // "any", "expr" or ""
	why    string
	outs   int
	fields int
}

// classify runs encoder f on an arbitrary value: when every successful outcome appends exactly one well-formed field
// with the given tag, and no outcome panics, calls of f can be replaced by that contract.
func (in *Interp) classify(f *ssa.Function, tag int) string {
	w := in.world
	key := fmt.Sprintf("%s#%d", f, tag)
	if ci, ok := w.classes[key]; ok {
		return ci.kind
	}
	ci := &ClassInfo{}
	w.classes[key] = ci // recursion: not available while being classified
	if w.schema == nil {
		return ""
	}
	run := &Run{name: "classify " + f.String(), in: w.interp()}
	run.in.noContractFor = f
	st := w.initState()
	var args []Val
	var prefix Slice
	for i := 0; i < f.Signature.Params().Len(); i++ {
		pt := f.Signature.Params().At(i).Type()
		switch {
		case isBytes(pt):
			prefix = st.symVal(pt, "cprefix").(Slice)
			args = append(args, prefix)
		case isByteT(pt):
			args = append(args, K(int64(tag)))
		default:
			args = append(args, SymV{name: "cvalue", typ: types.NewInterfaceType(nil, nil)})
		}
	}
	w.runOn(run, st, f, args)
	if run.und != "" {
		ci.why = run.und
		return ""
	}
	ci.outs = len(run.outs)
	for _, kind := range []string{"any", "expr"} {
		msg := w.schema.msgs["Mysqlx.Datatypes.Any"]
		if kind == "expr" {
			msg = w.schema.msgs["Mysqlx.Expr.Expr"]
		}
		d := &Decoder{sc: w.schema}
		def := &MsgDef{name: "caller's message", fields: map[int]*FieldDef{tag: {num: tag, name: "value", label: "required", typ: msg.name, msg: msg}}}
		bad := ""
		nok := 0
		for _, o := range run.outs {
			if o.panic {
				bad = "panics: " + o.st.pan.msg + " at " + o.st.pan.pos
				break
			}
			if run.in.knownNonNil(o.st, o.vals[1]) {
				continue // failed
			}
			if err := try(func() {
				q := o.st.content(o.vals[0].(Slice))
				_, rest := o.st.cut(q, prefix.len)
				d.message(o.st, def, rest)
			}); err != nil {
				bad = err.Error() + " [" + strings.Join(o.st.trail, "; ") + "]"
				break
			}
			nok++
		}
		if bad == "" && nok > 0 {
			ci.kind = kind
			ci.fields = d.fields
			return kind
		}
		ci.why += kind + ": " + bad + "; "
	}
	return ""
}

// knownNil: v is nil in st.
func (in *Interp) knownNil(st *State, v Val) bool {
	b, k := st.evalB(st.nilTest(v))
	return k && b
}

func (in *Interp) knownNonNil(st *State, v Val) bool {
	b, k := st.evalB(st.nilTest(v))
	return k && !b
}

func (w *World) generate() {}
