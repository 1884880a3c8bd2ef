#!/usr/bin/env python3
# Generates drivers/d/values.go: one driver per value type and context.
basic = ["bool","int","int8","int16","int32","int64","uint","uint8","uint16","uint32","uint64","float32","float64","string","[]byte","time.Time","time.Duration"]
def nm(t):
    return {"[]byte":"Bytes","time.Time":"Time","time.Duration":"Duration"}.get(t, t.capitalize())
o = ['// Code generated by tools/mkvalues.py.','','package d','','import (','\t"context"','\t"time"','','\t"github.com/renthraysk/xtorm"','\t"github.com/renthraysk/xtorm/collation"','\t"github.com/renthraysk/xtorm/xproto"','\t"xtadrv/rt"',')','']
ARG = {
 'S': 'x.StmtExecute("s", V)',
 'E': 'x.Execute(7, V)',
}
LIT = {
 'R': 'x.InsertF("t", nil, func(i *xtorm.Insert) error {\n\t\ti.RowV(V)\n\t\treturn nil\n\t})',
 'I': 'x.Insert("t", []string{"c"}, [][]interface{}{{V}})',
 'W': 'x.InsertRow("t", nil, []interface{}{V})',
 'U': 'x.UpdateF("t", nil, func(u *xtorm.Update) error {\n\t\tu.Set("c", V)\n\t\treturn nil\n\t})',
 'M': 'x.Update("t", nil, map[string]interface{}{"c": V})',
 'O': 'x.Delete("t", xtorm.Not(V))',
 'F': 'x.Delete("t", xtorm.Concat(V))',
}
def gen(ctxs, name, params, val):
    for c, body in ctxs.items():
        o.append(f'func Val{c}{name}(ctx context.Context{params}) {{\n\tx := rt.Pipe()\n\t{body.replace("V)", val+")").replace("V}", val+"}") if c != "R" else body.replace("RowV(V)", "RowV("+val+")")}\n\trt.Send(ctx, x)\n}}\n')
BOTH = {**ARG, **LIT}
for t in basic:
    gen(BOTH, nm(t), f', v {t}', 'v')
    gen(ARG, 'Ptr'+nm(t), f', v *{t}', 'v')
    gen({'S': ARG['S']}, 'PtrPtr'+nm(t), f', v **{t}', 'v')
gen(BOTH, 'Nil', '', 'nil')
for w,p,v in [("String",", s string, c collation.Collation","xtorm.String{Value: s, Collation: c}"),
              ("XML",", b []byte","xtorm.XML(b)"),("XMLString",", s string","xtorm.XMLString(s)"),
              ("JSON",", b []byte","xtorm.JSON(b)"),("JSONString",", s string","xtorm.JSONString(s)"),
              ("Geometry",", b []byte","xtorm.Geometry(b)")]:
    gen({'S': ARG['S'], 'E': ARG['E'], 'R': LIT['R'], 'U': LIT['U'], 'O': LIT['O'], 'F': LIT['F']}, "W"+w, p, v)
gen(BOTH, "PtrWString", ", p *xtorm.String", "p")
gen(BOTH, "Any", ", v interface{}", "v")
gen(LIT, "Expr", ", e xproto.AppendExprFunc", "e")
open('/verif/drivers/d/values.go','w').write('\n'.join(o).rstrip()+'\n')
