ID='c09-middlerow'
PROPERTY='C09'
NEEDS='a multi-row insert in which a row other than the last holds a value that cannot be encoded'
BREAKS='the error is overwritten by the next row and the unit of work is transmitted with a malformed row'
EDITS=[('builder.go', '\t\tb.buf, b.err = xproto.AppendInsertRow(b.buf, row)\n\t\tif b.err != nil {\n\t\t\treturn\n\t\t}\n\t}', '\t\tb.buf, b.err = xproto.AppendInsertRow(b.buf, row)\n\t\tif b.err != nil {\n\t\t\tcontinue\n\t\t}\n\t}')]
RUN='. -run TestDemoRow'
DEMO={'zz_demo_test.go':'package xtorm\n\nimport (\n\t"context"\n\t"errors"\n\t"testing"\n\n\t"github.com/renthraysk/xtorm/netx"\n)\n\ntype demoSender struct{ b []byte; n int }\n\nfunc (d *demoSender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {\n\td.b = append(d.b, b...)\n\td.n++\n\treturn nil, nil\n}\n\nvar errDemo = errors.New("demo")\n\nfunc TestDemoRow(t *testing.T) {\n\tvar d demoSender\n\tx := New(64)\n\tx.Insert("t", []string{"a"}, [][]interface{}{{1}, {make(chan int)}, {2}})\n\tif _, err := x.Send(context.Background(), &d); err == nil || d.n != 0 {\n\t\tt.Fatalf("demo: err %v, sent %d (%v)", err, d.n, errDemo)\n\t}\n}\n'}
