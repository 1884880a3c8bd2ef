ID='c11-emptyblock'
PROPERTY='C11'
NEEDS='an expectation block whose body adds no operation'
BREAKS='the block is opened and never closed, so every later operation runs inside it'
EDITS=[('builder.go', '\tb.call(f)\n\tb.buf = xproto.ExpectClose(b.buf)', '\tn := len(b.buf)\n\tb.call(f)\n\tif len(b.buf) > n {\n\t\tb.buf = xproto.ExpectClose(b.buf)\n\t}')]
RUN='. -run TestDemoEmpty'
DEMO={'zz_demo_test.go':'package xtorm\n\nimport (\n\t"context"\n\t"errors"\n\t"testing"\n\n\t"github.com/renthraysk/xtorm/netx"\n)\n\ntype demoSender struct{ b []byte; n int }\n\nfunc (d *demoSender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {\n\td.b = append(d.b, b...)\n\td.n++\n\treturn nil, nil\n}\n\nvar errDemo = errors.New("demo")\n\nfunc TestDemoEmpty(t *testing.T) {\n\tvar d demoSender\n\tx := New(64)\n\tx.ExpectFailOnError(OpenExpectCtxEmpty, func(b *Builder) error { return nil })\n\tif _, err := x.Send(context.Background(), &d); err != nil {\n\t\tt.Fatal(err, errDemo)\n\t}\n\topen, closed := 0, 0\n\tfor b := d.b; len(b) > 0; b = b[4+int(b[0]):] {\n\t\tswitch b[4] {\n\t\tcase 24:\n\t\t\topen++\n\t\tcase 25:\n\t\t\tclosed++\n\t\t}\n\t}\n\tif open != 1 || closed != 1 {\n\t\tt.Fatalf("demo: %d opened, %d closed", open, closed)\n\t}\n}\n'}
