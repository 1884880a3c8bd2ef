ID='c12-failedchild'
PROPERTY='C12'
NEEDS='a nested builder kept after one of its operations failed, and Deallocate called on it afterwards'
BREAKS='the finished builder silently ignores the operation where it has to panic'
EDITS=[('builder.go', '\tif b.disabled {\n\t\tpanic("Deallocate called on non child")\n\t}\n\tif b.err != nil {\n\t\treturn\n\t}', '\tif b.err != nil {\n\t\treturn\n\t}\n\tif b.disabled {\n\t\tpanic("Deallocate called on non child")\n\t}')]
RUN='. -run TestDemoStale'
DEMO={'zz_demo_test.go':'package xtorm\n\nimport (\n\t"context"\n\t"errors"\n\t"testing"\n\n\t"github.com/renthraysk/xtorm/netx"\n)\n\ntype demoSender struct{ b []byte; n int }\n\nfunc (d *demoSender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {\n\td.b = append(d.b, b...)\n\td.n++\n\treturn nil, nil\n}\n\nvar errDemo = errors.New("demo")\n\nfunc TestDemoStale(t *testing.T) {\n\tx := New(64)\n\tvar kept *Builder\n\tx.Tx(IsolationLevelDefault, func(b *Builder) error {\n\t\tkept = b\n\t\tb.StmtExecute("SELECT ?", make(chan int))\n\t\treturn nil\n\t})\n\tdefer func() {\n\t\tif recover() == nil {\n\t\t\tt.Fatal("demo: a finished builder accepts operations", errDemo)\n\t\t}\n\t}()\n\tkept.Deallocate(1)\n}\n'}
