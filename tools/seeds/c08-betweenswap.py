ID='c08-betweenswap'
PROPERTY='C08'
NEEDS='Between with different bounds'
BREAKS='the bounds of Between are transmitted in the wrong order'
EDITS=[('expr.go','"between", a, b, c)','"between", a, c, b)')]
RUN='. -run TestDemoBetween'
DEMO={'zz_demo_test.go':'''package xtorm

import (
	"context"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
)

type demoSender struct{ b []byte }

func (d *demoSender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	d.b = append(d.b, b...)
	return nil, nil
}

func TestDemoBetween(t *testing.T) {
	var d demoSender
	x := New(64)
	x.Delete("t", Between(1, 2, 3))
	if _, err := x.Send(context.Background(), &d); err != nil {
		t.Fatal(err)
	}
	var u mysqlx_crud.Delete
	if err := proto.Unmarshal(d.b[5:], &u); err != nil {
		t.Fatalf("demo: %s", err)
	}
	ps := u.GetCriteria().GetOperator().GetParam()
	if len(ps) != 3 {
		t.Fatalf("demo: %d operands", len(ps))
	}
	for i, p := range ps {
		l := p.GetLiteral()
		if l.GetVSignedInt()+int64(l.GetVUnsignedInt()) != int64(i+1) {
			t.Fatalf("demo: operand %d is %v", i, l)
		}
	}
}
'''}
