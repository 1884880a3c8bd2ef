ID='c10-committed'
PROPERTY='C10'
NEEDS='a transaction at isolation level READ COMMITTED'
BREAKS='the statement selecting READ COMMITTED is not transmitted for that level'
EDITS=[('builder.go','''b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ COMMITTED")''','''b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED")''')]
RUN='. -run TestDemoTx'
DEMO={'zz_demo_test.go':'''package xtorm

import (
	"bytes"
	"context"
	"testing"

	"github.com/renthraysk/xtorm/netx"
)

type demoSender struct{ b []byte }

func (d *demoSender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	d.b = append(d.b, b...)
	return nil, nil
}

func TestDemoTx(t *testing.T) {
	for l, s := range map[IsolationLevel]string{
		IsolationLevelReadUncommitted: "LEVEL READ UNCOMMITTED",
		IsolationLevelReadCommitted:   "LEVEL READ COMMITTED",
		IsolationLevelRepeatableRead:  "LEVEL REPEATABLE READ",
		IsolationLevelSerializable:    "LEVEL SERIALIZABLE",
	} {
		var d demoSender
		x := New(64)
		x.Tx(l, func(b *Builder) error {
			b.StmtExecute("SELECT 1")
			return nil
		})
		if _, err := x.Send(context.Background(), &d); err != nil {
			t.Fatal(err)
		}
		if !bytes.Contains(d.b, []byte(s)) {
			t.Fatalf("demo: level %d does not send %q", l, s)
		}
	}
}
'''}
