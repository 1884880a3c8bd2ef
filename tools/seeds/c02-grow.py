ID='c02-grow'
PROPERTY='C02'
NEEDS='the buffer has to grow for a message shorter than what was built before'
BREAKS='only part of the earlier operations survives the reallocation'
EDITS=[('slice/slice.go','copy(head, in)','copy(head[:n], in)')]
RUN='./netx -run TestDemo'
DEMO={'netx/zz_demo_test.go':'''package netx_test

import (
	"bytes"
	"context"
	"strings"
	"testing"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
)

type sink struct{ b []byte }

func (s *sink) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.b = append([]byte{}, b...)
	return nil, nil
}

func TestDemo(t *testing.T) {
	var want, got sink
	stmt := strings.Repeat("s", 300)
	x := xtorm.New(4096)
	x.StmtExecute(stmt)
	x.Prepare(7, "p")
	x.Send(context.Background(), &want)
	for n := 0; n < 400; n += 7 {
		x = xtorm.New(n)
		x.StmtExecute(stmt)
		x.Prepare(7, "p")
		x.Send(context.Background(), &got)
		if !bytes.Equal(want.b, got.b) {
			t.Fatalf("demo: capacity %d: different bytes", n)
		}
	}
}
'''}
