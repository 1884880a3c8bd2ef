ID='c01-insertf-length'
PROPERTY='C01'
NEEDS='a bulk insert message of 65536 bytes or more'
BREAKS='the frame length field is wrong'
EDITS=[('builder.go','''		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))''','''		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(uint16(len(b.buf)-n-4)))''')]
RUN='./netx -run TestDemo'
DEMO={'netx/zz_demo_test.go':'''package netx_test

import (
	"context"
	"encoding/binary"
	"strings"
	"testing"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
)

type sink struct{ b []byte }

func (s *sink) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.b = append([]byte{}, b...)
	return nil, nil
}

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 100, 1000, 40000, 70000} {
		var s sink
		x := xtorm.New(16)
		x.Insert("t", []string{"a"}, [][]interface{}{{strings.Repeat("v", n)}})
		if _, err := x.Send(context.Background(), &s); err != nil {
			t.Fatal(err)
		}
		if int(binary.LittleEndian.Uint32(s.b)) != len(s.b)-4 {
			t.Fatalf("demo: %d: wrong length", n)
		}
	}
}
'''}
