ID='c06-durhours'
PROPERTY='C06'
NEEDS='a duration of 1000 hours or more as a statement argument'
BREAKS='the hours of the duration are transmitted modulo 1000, so another value reaches the server'
EDITS=[('xproto/scalar.go','u/uint64(time.Hour)','u/uint64(time.Hour)%1000')]
RUN='./xproto -run TestDemo'
DEMO={'xproto/zz_demo_test.go':'''package xproto

import (
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
)

func TestDemo(t *testing.T) {
	for _, h := range []time.Duration{0, 1, 23, 838, 999, 1000, 1001, 2000000} {
		p, err := StmtExecute(nil, "s", []interface{}{h*time.Hour + 61*time.Second})
		if err != nil {
			t.Fatal(err)
		}
		var u mysqlx_sql.StmtExecute
		if err := proto.Unmarshal(p[5:], &u); err != nil {
			t.Fatalf("demo: %s", err)
		}
		a := u.GetArgs()[0].GetScalar()
		s := string(a.GetVString().GetValue()) + string(a.GetVOctets().GetValue())
		var got time.Duration
		for len(s) > 0 && s[0] >= '0' && s[0] <= '9' {
			got = 10*got + time.Duration(s[0]-'0')
			s = s[1:]
		}
		if got != h {
			t.Fatalf("demo: %d hours sent as %d", h, got)
		}
	}
}
'''}
