ID='c04-long-stmt'
PROPERTY='C04'
NEEDS='a statement text of 2 MiB or more'
BREAKS='the length of the statement is cut to 21 bits, so a shorter statement followed by garbage is sent'
EDITS=[('xproto/xproto.go','byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80','byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)&0x7F, byte(x>>21)|0x80')]
RUN='./xproto -run TestDemo'
DEMO={'xproto/zz_demo_test.go':'''package xproto

import (
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 200, 20000, 1<<21 - 1, 1 << 21, 3 << 20} {
		s := strings.Repeat("s", n)
		p, err := StmtExecute(nil, s, nil)
		if err != nil {
			t.Fatal(err)
		}
		var u mysqlx_sql.StmtExecute
		if err := proto.Unmarshal(p[5:], &u); err != nil {
			t.Fatalf("demo: %d: %s", n, err)
		}
		if string(u.GetStmt()) != s {
			t.Fatalf("demo: %d: wrong statement", n)
		}
	}
}
'''}
