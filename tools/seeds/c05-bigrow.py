ID='c05-bigrow'
PROPERTY='C05'
NEEDS='an inserted row whose values take 16384 bytes or more'
BREAKS='the length of the row overwrites the start of its first value'
EDITS=[('xproto/insert.go','if d := sizeVarint(n) - rowSizeSize; d != 0 {\n\t\tp = append(p[:i+d], p[i:]...)','if n < 1<<7 {\n\t\tp = append(p[:i-1], p[i:]...)')]
RUN='./xproto -run TestDemo'
DEMO={'xproto/zz_demo_test.go':'''package xproto

import (
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 100, 200, 16000, 17000, 1 << 21} {
		s := strings.Repeat("c", n)
		p, err := AppendInsertRow(Insert(nil, "t", []string{"a"}), []interface{}{s})
		if err != nil {
			t.Fatal(err)
		}
		var u mysqlx_crud.Insert
		if err := proto.Unmarshal(p[5:], &u); err != nil {
			t.Fatalf("demo: %d: %s", n, err)
		}
		if len(u.Row) != 1 || len(u.Row[0].Field) != 1 || string(u.Row[0].Field[0].Literal.VString.Value) != s {
			t.Fatalf("demo: %d: wrong", n)
		}
	}
}
'''}
