ID='c03-updateset-size'
PROPERTY='C03'
NEEDS='an update of a column whose name is 126 or 127 bytes long'
BREAKS='the length of the update operation is computed from the wrong nested size, so the message does not decode'
EDITS=[('xproto/update.go','n2 := 3 + sizeVarint(uint(n1)) + n1 + nV','n2 := 3 + sizeVarint(uint(n)) + n1 + nV')]
RUN='./xproto -run TestDemo'
DEMO={'xproto/zz_demo_test.go':'''package xproto

import (
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 125, 126, 127, 128, 200} {
		p, err := Update(nil, "t", nil)
		if err != nil {
			t.Fatal(err)
		}
		p, err = AppendUpdateSet(p, strings.Repeat("c", n), 1)
		if err != nil {
			t.Fatal(err)
		}
		var u mysqlx_crud.Update
		if err := proto.Unmarshal(p[5:], &u); err != nil {
			t.Fatalf("demo: %d: %s", n, err)
		}
		if len(u.Operation) != 1 || u.Operation[0].Source.GetName() != strings.Repeat("c", n) {
			t.Fatalf("demo: %d: wrong", n)
		}
	}
}
'''}
