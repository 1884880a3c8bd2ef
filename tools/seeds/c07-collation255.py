ID='c07-collation255'
PROPERTY='C07'
NEEDS='a string expression with the collation utf8mb4_0900_ai_ci (255)'
BREAKS='the size of the literal is computed without the collation that is written, so the literal cannot be decoded'
EDITS=[('xproto/expr.go','''	if collation != 0 {
		n0 += 1 + sizeVarint(uint(collation))''','''	if collation != 0 && collation != 255 {
		n0 += 1 + sizeVarint(uint(collation))''')]
RUN='./xproto -run TestDemo'
DEMO={'xproto/zz_demo_test.go':'''package xproto

import (
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
)

func TestDemo(t *testing.T) {
	for _, c := range []collation.Collation{0, 1, 63, 127, 128, 254, 255, 256, 307} {
		p := AppendExprString(nil, 3, "text", c)
		var u mysqlx_crud.Delete
		if err := proto.Unmarshal(p, &u); err != nil && u.Criteria == nil {
			t.Fatalf("demo: %d: %s", c, err)
		}
		s := u.GetCriteria().GetLiteral().GetVString()
		if string(s.GetValue()) != "text" || s.GetCollation() != uint64(c) {
			t.Fatalf("demo: collation %d arrives as %q, %d", c, s.GetValue(), s.GetCollation())
		}
	}
}
'''}
