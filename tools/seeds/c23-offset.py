ID='c23-offset'
PROPERTY='C23'
NEEDS='the text of collation 292 or 293'
BREAKS='two neighbouring entries of the offset table are exchanged, so two collations print the name of the other'
EDITS=[('collation/collation.go','	292: collationName[4174:4195],\n	293: collationName[4195:4221],\n','	292: collationName[4195:4221],\n	293: collationName[4174:4195],\n')]
RUN='./collation -run TestDemo'
DEMO={'collation/zz_demo_test.go':'''package collation

import "testing"

func TestDemo(t *testing.T) {
	for c, n := range map[Collation]string{1: "big5_chinese_ci", 255: "utf8mb4_0900_ai_ci", 292: "utf8mb4_sk_0900_as_cs", 293: "utf8mb4_es_trad_0900_as_cs", 307: "utf8mb4_ru_0900_as_cs"} {
		if c.String() != n {
			t.Fatalf("demo: %d is %s", uint(c), c)
		}
	}
}
'''}
