ID='c17-longchallenge'
PROPERTY='C17'
NEEDS='a challenge longer than 20 bytes'
BREAKS='only the first 20 bytes of the challenge enter the proof'
EDITS=[('netx/connector/authentication/mysql41/mysql41.go','		h.Write(authData)\n','		if len(authData) > 20 {\n			authData = authData[:20]\n		}\n		h.Write(authData)\n')]
RUN='./netx/connector/authentication/mysql41 -run TestDemo'
DEMO={'netx/connector/authentication/mysql41/zz_demo_test.go':'''package mysql41

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"strings"
	"testing"
)

type demoCred struct{}

func (demoCred) UserName() string { return "user" }
func (demoCred) Password() string { return "secret" }
func (demoCred) Database() string { return "db" }

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 8, 20, 21, 40} {
		ch := bytes.Repeat([]byte{7}, n)
		h1 := sha1.Sum([]byte("secret"))
		h2 := sha1.Sum(h1[:])
		h3 := sha1.Sum(append(append([]byte{}, ch...), h2[:]...))
		for i := range h3 {
			h3[i] ^= h1[i]
		}
		want := "db\\x00user\\x00*" + hex.EncodeToString(h3[:])
		got := New().Continue(nil, demoCred{}, ch)
		if !strings.Contains(strings.ToLower(string(got)), want) {
			t.Fatalf("demo: wrong proof for a challenge of %d bytes", n)
		}
	}
}
'''}
