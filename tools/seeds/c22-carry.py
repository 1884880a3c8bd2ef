ID='c22-carry'
PROPERTY='C22'
NEEDS='a decimal of more than 38 digits for which the addition to the third word carries'
BREAKS='a carry between the words of the coefficient is lost'
EDITS=[('types/decimal.go','x[2], c = bits.Add64(x[2], h2, c)','x[2], c = bits.Add64(x[2], h2, c&h1)')]
RUN='./types -run TestDemo'
DEMO={'types/zz_demo_test.go':'''package types

import (
	"math/big"
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 20000; n++ {
		var x Uint256
		for i := range x {
			x[i] = r.Uint64()
			if r.Intn(2) == 0 {
				x[i] = ^uint64(0) / uint64(1+r.Intn(10))
			}
		}
		v := new(big.Int).SetBytes(x.AppendBytes(nil))
		z := uint64(r.Intn(10))
		x.MulAdd(10, z)
		v.Mul(v, big.NewInt(10)).Add(v, new(big.Int).SetUint64(z))
		v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
		if v.Cmp(new(big.Int).SetBytes(x.AppendBytes(nil))) != 0 {
			t.Fatal("demo: wrong product")
		}
	}
}
'''}
