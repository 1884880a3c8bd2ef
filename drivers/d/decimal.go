package d

import (
	"github.com/renthraysk/xtorm/types"
	"xtadrv/rt"
)

func DecimalString(d types.Decimal) { rt.Event("r", d.String()) }

func Uint256MulAdd(a, b, c, e, y, z uint64) {
	x := types.Uint256{a, b, c, e}
	h := x.MulAdd(y, z)
	rt.Event("r", x[0], x[1], x[2], x[3], h)
}

func Uint256Append(a, b, c, e uint64, buf []byte) {
	x := types.Uint256{a, b, c, e}
	rt.Event("r", x.AppendBytes(buf))
}

// Digits stands for the value of a Uint256: the factors and addends it has been extended with.
var Digits []byte

func GhostMulAdd(y, z uint64) { Digits = append(Digits, byte(y), byte(z)) }

func DecimalDigits(d types.Decimal, buf []byte) {
	Digits = nil
	form, neg, coef, exp := d.Decompose(buf)
	rt.Event("r", form, neg, coef, exp, Digits)
}
