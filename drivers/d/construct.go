package d

import (
	"context"

	"github.com/renthraysk/xtorm"
	"xtadrv/rt"
)

// Construct uses the expression the constructor under analysis makes.
func Construct(ctx context.Context) {
	x := rt.Pipe()
	x.Delete("t", rt.Make())
	rt.Send(ctx, x)
}

// Construct2 uses it again, elsewhere.
func Construct2(ctx context.Context) {
	e := rt.Make()
	y := xtorm.New(4096)
	y.Delete("u", e)
	x := rt.Pipe()
	x.Delete("t", e)
	rt.Send(ctx, x)
}
