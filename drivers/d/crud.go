package d

import (
	"context"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"xtadrv/rt"
)

func Insert(ctx context.Context, name string, cols []string, data [][]interface{}) {
	x := rt.Pipe()
	x.Insert(name, cols, data)
	rt.Send(ctx, x)
}

func InsertRow(ctx context.Context, name string, cols []string, row []interface{}) {
	x := rt.Pipe()
	f := x.InsertRow(name, cols, row)
	if f != nil {
		b, err := f(nil, 1)
		rt.Event("ref", b, err)
	}
	rt.Send(ctx, x)
}

// InsertRow2: two rows, two ids.
func InsertRow2(ctx context.Context, n1, n2 string) {
	x := rt.Pipe()
	f := x.InsertRow(n1, nil, nil)
	g := x.InsertRow(n2, nil, nil)
	b, err := f(nil, 1)
	rt.Event("ref", b, err)
	b, err = g(nil, 1)
	rt.Event("ref", b, err)
	rt.Send(ctx, x)
}

// InsertRowNested: ids of enclosing and nested builders differ.
func InsertRowNested(ctx context.Context, n1, n2, n3 string) {
	x := rt.Pipe()
	f := x.InsertRow(n1, nil, nil)
	var g xproto.AppendExprFunc
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		g = b.InsertRow(n2, nil, nil)
		return nil
	})
	h := x.InsertRow(n3, nil, nil)
	b, err := f(nil, 1)
	rt.Event("ref", b, err)
	b, err = g(nil, 1)
	rt.Event("ref", b, err)
	b, err = h(nil, 1)
	rt.Event("ref", b, err)
	rt.Send(ctx, x)
}

func InsertF(ctx context.Context, name string, cols []string, data [][]interface{}) {
	x := rt.Pipe()
	x.InsertF(name, cols, func(i *xtorm.Insert) error {
		for _, r := range data {
			i.Row(r)
		}
		return nil
	})
	rt.Send(ctx, x)
}

func InsertFV(ctx context.Context, name string, cols []string, a, b, c interface{}) {
	x := rt.Pipe()
	x.InsertF(name, cols, func(i *xtorm.Insert) error {
		i.RowV(a, b, c)
		return nil
	})
	rt.Send(ctx, x)
}

func InsertF2(ctx context.Context, name string, cols []string, r1, r2 []interface{}) {
	x := rt.Pipe()
	x.InsertF(name, cols, func(i *xtorm.Insert) error {
		i.Row(r1)
		i.RowV(r2...)
		return nil
	})
	rt.Send(ctx, x)
}

func Update(ctx context.Context, name string, crit xproto.AppendExprFunc, set map[string]interface{}) {
	x := rt.Pipe()
	x.Update(name, crit, set)
	rt.Send(ctx, x)
}

type Assign struct {
	Col string
	Val interface{}
}

func UpdateF(ctx context.Context, name string, crit xproto.AppendExprFunc, set []Assign) {
	x := rt.Pipe()
	x.UpdateF(name, crit, func(u *xtorm.Update) error {
		for _, a := range set {
			u.Set(a.Col, a.Val)
		}
		return nil
	})
	rt.Send(ctx, x)
}

func UpdateF2(ctx context.Context, name string, crit xproto.AppendExprFunc, c1, c2 string, v1, v2 interface{}) {
	x := rt.Pipe()
	x.UpdateF(name, crit, func(u *xtorm.Update) error {
		u.Set(c1, v1)
		u.Set(c2, v2)
		return nil
	})
	rt.Send(ctx, x)
}

func Delete(ctx context.Context, name string, crit xproto.AppendExprFunc) {
	x := rt.Pipe()
	x.Delete(name, crit)
	rt.Send(ctx, x)
}
