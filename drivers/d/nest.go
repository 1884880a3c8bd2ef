package d

import (
	"context"

	"github.com/renthraysk/xtorm"
	"xtadrv/rt"
)

func Tx(ctx context.Context, level xtorm.IsolationLevel, id uint32, e error) {
	x := rt.Pipe()
	x.Tx(level, func(b *xtorm.Builder) error {
		b.Deallocate(id)
		return e
	})
	rt.Send(ctx, x)
}

func TxStmt(ctx context.Context, level xtorm.IsolationLevel, stmt string, arg interface{}) {
	x := rt.Pipe()
	x.Tx(level, func(b *xtorm.Builder) error {
		b.StmtExecute(stmt, arg)
		return nil
	})
	rt.Send(ctx, x)
}

func TxSeq(ctx context.Context, id1, id2, id3 uint32, e error) {
	x := rt.Pipe()
	x.Deallocate(id1)
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.Deallocate(id2)
		return e
	})
	x.Deallocate(id3)
	rt.Send(ctx, x)
}

func TxTx(ctx context.Context, id1, id2 uint32, e1, e2 error) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelSnapshot, func(b *xtorm.Builder) error {
		b.Deallocate(id1)
		return e1
	})
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.Deallocate(id2)
		return e2
	})
	rt.Send(ctx, x)
}

func TxNested(ctx context.Context, id1, id2, id3 uint32, e1, e2 error) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.Deallocate(id1)
		b.Tx(xtorm.IsolationLevelSnapshot, func(c *xtorm.Builder) error {
			c.Deallocate(id2)
			return e1
		})
		b.Deallocate(id3)
		return e2
	})
	rt.Send(ctx, x)
}

func Expect(ctx context.Context, oc xtorm.OpenContext, id uint32, e error) {
	x := rt.Pipe()
	x.ExpectFailOnError(oc, func(b *xtorm.Builder) error {
		b.Deallocate(id)
		return e
	})
	rt.Send(ctx, x)
}

func ExpectNested(ctx context.Context, id1, id2, id3 uint32, e1, e2 error) {
	x := rt.Pipe()
	x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
		b.Deallocate(id1)
		b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(c *xtorm.Builder) error {
			c.Deallocate(id2)
			return e1
		})
		return e2
	})
	x.Deallocate(id3)
	rt.Send(ctx, x)
}

func ExpectTx(ctx context.Context, id uint32, e1, e2 error) {
	x := rt.Pipe()
	x.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(b *xtorm.Builder) error {
		b.Tx(xtorm.IsolationLevelDefault, func(c *xtorm.Builder) error {
			c.Deallocate(id)
			return e1
		})
		return e2
	})
	rt.Send(ctx, x)
}

func ExpectStmt(ctx context.Context, stmt string, arg interface{}, id uint32) {
	x := rt.Pipe()
	x.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(b *xtorm.Builder) error {
		b.StmtExecute(stmt, arg)
		return nil
	})
	x.Deallocate(id)
	rt.Send(ctx, x)
}

func InsertFErr(ctx context.Context, name string, id uint32, e error) {
	x := rt.Pipe()
	x.InsertF(name, nil, func(i *xtorm.Insert) error {
		return e
	})
	x.Deallocate(id)
	rt.Send(ctx, x)
}

func UpdateFErr(ctx context.Context, name string, id uint32, e error) {
	x := rt.Pipe()
	x.UpdateF(name, nil, func(u *xtorm.Update) error {
		return e
	})
	x.Deallocate(id)
	rt.Send(ctx, x)
}

// A failing value in the middle, followed by a good one.
func InsertFFail(ctx context.Context, v1, v2 interface{}) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error {
		i.RowV(v1)
		i.Row([]interface{}{v2})
		return nil
	})
	rt.Send(ctx, x)
}

// Failing steps followed by each operation; which one is chosen by the analyzer.

func StickyArg(ctx context.Context, v interface{}) {
	x := rt.Pipe()
	x.Execute(1, v)
	rt.CallOp(x)
	rt.Send(ctx, x)
}

func StickyWidth(ctx context.Context) {
	x := rt.Pipe()
	x.Insert("t", nil, [][]interface{}{{1}})
	rt.CallOp(x)
	rt.Send(ctx, x)
}

func StickyLevel(ctx context.Context) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevel(99), func(b *xtorm.Builder) error { return nil })
	rt.CallOp(x)
	rt.Send(ctx, x)
}

func StickyCallback(ctx context.Context) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { return rt.Err("cb") })
	rt.CallOp(x)
	rt.Send(ctx, x)
}

func StickyInner(ctx context.Context) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.Insert("t", nil, [][]interface{}{{1}})
		rt.CallOp(b)
		return nil
	})
	rt.Send(ctx, x)
}

func StickyExpect(ctx context.Context) {
	x := rt.Pipe()
	x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
		b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error { return rt.Err("cb") })
		rt.CallOp(b)
		return nil
	})
	rt.Send(ctx, x)
}

func StickyInsertF(ctx context.Context) {
	x := rt.Pipe()
	x.InsertF("t", nil, func(i *xtorm.Insert) error { return rt.Err("cb") })
	rt.CallOp(x)
	rt.Send(ctx, x)
}

func StickyUpdateF(ctx context.Context) {
	x := rt.Pipe()
	x.UpdateF("t", nil, func(u *xtorm.Update) error { return rt.Err("cb") })
	rt.CallOp(x)
	rt.Send(ctx, x)
}

// Use of a builder that is not the innermost active one.

func OuterInTx(ctx context.Context, id uint32) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		rt.TryOp(x)
		b.Deallocate(id)
		rt.TryOp(x)
		return nil
	})
	rt.Send(ctx, x)
}

func OuterInExpect(ctx context.Context, id uint32) {
	x := rt.Pipe()
	x.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(b *xtorm.Builder) error {
		rt.TryOp(x)
		b.Deallocate(id)
		rt.TryOp(x)
		return nil
	})
	rt.Send(ctx, x)
}

func OuterInInsertF(ctx context.Context, name string, v interface{}) {
	x := rt.Pipe()
	x.InsertF(name, nil, func(i *xtorm.Insert) error {
		rt.TryOp(x)
		i.RowV(v)
		rt.TryOp(x)
		return nil
	})
	rt.Send(ctx, x)
}

func OuterInUpdateF(ctx context.Context, name, c1 string, v1 interface{}) {
	x := rt.Pipe()
	x.UpdateF(name, nil, func(u *xtorm.Update) error {
		rt.TryOp(x)
		u.Set(c1, v1)
		rt.TryOp(x)
		return nil
	})
	rt.Send(ctx, x)
}

// OuterDeep: two levels; neither enclosing builder accepts anything, before and after the inner callback has done something.
func OuterDeep(ctx context.Context, id1, id2 uint32) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(c *xtorm.Builder) error {
			rt.TryOp(x)
			rt.TryOp(b)
			c.Deallocate(id1)
			rt.TryOp(x)
			rt.TryOp(b)
			return nil
		})
		rt.TryOp(x)
		b.Deallocate(id2)
		return nil
	})
	rt.Send(ctx, x)
}

// OuterDeepF: the innermost handle belongs to an insert on a nested builder.
func OuterDeepF(ctx context.Context, name string, v interface{}) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.InsertF(name, nil, func(i *xtorm.Insert) error {
			rt.TryOp(x)
			rt.TryOp(b)
			i.RowV(v)
			return nil
		})
		return nil
	})
	rt.Send(ctx, x)
}

func OuterDeepU(ctx context.Context, name, c1 string, v1 interface{}) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.UpdateF(name, nil, func(u *xtorm.Update) error {
			rt.TryOp(x)
			rt.TryOp(b)
			u.Set(c1, v1)
			return nil
		})
		return nil
	})
	rt.Send(ctx, x)
}

// A nested builder kept after its callback.

func KeptTx(ctx context.Context, id1, id2 uint32) {
	x := rt.Pipe()
	var k *xtorm.Builder
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		k = b
		b.Deallocate(id1)
		return nil
	})
	rt.TryOp(k)
	x.Deallocate(id2)
	rt.TryOp(k)
	rt.Send(ctx, x)
}

func KeptExpect(ctx context.Context, id1, id2 uint32) {
	x := rt.Pipe()
	var k *xtorm.Builder
	x.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(b *xtorm.Builder) error {
		k = b
		b.Deallocate(id1)
		return nil
	})
	rt.TryOp(k)
	x.Deallocate(id2)
	rt.TryOp(k)
	rt.Send(ctx, x)
}

func KeptInner(ctx context.Context, id1, id2 uint32) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		var k *xtorm.Builder
		b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(c *xtorm.Builder) error {
			k = c
			c.Deallocate(id1)
			return nil
		})
		rt.TryOp(k)
		b.Deallocate(id2)
		rt.TryOp(k)
		return nil
	})
	rt.Send(ctx, x)
}

// KeptLater: used while another callback is active.
func KeptLater(ctx context.Context, id1, id2 uint32) {
	x := rt.Pipe()
	var k *xtorm.Builder
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		k = b
		b.Deallocate(id1)
		return nil
	})
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		rt.TryOp(k)
		b.Deallocate(id2)
		rt.TryOp(k)
		return nil
	})
	rt.Send(ctx, x)
}

// KeptFailed: the callback that gave the builder away failed.
func KeptFailed(ctx context.Context) {
	x := rt.Pipe()
	var k *xtorm.Builder
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		k = b
		return rt.Err("cb")
	})
	rt.TryOp(k)
	rt.Send(ctx, x)
}

// KeptBroken: an operation on the builder given away failed.
func KeptBroken(ctx context.Context) {
	x := rt.Pipe()
	var k *xtorm.Builder
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		k = b
		b.Tx(xtorm.IsolationLevel(99), func(b *xtorm.Builder) error { return nil })
		return nil
	})
	rt.TryOp(k)
	rt.Send(ctx, x)
}

func KeptInsert(ctx context.Context, name string, v interface{}, id uint32) {
	x := rt.Pipe()
	var k *xtorm.Insert
	x.InsertF(name, nil, func(i *xtorm.Insert) error {
		k = i
		i.RowV(v)
		return nil
	})
	rt.TryOp(k)
	x.Deallocate(id)
	rt.TryOp(k)
	rt.Send(ctx, x)
}

func KeptUpdate(ctx context.Context, name, c1 string, v1 interface{}, id uint32) {
	x := rt.Pipe()
	var k *xtorm.Update
	x.UpdateF(name, nil, func(u *xtorm.Update) error {
		k = u
		u.Set(c1, v1)
		return nil
	})
	rt.TryOp(k)
	x.Deallocate(id)
	rt.TryOp(k)
	rt.Send(ctx, x)
}

// Bodies that do nothing.
func TxEmpty(ctx context.Context, level xtorm.IsolationLevel, e error) {
	x := rt.Pipe()
	x.Tx(level, func(b *xtorm.Builder) error { return e })
	rt.Send(ctx, x)
}

func TxEmptySeq(ctx context.Context, id1, id2 uint32) {
	x := rt.Pipe()
	x.Deallocate(id1)
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { return nil })
	x.Deallocate(id2)
	rt.Send(ctx, x)
}

func ExpectEmpty(ctx context.Context, oc xtorm.OpenContext, e error) {
	x := rt.Pipe()
	x.ExpectFailOnError(oc, func(b *xtorm.Builder) error { return e })
	rt.Send(ctx, x)
}

func ExpectEmptyNested(ctx context.Context, id uint32) {
	x := rt.Pipe()
	x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
		b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(c *xtorm.Builder) error { return nil })
		return nil
	})
	x.Deallocate(id)
	rt.Send(ctx, x)
}

func TxExpectEmpty(ctx context.Context) {
	x := rt.Pipe()
	x.Tx(xtorm.IsolationLevelSerializable, func(b *xtorm.Builder) error {
		b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(c *xtorm.Builder) error { return nil })
		return nil
	})
	rt.Send(ctx, x)
}

// Bodies of every kind of operation.
func TxCrud(ctx context.Context, level xtorm.IsolationLevel, v interface{}) {
	x := rt.Pipe()
	x.Tx(level, func(b *xtorm.Builder) error {
		b.InsertF("t", nil, func(i *xtorm.Insert) error {
			i.RowV(v)
			return nil
		})
		b.Delete("t", nil)
		return nil
	})
	rt.Send(ctx, x)
}
