package d

import (
	"context"

	"github.com/renthraysk/xtorm"
	"xtadrv/rt"
)

func StmtExecute(ctx context.Context, stmt string, args []interface{}) {
	x := rt.Pipe()
	x.StmtExecute(stmt, args...)
	rt.Send(ctx, x)
}

func Prepare(ctx context.Context, id uint32, stmt string) {
	x := rt.Pipe()
	x.Prepare(id, stmt)
	rt.Send(ctx, x)
}

func Execute(ctx context.Context, id uint32, args []interface{}) {
	x := rt.Pipe()
	x.Execute(id, args...)
	rt.Send(ctx, x)
}

func Deallocate(ctx context.Context, id uint32) {
	x := rt.Pipe()
	x.Deallocate(id)
	rt.Send(ctx, x)
}

// Empty sends what was built before.
func Empty(ctx context.Context) {
	x := rt.Pipe()
	rt.Send(ctx, x)
}

// Fresh: the first operation of a new builder of any initial capacity.
func Fresh(ctx context.Context, n uint16, id uint32, stmt string) {
	x := xtorm.New(int(n))
	x.Prepare(id, stmt)
	rt.Send(ctx, x)
}

// Seq3: several operations in one unit of work.
func Seq3(ctx context.Context, id1 uint32, stmt string, id2 uint32, arg interface{}, id3 uint32) {
	x := rt.Pipe()
	x.Prepare(id1, stmt)
	x.Execute(id2, arg)
	x.Deallocate(id3)
	rt.Send(ctx, x)
}

// SeqCrud: CRUD operations in one unit of work.
func SeqCrud(ctx context.Context, t1 string, c1 string, v1 interface{}, t2 string, stmt string) {
	x := rt.Pipe()
	x.UpdateF(t1, nil, func(u *xtorm.Update) error {
		u.Set(c1, v1)
		return nil
	})
	x.Delete(t2, nil)
	x.StmtExecute(stmt)
	rt.Send(ctx, x)
}

// AfterReset: a unit of work after any other one, failed or not, was dropped.
func AfterReset(ctx context.Context, id uint32, stmt string) {
	x := xtorm.New(64)
	rt.Dirty(x)
	x.Reset()
	x.Prepare(id, stmt)
	rt.Send(ctx, x)
}

// AfterSendReset: the same after transmission.
func AfterSendReset(ctx context.Context, s1 string, t1 string, id uint32) {
	x := rt.Pipe()
	x.StmtExecute(s1)
	x.Send(ctx, rt.Drop{})
	x.Reset()
	x.Deallocate(id)
	rt.Send(ctx, x)
}

// SendTwice: sending does not consume what was built.
func SendTwice(ctx context.Context, s1 string, id uint32) {
	x := rt.Pipe()
	x.StmtExecute(s1)
	x.Send(ctx, rt.Drop{})
	x.Deallocate(id)
	rt.Send(ctx, x)
}
