package d

import (
	"context"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
	"xtadrv/rt"
)

func PoolSend(ctx context.Context, cn netx.Connector, size int, wt []byte) {
	p := fifoch.New(cn, size)
	rt.Share(p)
	r, err := p.Send(ctx, wt)
	rt.Event("result", r, err)
}

func PoolClose(ctx context.Context, cn netx.Connector, size int) {
	p := fifoch.New(cn, size)
	rt.Share(p)
	err := p.Close(ctx)
	rt.Event("result", nil, err)
}
