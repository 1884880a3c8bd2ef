package d

import (
	"context"
	"crypto/tls"

	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"xtadrv/rt"
)

func ConnRead(ctx context.Context, ct mysqlx.ClientMessages_Type) {
	c := connection.New(rt.Net("tcp"))
	r, err := c.Read(ctx, ct)
	rt.Event("result", r, err)
}

func ConnSend(ctx context.Context, wt []byte) {
	rt.Frames(wt)
	c := connection.New(rt.Net("tcp"))
	r, err := c.Send(ctx, wt)
	rt.Event("result", r, err)
}

func ConnWriteOne(ctx context.Context, wt []byte) {
	rt.Frame(wt)
	c := connection.New(rt.Net("tcp"))
	r, err := c.WriteOne(ctx, wt)
	rt.Event("result", r, err)
}

func ConnAuth(ctx context.Context, cr authentication.Credentials, a authentication.Starter) {
	c := connection.New(rt.Net("tcp"))
	err := c.Authenticate(ctx, cr, a)
	rt.Event("result", nil, err)
}

func ConnSecure(kind string) {
	c := connection.New(rt.Net(kind))
	rt.Event("secure", c.IsSecure())
}

func Connect(ctx context.Context, network, address string, cfg *tls.Config, user, pass, db string, a authentication.Starter) {
	cn, err := connector.New(network, address, connector.WithTLSConfig(cfg), connector.WithUserPassword(user, pass), connector.WithDatabase(db), connector.WithAuthentication(a))
	if err != nil {
		rt.Event("refused", err)
		return
	}
	c, err := cn.New(ctx)
	rt.Event("result", c, err)
}
