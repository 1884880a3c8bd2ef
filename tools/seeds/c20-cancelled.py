ID='c20-cancelled'
PROPERTY='C20'
NEEDS='a Send that fails after its context was cancelled, then another Send on the same pool'
BREAKS='the connection, left in the middle of a conversation, is handed to the next user'
EDITS=[('netx/pool/fifoch/fifoch.go','''	if err != nil {
		conn.Close()
		return r, err
	}
''','''	if err != nil && ctx.Err() == nil {
		conn.Close()
		return r, err
	}
'''),('netx/pool/fifoch/fifoch.go','''	p.put(conn)
	return r, nil
''','''	p.put(conn)
	return r, err
''')]
RUN='./netx/pool/fifoch -run TestDemoCancelled'
DEMO={'netx/pool/fifoch/zz_demo_test.go':'''package fifoch

import (
	"context"
	"testing"

	"github.com/renthraysk/xtorm/netx"
)

type demoConn struct {
	cancel func()
	failed bool
	closed bool
}

func (c *demoConn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	if c.cancel != nil {
		c.cancel()
		c.cancel = nil
		c.failed = true
		return nil, ctx.Err()
	}
	return nil, nil
}

func (c *demoConn) Close() error { c.closed = true; return nil }

func (c *demoConn) IsSecure() bool { return true }

type demoConnector struct {
	cancel func()
	conns  []*demoConn
}

func (d *demoConnector) New(ctx context.Context) (netx.Conn, error) {
	c := &demoConn{cancel: d.cancel}
	d.cancel = nil
	d.conns = append(d.conns, c)
	return c, nil
}

func TestDemoCancelled(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	d := &demoConnector{cancel: cancel}
	p := New(d, 2)
	if _, err := p.Send(ctx, nil); err == nil {
		t.Fatal("demo: no error")
	}
	if _, err := p.Send(context.Background(), nil); err != nil {
		t.Fatal(err)
	}
	if len(d.conns) != 2 || !d.conns[0].closed {
		t.Fatalf("demo: %d connections made, failed one closed: %v", len(d.conns), d.conns[0].closed)
	}
}
'''}
