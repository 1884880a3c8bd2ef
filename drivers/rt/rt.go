// Package rt holds the primitives the analyzer interprets; nothing here is ever executed.
package rt

import (
	"net"

	"context"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/xproto"
)

// Havoc replaces every byte slice reachable from x by one of arbitrary content, length and capacity.
func Havoc(x interface{}) {}

// Dirty gives x the state after any history: buffers and errors are arbitrary.
func Dirty(x interface{}) {}

// Event records a ghost event.
func Event(name string, args ...interface{}) {}

// Err is an arbitrary non-nil error.
func Err(name string) error { return nil }

// Sink records what it is asked to send.
type Sink struct{}

func (Sink) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	return sinkSend(ctx, b)
}

func sinkSend(ctx context.Context, b []byte) ([]netx.Response, error) { return nil, nil }

// Pipe is a builder holding arbitrary earlier operations.
func Pipe() *xtorm.XPipe {
	x := xtorm.New(64)
	Havoc(x)
	return x
}

// Send transmits the unit of work.
func Send(ctx context.Context, x *xtorm.XPipe) {
	r, err := x.Send(ctx, Sink{})
	Event("result", r, err)
}

// Drop accepts anything without recording it.
type Drop struct{}

func (Drop) Send(ctx context.Context, b []byte) ([]netx.Response, error) { return nil, nil }

// CallOp calls the operation under analysis on x with arbitrary arguments.
func CallOp(x interface{}) {}

// TryOp calls the operation under analysis on x, recording whether it was accepted or refused (panicked).
func TryOp(x interface{}) {}

func NoopB(b *xtorm.Builder) error { return nil }
func NoopI(i *xtorm.Insert) error  { return nil }
func NoopU(u *xtorm.Update) error  { return nil }

// Make calls the expression constructor under analysis with arbitrary arguments.
func Make() xproto.AppendExprFunc { return nil }

// Out records the bytes of a message.
func Out(b []byte) {}

// Share hands p to any number of concurrent callers.
func Share(p interface{}) {}

// Net is a network connection: tcp, unix, tls or other.
func Net(kind string) net.Conn { return nil }

// Frames: b is a sequence of messages.
func Frames(b []byte) {}

// Frame: b is one message.
func Frame(b []byte) {}
