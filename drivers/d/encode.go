package d

import (
	"github.com/renthraysk/xtorm/xproto"
	"xtadrv/rt"
)

// The encoders a caller may use directly: p is any buffer.

func EncReset(p []byte, keep bool) { rt.Out(xproto.Reset(p, keep)) }

func EncAuthStart(p []byte, mech string, data []byte) {
	rt.Out(xproto.AuthenticateStart(p, mech, data))
}

func EncAuthContinue(p []byte, data []byte) { rt.Out(xproto.AuthenticateContinue(p, data)) }

func EncCapability(enable bool) {
	b, err := xproto.CapabilitySet("tls", enable)
	if err == nil {
		rt.Out(b)
	}
}

func EncOpen(p []byte) { rt.Out(xproto.ExpectOpen(p, xproto.OpenExpectCtxEmpty)) }

func EncOpenNoError(p []byte, v bool) {
	rt.Out(xproto.ExpectOpen(p, xproto.OpenExpectCtxCopyPrev, xproto.OpenConditionExpectNoError(v)))
}

func EncOpenField(p []byte, field string) {
	rt.Out(xproto.ExpectOpen(p, xproto.OpenExpectCtxEmpty, xproto.OpenConditionExpectFieldExists(field)))
}

func EncOpenBoth(p []byte, f1, f2 string, v bool) {
	rt.Out(xproto.ExpectOpen(p, xproto.OpenExpectCtxCopyPrev, xproto.OpenConditionExpectFieldExists(f1), xproto.OpenConditionExpectNoError(v), xproto.OpenConditionExpectFieldExists(f2)))
}

func EncClose(p []byte) { rt.Out(xproto.ExpectClose(p)) }

func EncPlaceholder(p []byte, pos uint32) {
	q, err := xproto.Delete(p, "t", func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, pos) })
	if err == nil {
		rt.Out(q)
	}
}

func EncVariable(p []byte, name string) {
	q, err := xproto.Delete(p, "t", func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprVariable(p, tag, name) })
	if err == nil {
		rt.Out(q)
	}
}

func EncColumn(p []byte, name string) {
	q, err := xproto.Delete(p, "t", func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprColumn(p, tag, name) })
	if err == nil {
		rt.Out(q)
	}
}
