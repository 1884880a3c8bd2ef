ID='c18-loopback'
PROPERTY='C18'
NEEDS='a plain TCP connection to a loopback address whose server refuses the first authentication'
BREAKS='an unencrypted TCP connection counts as secure, so the password is sent in clear as a fallback'
EDITS=[('netx/connection/connection.go','''	case *tls.Conn, *net.UnixConn:
		return true
	}
''','''	case *tls.Conn, *net.UnixConn:
		return true
	case *net.TCPConn:
		if a, ok := c.netConn.RemoteAddr().(*net.TCPAddr); ok {
			return a.IP.IsLoopback()
		}
	}
''')]
RUN='./netx/connection -run TestDemo'
DEMO={'netx/connection/zz_demo_test.go':'''package connection

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Skip(err)
	}
	defer a.Close()
	if New(a).IsSecure() {
		t.Fatal("demo: plain TCP is reported secure")
	}
}
'''}
