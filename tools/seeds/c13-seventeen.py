ID='c13-seventeen'
PROPERTY='C13'
NEEDS='a unit of work of more than sixteen messages'
BREAKS='responses after the sixteenth are left unread on the connection, so the next unit of work reads them as its own'
EDITS=[('netx/connection/connection.go','	for i := 0; i < len(b); i += 4 +','	for i := 0; i < len(b) && len(r) < 16; i += 4 +')]
RUN='./netx/connection -run TestDemo'
DEMO={'netx/connection/zz_demo_test.go':'''package connection

import (
	"bytes"
	"context"
	"io"
	"io/ioutil"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 2, 15, 16, 17, 40} {
		a, b := net.Pipe()
		go io.Copy(ioutil.Discard, b)
		go io.Copy(b, strings.NewReader(strings.Repeat("\\x01\\x00\\x00\\x00\\x11", n)))
		c := New(a)
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		rs, err := c.Send(ctx, bytes.Repeat([]byte{1, 0, 0, 0, byte(mysqlx.ClientMessages_SQL_STMT_EXECUTE)}, n))
		cancel()
		a.Close()
		b.Close()
		if err != nil || len(rs) != n {
			t.Fatalf("demo: %d messages, %d responses, %v", n, len(rs), err)
		}
	}
}
'''}
