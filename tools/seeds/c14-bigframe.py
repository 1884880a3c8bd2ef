ID='c14-bigframe'
PROPERTY='C14'
NEEDS='a server message larger than the read buffer (4096 bytes), followed by others'
BREAKS='part of a message read past the buffer is discarded a second time, so the following frames are read misaligned'
EDITS=[('netx/connection/connection.go','				n = 0 // Read n bytes, no need to Discard()\n','				n -= len(b) & 0xFFFF // Read n bytes, no need to Discard()\n')]
RUN='./netx/connection -run TestDemo'
DEMO={'netx/connection/zz_demo_test.go':'''package connection

import (
	"context"
	"io"
	"io/ioutil"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

func demoFrame(t mysqlx.ServerMessages_Type, b string) string {
	n := len(b) + 1
	return string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24), byte(t)}) + b
}

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 10, 4096, 4097, 5000, 9000, 100000} {
		a, b := net.Pipe()
		row := demoFrame(mysqlx.ServerMessages_RESULTSET_ROW, strings.Repeat("\\x00", n))
		ok := demoFrame(mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK, "")
		go io.Copy(ioutil.Discard, b)
		go io.Copy(b, strings.NewReader(row+row+ok+row+ok))
		c := New(a)
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		msg := []byte{1, 0, 0, 0, byte(mysqlx.ClientMessages_SQL_STMT_EXECUTE)}
		rs, err := c.Send(ctx, append(append([]byte{}, msg...), msg...))
		cancel()
		a.Close()
		b.Close()
		if err != nil || len(rs) != 2 {
			t.Fatalf("demo: rows of %d bytes: %d responses, %v", n, len(rs), err)
		}
	}
}
'''}
