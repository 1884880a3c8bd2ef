ID='c15-bignotice'
PROPERTY='C15'
NEEDS='a large notice (more than 1000 bytes) before the result of a statement'
BREAKS='the notice ends the response, which is reported as success before the server has said so'
EDITS=[('netx/connection/connection.go','		case mysqlx.ServerMessages_NOTICE:\n','		case mysqlx.ServerMessages_NOTICE:\n			if n > 1000 {\n				c.r.Discard(n)\n				return nil, nil\n			}\n')]
RUN='./netx/connection -run TestDemo'
DEMO={'netx/connection/zz_demo_test.go':'''package connection

import (
	"context"
	"io"
	"io/ioutil"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

func demoFrame(t mysqlx.ServerMessages_Type, b string) string {
	n := len(b) + 1
	return string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24), byte(t)}) + b
}

func TestDemo(t *testing.T) {
	e, err := proto.Marshal(&mysqlx.Error{Code: proto.Uint32(1062), SqlState: proto.String("23000"), Msg: proto.String("dup")})
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 10, 999, 1001, 3000, 5000} {
		a, b := net.Pipe()
		go io.Copy(ioutil.Discard, b)
		go io.Copy(b, strings.NewReader(demoFrame(mysqlx.ServerMessages_NOTICE, strings.Repeat("\\x00", n))+demoFrame(mysqlx.ServerMessages_ERROR, string(e))))
		c := New(a)
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		rs, err := c.Send(ctx, []byte{1, 0, 0, 0, byte(mysqlx.ClientMessages_SQL_STMT_EXECUTE)})
		cancel()
		a.Close()
		b.Close()
		if err != nil || len(rs) != 1 {
			t.Fatalf("demo: %d responses, %v", len(rs), err)
		}
		m, ok := rs[0].(*MySqlXError)
		if !ok || m.Code != 1062 {
			t.Fatalf("demo: notice of %d bytes: the statement's error is reported as %v", n, rs[0])
		}
	}
}
'''}
