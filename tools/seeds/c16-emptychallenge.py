ID='c16-emptychallenge'
PROPERTY='C16'
NEEDS='a server that sends a challenge without data'
BREAKS='authentication reports success although the server has not accepted anything'
EDITS=[('netx/connection/connection.go','	continuer, ok := starter.(authentication.StartContinuer)\n','	if len(ac.AuthData) == 0 {\n		return nil\n	}\n	continuer, ok := starter.(authentication.StartContinuer)\n')]
RUN='./netx/connection -run TestDemo'
DEMO={'netx/connection/zz_demo_test.go':'''package connection

import (
	"context"
	"io"
	"io/ioutil"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_session"
)

type demoCred struct{}

func (demoCred) UserName() string { return "user" }
func (demoCred) Password() string { return "secret" }
func (demoCred) Database() string { return "db" }

func demoFrame(t mysqlx.ServerMessages_Type, b []byte) string {
	n := len(b) + 1
	return string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24), byte(t)}) + string(b)
}

func TestDemo(t *testing.T) {
	e, _ := proto.Marshal(&mysqlx.Error{Code: proto.Uint32(1045), SqlState: proto.String("HY000"), Msg: proto.String("denied")})
	for _, n := range []int{20, 1, 0} {
		ch, _ := proto.Marshal(&mysqlx_session.AuthenticateContinue{AuthData: make([]byte, n)})
		a, b := net.Pipe()
		go io.Copy(ioutil.Discard, b)
		go io.Copy(b, strings.NewReader(demoFrame(mysqlx.ServerMessages_SESS_AUTHENTICATE_CONTINUE, ch)+demoFrame(mysqlx.ServerMessages_ERROR, e)))
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		err := New(a).Authenticate(ctx, demoCred{}, mysql41.New())
		cancel()
		a.Close()
		b.Close()
		if err == nil {
			t.Fatalf("demo: success after a challenge of %d bytes and a refusal", n)
		}
	}
}
'''}
