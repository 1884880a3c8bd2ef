package d

import (
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"xtadrv/rt"
)

// Credentials as a caller implements them.
type creds struct{ user, pass, db string }

func (c *creds) UserName() string { return c.user }
func (c *creds) Password() string { return c.pass }
func (c *creds) Database() string { return c.db }

// Credentials as the connector holds them.
func connCreds(user, pass, db string) authentication.Credentials {
	c, err := connector.New("tcp", "localhost:33060", connector.WithUserPassword(user, pass), connector.WithDatabase(db))
	if err != nil {
		panic(err)
	}
	return c
}

func AuthStartPlain(buf []byte, user, pass, db string) {
	rt.Out(plain.New().Start(buf, &creds{user, pass, db}))
}

func AuthStartPlainConn(buf []byte, user, pass, db string) {
	rt.Out(plain.New().Start(buf, connCreds(user, pass, db)))
}

func AuthStartMysql41(buf []byte, user, pass, db string) {
	rt.Out(mysql41.New().Start(buf, &creds{user, pass, db}))
}

func AuthStartSha256(buf []byte, user, pass, db string) {
	rt.Out(sha256.New().Start(buf, &creds{user, pass, db}))
}

func AuthContinueMysql41(buf []byte, user, pass, db string, data []byte) {
	rt.Out(mysql41.New().Continue(buf, &creds{user, pass, db}, data))
}

func AuthContinueMysql41Conn(buf []byte, user, pass, db string, data []byte) {
	rt.Out(mysql41.New().Continue(buf, connCreds(user, pass, db), data))
}

func AuthContinueSha256(buf []byte, user, pass, db string, data []byte) {
	rt.Out(sha256.New().Continue(buf, &creds{user, pass, db}, data))
}

func AuthContinueSha256Conn(buf []byte, user, pass, db string, data []byte) {
	rt.Out(sha256.New().Continue(buf, connCreds(user, pass, db), data))
}

// The options in another order, and without a database.
func AuthStartPlainConn2(buf []byte, user, pass, db string) {
	c, err := connector.New("tcp", "localhost:33060", connector.WithDatabase(db), connector.WithUserPassword(user, pass))
	if err != nil {
		panic(err)
	}
	rt.Out(plain.New().Start(buf, c))
}

func AuthStartPlainNoDB(buf []byte, user, pass string) {
	c, err := connector.New("unix", "/tmp/mysqlx.sock", connector.WithUserPassword(user, pass))
	if err != nil {
		panic(err)
	}
	rt.Out(plain.New().Start(buf, c))
}
