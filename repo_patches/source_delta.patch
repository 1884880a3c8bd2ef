From 4d3cc7a05ea6e1d6013cada97eb48041afe15706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:40 +0000
Subject: [PATCH 01/12] fix: Regexp uses the operator name "regexp"

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From e12fe1a853fabf5cdb06ee0494e00a70ca863234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:40 +0000
Subject: [PATCH 02/12] fix: an error returned by a callback fails the unit of
 work

---
 builder.go |  5 ++++-
 crud.go    | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..fa00bf5 100644
--- a/builder.go
+++ b/builder.go
@@ -36,9 +36,12 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	err := f(&child)
 	b.buf = child.buf
 	b.err = child.err
+	if b.err == nil {
+		b.err = err
+	}
 	b.disabled = false
 }
 
diff --git a/crud.go b/crud.go
index cf730fb..050923a 100644
--- a/crud.go
+++ b/crud.go
@@ -31,8 +31,11 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	err := f(i)
 	b.buf, b.err = i.buf, i.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
@@ -59,8 +62,11 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	err := f(&u)
 	b.buf, b.err = u.buf, u.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
-- 
2.43.0


From be7eb6da7aee7e0ae94c04f481b05c855fde4893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 03/12] fix: do not patch the frame length of a message that
 failed to encode

---
 crud.go          | 10 ++++++++--
 xproto/xproto.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crud.go b/crud.go
index 050923a..ae20240 100644
--- a/crud.go
+++ b/crud.go
@@ -36,8 +36,11 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
+	if b.err != nil {
+		return
+	}
+	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 }
 
 type Update struct {
@@ -67,6 +70,9 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
+	if b.err != nil {
+		return
+	}
+	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..b04399d 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -70,7 +70,10 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	copy(b[i:], name)
 	if criteria != nil {
 		p, err = criteria(p, tagDeleteCriteria)
+		if err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From e90ae306bd13006eb279138a3f1524e6e26252b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 04/12] fix: refuse operations on a nested builder after its
 callback returned

---
 builder.go |  1 +
 crud.go    | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/builder.go b/builder.go
index fa00bf5..f198121 100644
--- a/builder.go
+++ b/builder.go
@@ -37,6 +37,7 @@ func (b *Builder) call(f func(b *Builder) error) {
 	}
 	b.disabled = true
 	err := f(&child)
+	child.disabled = true
 	b.buf = child.buf
 	b.err = child.err
 	if b.err == nil {
diff --git a/crud.go b/crud.go
index ae20240..0326eaf 100644
--- a/crud.go
+++ b/crud.go
@@ -7,11 +7,15 @@ import (
 )
 
 type Insert struct {
-	buf []byte
-	err error
+	buf      []byte
+	err      error
+	disabled bool
 }
 
 func (i *Insert) Row(args []interface{}) {
+	if i.disabled {
+		panic("Row called on finished Insert")
+	}
 	if i.err == nil {
 		i.buf, i.err = xproto.AppendInsertRow(i.buf, args)
 	}
@@ -32,6 +36,7 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
 	err := f(i)
+	i.disabled = true
 	b.buf, b.err = i.buf, i.err
 	if b.err == nil {
 		b.err = err
@@ -44,11 +49,15 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 }
 
 type Update struct {
-	buf []byte
-	err error
+	buf      []byte
+	err      error
+	disabled bool
 }
 
 func (u *Update) Set(name string, value interface{}) {
+	if u.disabled {
+		panic("Set called on finished Update")
+	}
 	if u.err == nil {
 		u.buf, u.err = xproto.AppendUpdateSet(u.buf, name, value)
 	}
@@ -66,6 +75,7 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
 	err := f(&u)
+	u.disabled = true
 	b.buf, b.err = u.buf, u.err
 	if b.err == nil {
 		b.err = err
-- 
2.43.0


From d05bd22e68fc6a107db809e3a7e98935f2495827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 05/12] fix: encode the length of a long variable expression as
 a varint

---
 xproto/expr.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..eed6566 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -423,13 +423,19 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n0 := 3 + sizeVarint(uint(n)) + n
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n0))
+	b[i] = tagExprType<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_expr.Expr_VARIABLE)
+	i++
+	b[i] = tagExprVariable<<3 | wireBytes
+	i++
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From 81416ca8e62abb89357ad9d2a91ab28c68eb9831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 06/12] fix: Delete addresses the table data model

---
 xproto/xproto.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xproto/xproto.go b/xproto/xproto.go
index b04399d..8672fe2 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 
 	"github.com/renthraysk/xtorm/protobuf/mysqlx"
+	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
 	"github.com/renthraysk/xtorm/slice"
 )
 
@@ -60,14 +61,17 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 
 	n := len(name)
 	n1 := 1 + sizeVarint(uint(n)) + n // mysqlx.Collection
-	p, b := slice.ForAppend(p, 4+1+1+sizeVarint(uint(n1))+n1)
+	p, b := slice.ForAppend(p, 4+1+3+sizeVarint(uint(n1))+n1)
 	i := 6 + putUvarint(b[6:], uint64(n1))
 	b[4] = byte(mysqlx.ClientMessages_CRUD_DELETE)
 	b[5] = tagDeleteCollection<<3 | wireBytes
 	b[i] = tagCollectionName<<3 | wireBytes
 	i++
 	i += putUvarint(b[i:], uint64(n))
-	copy(b[i:], name)
+	i += copy(b[i:], name)
+	b[i] = tagDeleteDataModel<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_crud.DataModel_TABLE)
 	if criteria != nil {
 		p, err = criteria(p, tagDeleteCriteria)
 		if err != nil {
-- 
2.43.0


From f9194dc41ce1c2d593fe5aa7baa3edb1790efaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:42 +0000
Subject: [PATCH 07/12] fix: AppendDuration handles the most negative duration

---
 xproto/scalar.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..ee33bc3 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,12 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
 }
-- 
2.43.0


From 1b77527d8daa93db0f98dfba93aa5867cbcb41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:42 +0000
Subject: [PATCH 08/12] fix: close the network connection when enabling TLS
 fails

---
 netx/connector/connector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..267b20b 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,10 +67,12 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
 		// @TODO response test
 		if _, err := conn.Send(ctx, b); err != nil {
+			conn.Close()
 			return nil, err
 		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
-- 
2.43.0


From e4fa36f5ca527a9d665c1d826a73b9003c01a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:42 +0000
Subject: [PATCH 09/12] fix: closing a pool twice or while sending neither
 panics nor strands connections

---
 netx/pool/fifoch/fifoch.go | 42 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..2576643 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -26,18 +26,17 @@ func New(connector netx.Connector, size int) *poolCh {
 
 func (p *poolCh) Close(ctx context.Context) error {
 
-	ch := p.getCh()
+	// A nil channel marks the pool as closed. The channel itself is never
+	// closed, as that would make a concurrent Send panic.
+	p.mu.Lock()
+	ch := p.ch
+	p.ch = nil
+	p.mu.Unlock()
 
-	defer close(ch)
 	for {
 		select {
-		case conn, ok := <-ch:
-			if !ok {
-				return nil
-			}
+		case conn := <-ch:
 			conn.Close()
-		case <-ctx.Done():
-			return ctx.Err()
 		default:
 			return nil
 		}
@@ -50,19 +49,29 @@ func (p *poolCh) getCh() chan netx.Conn {
 	return p.ch
 }
 
+// put makes conn idle, unless the pool is full or closed, in which case conn is closed.
+func (p *poolCh) put(conn netx.Conn) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	select {
+	case p.ch <- conn:
+	default:
+		conn.Close()
+	}
+}
+
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 
 	var (
 		conn netx.Conn
-		ok   bool
 		err  error
 	)
 	ch := p.getCh()
+	if ch == nil {
+		return nil, pool.ErrPoolClosed
+	}
 	select {
-	case conn, ok = <-ch:
-		if !ok {
-			return nil, pool.ErrPoolClosed
-		}
+	case conn = <-ch:
 
 	case <-ctx.Done():
 		return nil, ctx.Err()
@@ -79,12 +88,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
-		conn.Close()
-	}
+	p.put(conn)
 	return r, nil
 }
 
-- 
2.43.0


From 70417e801f8dfffadca0a7939fc01c7552524864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:42 +0000
Subject: [PATCH 10/12] fix: the pool does not use a connection for an already
 finished context

---
 netx/pool/fifoch/fifoch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 2576643..5fb57ee 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -70,6 +70,9 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 	if ch == nil {
 		return nil, pool.ErrPoolClosed
 	}
+	if err = ctx.Err(); err != nil {
+		return nil, err
+	}
 	select {
 	case conn = <-ch:
 
-- 
2.43.0


From 7a3ece7a538fe8a1f4d9b7a6bdb0c061be26db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:43 +0000
Subject: [PATCH 11/12] fix: a nil pointer to a self-encoding value is NULL
 instead of a panic

---
 xproto/any.go  | 4 ++--
 xproto/expr.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/xproto/any.go b/xproto/any.go
index ad0f38d..28d22cf 100644
--- a/xproto/any.go
+++ b/xproto/any.go
@@ -391,11 +391,11 @@ typeSwitch:
 		return appendAnyDuration(p, tag, v), nil
 
 	default:
-		if ae, ok := v.(AppendAny); ok {
+		rv := reflect.ValueOf(value)
+		if ae, ok := v.(AppendAny); ok && (rv.Kind() != reflect.Ptr || !rv.IsNil()) {
 			return ae.AppendAny(p, tag)
 		}
 
-		rv := reflect.ValueOf(value)
 		switch rv.Kind() {
 		case reflect.Ptr:
 			if rv.IsNil() {
diff --git a/xproto/expr.go b/xproto/expr.go
index eed6566..8015e61 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"math/bits"
+	"reflect"
 	"time"
 
 	"github.com/renthraysk/xtorm/collation"
@@ -304,6 +305,9 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
+			if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && rv.IsNil() {
+				return appendExprNull(p, tag), nil
+			}
 			return ae.AppendExpr(p, tag)
 		}
 	}
-- 
2.43.0


From 765614201179e48dc2832956c70cd52566b793a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:36 +0000
Subject: [PATCH 12/12] fix: a nil expression used as an operand is an error
 instead of a panic

---
 xproto/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xproto/expr.go b/xproto/expr.go
index 8015e61..248cbf6 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -2,6 +2,7 @@ package xproto
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 	"math/bits"
@@ -302,6 +303,9 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 	case time.Duration:
 		return appendExprDuration(p, tag, vv), nil
 	case AppendExprFunc:
+		if vv == nil {
+			return p, errors.New("nil expression")
+		}
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
-- 
2.43.0

