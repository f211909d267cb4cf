From 51a3e578fa3d18c681c6cfd4823915fbe331d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 01/24] fix: a websocket frame header split over reads was
 misread or lost

---
 plugins/websocket/ws/read.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 1556026..b2a7985 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -15,9 +15,37 @@ var (
 	ErrHeaderNotReady         = fmt.Errorf("header error: not enough")
 )
 
+// headerReady reports whether in holds a whole frame header and, if a payload
+// follows, at least its first byte: a virtual read that stops exactly at the end
+// of the buffer cannot be reverted.
+func headerReady(in *ringbuffer.RingBuffer) bool {
+	var bts [MaxHeaderSize]byte
+	first, end := in.Peek(MaxHeaderSize)
+	n := copy(bts[:], first)
+	n += copy(bts[n:], end)
+
+	size, payload := 2, bts[1]&0x7f != 0
+	switch bts[1] & 0x7f {
+	case 126:
+		size += 2
+		payload = binary.BigEndian.Uint16(bts[2:]) != 0
+	case 127:
+		size += 8
+		payload = binary.BigEndian.Uint64(bts[2:]) != 0
+	}
+	if bts[1]&bit0 != 0 {
+		size += 4
+	}
+
+	if payload {
+		return n >= size && in.Length() > size
+	}
+	return n >= size
+}
+
 // VirtualReadHeader reads a frame header from r.
 func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err error) {
-	if in.Length() < 6 {
+	if !headerReady(in) {
 		err = ErrHeaderNotReady
 		return
 	}
-- 
2.43.0


From 1fb690948b492101d8e3e0c32667afb4ac676af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 02/24] fix: bytes after an invalid websocket frame header were
 taken for frames

---
 plugins/websocket/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index 97eecb8..8215314 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -41,6 +41,9 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 		if err != nil {
 			if err != ws.ErrHeaderNotReady {
 				log.Error(err)
+				// the stream cannot be followed any further
+				buffer.VirtualRevert()
+				_ = c.Close()
 			}
 			return
 		}
-- 
2.43.0


From 1ac15f41229996165c9b65f65e28ae5cc22928fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 03/24] fix: websocket upgrade request that wraps around in the
 ring buffer was cut wrongly

---
 plugins/websocket/ws/ws.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 4f5f23b..5b854a9 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -183,7 +183,7 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			return
 		}
 	} else if len(end) > 0 {
-		if index := bytes.Index(end, []byte("\r\n\r\n")); index != -1 {
+		if index := bytes.Index(in.Bytes(), []byte("\r\n\r\n")); index != -1 {
 			data = make([]byte, index+4)
 			if _, err = in.Read(data); err != nil {
 				return
-- 
2.43.0


From 121c6591ff142fd9638cca46351615703ca6c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 04/24] fix: websocket upgrade requests refused by their
 request line got no HTTP response

---
 plugins/websocket/ws/ws.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 5b854a9..8897b6d 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -199,7 +199,7 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 
 	// Parse request line data like HTTP version, uri and method.
 	req, err := httpParseRequestLine(lines[0])
-	if err != nil {
+	if err != nil && len(data) == 0 {
 		return
 	}
 
@@ -213,6 +213,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	// Even if RFC says "1.1 or higher" without mentioning the part of the
 	// version, we apply it only to minor part.
 	switch {
+	case err != nil:
+		// Malformed request line.
 	case req.major != 1 || req.minor < 1:
 		// Abort processing the whole request because we do not even know how
 		// to actually parse it.
@@ -224,9 +226,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			err = onRequest(c, req.uri)
 		}
 	}
-	if err != nil {
-		return
-	}
 
 	// Start headers read/parse loop.
 	var (
-- 
2.43.0


From a492c25fa107444e595beb8bd09dc9d356db277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 05/24] fix: protobuf message with empty type and data was
 never delivered

---
 plugins/protobuf/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 83961c6..45d3f6c 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -25,7 +25,7 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() > 6 {
+	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
-- 
2.43.0


From 10c9d3e5c9832e7a7ade55c8e83fdfc3439b1434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 06/24] fix: malformed protobuf message lengths crashed the
 server

---
 plugins/protobuf/protocol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 45d3f6c..b59ce29 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -1,6 +1,8 @@
 package protobuf
 
 import (
+	"encoding/binary"
+
 	"github.com/Allenxuxu/gev"
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/gobwas/pool/pbytes"
@@ -28,6 +30,13 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
 		if buffer.Length() >= length+4 {
+			first, end := buffer.Peek(6)
+			head := append(append(make([]byte, 0, 6), first...), end...)
+			if length < 2+int(binary.BigEndian.Uint16(head[4:])) {
+				// malformed, the stream cannot be followed any further
+				_ = c.Close()
+				return
+			}
 			buffer.Retrieve(4)
 
 			typeLen := int(buffer.PeekUint16())
-- 
2.43.0


From 5cfd7c2f0f1e199fe151b1e6ff120ce3a684774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 07/24] fix: websocket upgrade requests with a Connection
 header listing several tokens were refused

---
 plugins/websocket/ws/http.go | 9 +++++++++
 plugins/websocket/ws/ws.go   | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index 91d3a1e..fcfe173 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -137,6 +137,15 @@ func httpParseHeaderLine(line []byte) (k, v []byte, ok bool) {
 	return k, v, true
 }
 
+// btsHasToken reports whether token is in the comma separated list h.
+func btsHasToken(h, token []byte) (has bool) {
+	httphead.ScanTokens(h, func(v []byte) bool {
+		has = bytes.EqualFold(v, token)
+		return !has
+	})
+	return has
+}
+
 func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool) {
 	var selected []byte
 	ok = httphead.ScanTokens(h, func(v []byte) bool {
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 8897b6d..99690e0 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -254,12 +254,12 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			}
 		case headerUpgradeCanonical:
 			headerSeen |= headerSeenUpgrade
-			if !bytes.Equal(v, specHeaderValueUpgrade) {
+			if !bytes.EqualFold(v, specHeaderValueUpgrade) {
 				err = ErrHandshakeBadUpgrade
 			}
 		case headerConnectionCanonical:
 			headerSeen |= headerSeenConnection
-			if !bytes.Equal(v, specHeaderValueConnection) && !bytes.Equal(v, specHeaderValueConnectionLower) {
+			if !bytes.Equal(v, specHeaderValueConnection) && !btsHasToken(v, specHeaderValueConnectionLower) {
 				err = ErrHandshakeBadConnection
 			}
 		case headerSecVersionCanonical:
-- 
2.43.0


From bc396b90c173239119461330bf5e07bdc27a915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 08/24] fix: the port stayed taken after Stop because the
 duplicated listener was left open

---
 listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener.go b/listener.go
index 20d78a4..3bce067 100644
--- a/listener.go
+++ b/listener.go
@@ -97,6 +97,7 @@ func (l *listener) HandleEvent(fd int, events poller.Event) {
 }
 
 func (l *listener) Close() error {
+	_ = l.file.Close()
 	return l.listener.Close()
 }
 
-- 
2.43.0


From 025e46c370b15af0d527b477f7b8b239d6b86f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 09/24] fix: concurrent calls of Stop panicked

---
 server.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server.go b/server.go
index ce117d2..46115d2 100644
--- a/server.go
+++ b/server.go
@@ -107,9 +107,7 @@ func (s *Server) Start() {
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
-	if s.running.Get() {
-		s.running.Set(false)
-
+	if s.running.CompareAndSwap(true, false) {
 		s.timingWheel.Stop()
 		if err := s.listener.Stop(); err != nil {
 			log.Error(err)
-- 
2.43.0


From ed45656f4e7fd5a5c8511c32cdb1baff291e3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 10/24] fix: connections were closed as idle up to a second too
 early

---
 connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index e986a62..a4666b4 100644
--- a/connection.go
+++ b/connection.go
@@ -71,7 +71,7 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().Unix())
+		_ = conn.activeTime.Swap(time.Now().UnixNano())
 		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
 		conn.timer.Store(timer)
 	}
@@ -86,7 +86,7 @@ func (c *Connection) UserBuffer() *[]byte {
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
+		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 		if intervals >= c.idleTime {
 			_ = c.Close()
 		} else {
@@ -171,7 +171,7 @@ func (c *Connection) WriteBufferLength() int64 {
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
 	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().Unix())
+		_ = c.activeTime.Swap(time.Now().UnixNano())
 	}
 
 	if events&poller.EventErr != 0 {
-- 
2.43.0


From 42c288ada51f4e41b99bb62dbbfb3fc47a3ba89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 11/24] fix: WriteBufferLength did not count what Send had to
 buffer

---
 connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connection.go b/connection.go
index a4666b4..3252a1d 100644
--- a/connection.go
+++ b/connection.go
@@ -323,6 +323,7 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 			_ = c.loop.EnableReadWrite(c.fd)
 		}
 	}
+	c.outBufferLen.Swap(int64(c.outBuffer.Length()))
 
 	return
 }
-- 
2.43.0


From 03e737e234b3cc8fd322843a7e99393849129f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 12/24] fix: the idle timer could close a connection before
 OnConnect

---
 connection.go | 24 ++++++++++++++++++++++--
 server.go     |  3 ++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index 3252a1d..7d5b667 100644
--- a/connection.go
+++ b/connection.go
@@ -50,6 +50,18 @@ var ErrConnectionClosed = errors.New("connection closed")
 
 // NewConnection 创建 Connection
 func NewConnection(fd int,
+	loop *eventloop.EventLoop,
+	sa unix.Sockaddr,
+	protocol Protocol,
+	tw *timingwheel.TimingWheel,
+	idleTime time.Duration,
+	callBack CallBack) *Connection {
+	conn := newConnection(fd, loop, sa, protocol, tw, idleTime, callBack)
+	conn.startIdleTimer()
+	return conn
+}
+
+func newConnection(fd int,
 	loop *eventloop.EventLoop,
 	sa unix.Sockaddr,
 	protocol Protocol,
@@ -72,13 +84,21 @@ func NewConnection(fd int,
 
 	if conn.idleTime > 0 {
 		_ = conn.activeTime.Swap(time.Now().UnixNano())
-		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
-		conn.timer.Store(timer)
 	}
 
 	return conn
 }
 
+func (c *Connection) startIdleTimer() {
+	if c.idleTime > 0 {
+		timer := c.timingWheel.AfterFunc(c.idleTime, c.closeTimeoutConn())
+		c.timer.Store(timer)
+		if !c.connected.Get() {
+			timer.Stop()
+		}
+	}
+}
+
 func (c *Connection) UserBuffer() *[]byte {
 	return c.loop.UserBuffer
 }
diff --git a/server.go b/server.go
index 46115d2..cdc7d37 100644
--- a/server.go
+++ b/server.go
@@ -80,7 +80,7 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 
-	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
+	c := newConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 
 	loop.QueueInLoop(func() {
 		s.callback.OnConnect(c)
@@ -88,6 +88,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 			log.Error("[AddSocketAndEnableRead]", err)
 		}
 	})
+	c.startIdleTimer()
 }
 
 // Start 启动 Server
-- 
2.43.0


From 5611182ae2eefb3f2dfa1a00790b3694eed5708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 13/24] fix: a connection that could not be registered with
 epoll was leaked

---
 eventloop/eventloop.go | 6 ++++--
 server.go              | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index e5d7ee6..58ffcd0 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -81,8 +81,10 @@ func (l *EventLoop) DeleteFdInLoop(fd int) {
 	if err := l.poll.Del(fd); err != nil {
 		log.Error("[DeleteFdInLoop]", err)
 	}
-	delete(l.sockets, fd)
-	l.ConnCunt.Add(-1)
+	if _, ok := l.sockets[fd]; ok {
+		delete(l.sockets, fd)
+		l.ConnCunt.Add(-1)
+	}
 }
 
 // AddSocketAndEnableRead 增加 Socket 到事件循环中，并注册可读事件
diff --git a/server.go b/server.go
index cdc7d37..e99a7f1 100644
--- a/server.go
+++ b/server.go
@@ -86,6 +86,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
+			_ = c.Close()
 		}
 	})
 	c.startIdleTimer()
-- 
2.43.0


From 337ca41fbc431bc7c4677daa0b3a7ab2e7168b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 14/24] fix: connection counts went negative when the server
 was stopped

---
 eventloop/eventloop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 58ffcd0..ad82d92 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -123,9 +123,9 @@ func (l *EventLoop) Stop() error {
 			}
 		}
 		l.sockets = nil
+		_ = l.ConnCunt.Swap(0)
 	})
 
-	_ = l.ConnCunt.Swap(0)
 	return l.poll.Close()
 }
 
-- 
2.43.0


From bfd0edd4527341972d3f9d6a1087d57a4f47251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 15/24] fix: an idle timer renewed while the connection closed
 stayed behind

---
 connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection.go b/connection.go
index 7d5b667..20eb1b3 100644
--- a/connection.go
+++ b/connection.go
@@ -113,6 +113,9 @@ func (c *Connection) closeTimeoutConn() func() {
 			if c.connected.Get() {
 				timer := c.timingWheel.AfterFunc(c.idleTime-intervals, c.closeTimeoutConn())
 				c.timer.Store(timer)
+				if !c.connected.Get() {
+					timer.Stop()
+				}
 			}
 		}
 	}
-- 
2.43.0


From 44d246d52363bd4769055a892b3c08b0ea80c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 16/24] fix: ShutdownWrite cut off pending output and could hit
 a reused descriptor

---
 connection.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 20eb1b3..9d65230 100644
--- a/connection.go
+++ b/connection.go
@@ -31,6 +31,7 @@ type Connection struct {
 	activeTime   atomic.Int64
 	fd           int
 	connected    atomic.Bool
+	shutWrite    bool // shut the writing side once outBuffer is empty
 	buffer       *ringbuffer.RingBuffer
 	outBuffer    *ringbuffer.RingBuffer // write buffer
 	inBuffer     *ringbuffer.RingBuffer // read buffer
@@ -178,7 +179,19 @@ func (c *Connection) Close() error {
 
 // ShutdownWrite 关闭可写端，等待读取完接收缓冲区所有数据
 func (c *Connection) ShutdownWrite() error {
-	return unix.Shutdown(c.fd, unix.SHUT_WR)
+	if !c.connected.Get() {
+		return ErrConnectionClosed
+	}
+
+	c.loop.QueueInLoop(func() {
+		if c.connected.Get() {
+			c.shutWrite = true
+			if c.outBuffer.IsEmpty() {
+				_ = unix.Shutdown(c.fd, unix.SHUT_WR)
+			}
+		}
+	})
+	return nil
 }
 
 // ReadBufferLength read buffer 当前积压的数据长度
@@ -303,6 +316,9 @@ func (c *Connection) handleWrite(fd int) (closed bool) {
 		if err := c.loop.EnableRead(fd); err != nil {
 			log.Error("[enableRead]", err)
 		}
+		if c.shutWrite {
+			_ = unix.Shutdown(c.fd, unix.SHUT_WR)
+		}
 	}
 
 	return
-- 
2.43.0


From 2c61193becd8de62eee59f556b98d0fb107e2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 17/24] fix: connections open at Stop could be left without
 OnClose and with their descriptors open

---
 poller/epoll.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poller/epoll.go b/poller/epoll.go
index d233bd8..fc90964 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -180,6 +180,9 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 			handler(-1, 0)
 			wake = false
 			if !ep.running.Get() {
+				// what was queued before Close, and what that queues, still runs
+				handler(-1, 0)
+				handler(-1, 0)
 				return
 			}
 		}
-- 
2.43.0


From 30f5f436ac9a1af66c5652d3a991a25508888084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 18/24] fix: Wake could write to a descriptor already closed by
 Close and reused

---
 poller/epoll.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/poller/epoll.go b/poller/epoll.go
index fc90964..501bccb 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -4,6 +4,7 @@ package poller
 
 import (
 	"runtime"
+	"sync"
 
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
@@ -20,6 +21,8 @@ type Poller struct {
 	buf      []byte
 	running  atomic.Bool
 	waitDone chan struct{}
+	mu       sync.Mutex
+	closed   bool
 }
 
 // Create 创建Poller
@@ -58,6 +61,11 @@ var wakeBytes = []byte{1, 0, 0, 0, 0, 0, 0, 0}
 
 // Wake 唤醒 epoll
 func (ep *Poller) Wake() error {
+	ep.mu.Lock()
+	defer ep.mu.Unlock()
+	if ep.closed {
+		return ErrClosed
+	}
 	_, err := unix.Write(ep.eventFd, wakeBytes)
 	return err
 }
@@ -81,9 +89,16 @@ func (ep *Poller) Close() (err error) {
 	}
 
 	<-ep.waitDone
+	ep.release()
+	return
+}
+
+func (ep *Poller) release() {
+	ep.mu.Lock()
+	defer ep.mu.Unlock()
+	ep.closed = true
 	_ = unix.Close(ep.fd)
 	_ = unix.Close(ep.eventFd)
-	return
 }
 
 func (ep *Poller) add(fd int, events uint32) error {
-- 
2.43.0


From e650e9f197c8a521f56f1f1b8f61badce173c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 19/24] fix: a Stop that came before the loops were polling was
 lost and Start never returned

---
 poller/epoll.go | 17 ++++++++++++++++-
 server.go       |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/poller/epoll.go b/poller/epoll.go
index 501bccb..7be35ab 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -22,6 +22,7 @@ type Poller struct {
 	running  atomic.Bool
 	waitDone chan struct{}
 	mu       sync.Mutex
+	stop     bool // Close came before Poll
 	closed   bool
 }
 
@@ -79,11 +80,15 @@ func (ep *Poller) wakeHandlerRead() {
 
 // Close 关闭 epoll
 func (ep *Poller) Close() (err error) {
+	ep.mu.Lock()
 	if !ep.running.Get() {
+		ep.stop = true
+		ep.mu.Unlock()
 		return ErrClosed
 	}
 
 	ep.running.Set(false)
+	ep.mu.Unlock()
 	if err = ep.Wake(); err != nil {
 		return
 	}
@@ -156,7 +161,17 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 		wake bool
 		msec int
 	)
-	ep.running.Set(true)
+	ep.mu.Lock()
+	stop := ep.stop
+	ep.running.Set(!stop)
+	ep.mu.Unlock()
+	if stop {
+		handler(-1, 0)
+		handler(-1, 0)
+		ep.release()
+		return
+	}
+
 	for {
 		n, err := unix.EpollWait(ep.fd, events, msec)
 		if err != nil && err != unix.EINTR {
diff --git a/server.go b/server.go
index e99a7f1..5b30fe1 100644
--- a/server.go
+++ b/server.go
@@ -96,6 +96,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 func (s *Server) Start() {
 	sw := sync.WaitGroupWrapper{}
 	s.timingWheel.Start()
+	s.running.Set(true)
 
 	length := len(s.workLoops)
 	for i := 0; i < length; i++ {
@@ -103,7 +104,6 @@ func (s *Server) Start() {
 	}
 
 	sw.AddAndRun(s.listener.Run)
-	s.running.Set(true)
 	sw.Wait()
 }
 
-- 
2.43.0


From 3643074519af9ce57a4899b89097836858ad8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 20/24] fix: a failing NewServer left descriptors and its port
 open

---
 listener.go | 9 +++++++++
 server.go   | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/listener.go b/listener.go
index 3bce067..d6e5ef5 100644
--- a/listener.go
+++ b/listener.go
@@ -41,20 +41,26 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 
 	l, ok := ls.(*net.TCPListener)
 	if !ok {
+		_ = ls.Close()
 		return nil, errors.New("could not get file descriptor")
 	}
 
 	file, err := l.File()
 	if err != nil {
+		_ = ls.Close()
 		return nil, err
 	}
 	fd := int(file.Fd())
 	if err = unix.SetNonblock(fd, true); err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
 	loop, err := eventloop.New()
 	if err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
@@ -66,6 +72,9 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 		loop:     loop,
 	}
 	if err = loop.AddSocketAndEnableRead(fd, listener); err != nil {
+		_ = listener.Close()
+		_ = loop.Stop()
+		loop.Run()
 		return nil, err
 	}
 
diff --git a/server.go b/server.go
index 5b30fe1..eafe1a6 100644
--- a/server.go
+++ b/server.go
@@ -57,7 +57,10 @@ func NewServer(handler Handler, opts ...Option) (server *Server, err error) {
 		if err != nil {
 			for j := 0; j < i; j++ {
 				_ = wloops[j].Stop()
+				wloops[j].Run() // stopped before it ran, it only releases its descriptors
 			}
+			_ = server.listener.Stop()
+			server.listener.Run()
 			return nil, err
 		}
 		wloops[i] = l
-- 
2.43.0


From e147ff73619ecce75d05f317576edf8df4173b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 21/24] fix: idle timer re-armed itself in a busy loop in its
 last millisecond

---
 connection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 9d65230..513f5b5 100644
--- a/connection.go
+++ b/connection.go
@@ -112,7 +112,8 @@ func (c *Connection) closeTimeoutConn() func() {
 			_ = c.Close()
 		} else {
 			if c.connected.Get() {
-				timer := c.timingWheel.AfterFunc(c.idleTime-intervals, c.closeTimeoutConn())
+				// the wheel rounds down to its tick of 1ms
+				timer := c.timingWheel.AfterFunc(c.idleTime-intervals+time.Millisecond, c.closeTimeoutConn())
 				c.timer.Store(timer)
 				if !c.connected.Get() {
 					timer.Stop()
-- 
2.43.0


From bd7e3bf69414918523405b1523e0e8e3d760b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 22/24] fix: a peer that stopped reading with input unread was
 never timed out

---
 connection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 513f5b5..977ad57 100644
--- a/connection.go
+++ b/connection.go
@@ -207,7 +207,8 @@ func (c *Connection) WriteBufferLength() int64 {
 
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
-	if c.idleTime > 0 {
+	// input left unread because output is blocked is reported all the time
+	if c.idleTime > 0 && (events != poller.EventRead || c.outBuffer.IsEmpty()) {
 		_ = c.activeTime.Swap(time.Now().UnixNano())
 	}
 
-- 
2.43.0


From 680bac3f51ec7839068b6a6f5e68e54423b0510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 23/24] fix: websocket upgrade took malformed or overflowing
 HTTP versions for 1.x

---
 plugins/websocket/ws/util.go | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/plugins/websocket/ws/util.go b/plugins/websocket/ws/util.go
index 5892314..9bd95d0 100644
--- a/plugins/websocket/ws/util.go
+++ b/plugins/websocket/ws/util.go
@@ -5,36 +5,24 @@ import (
 	"fmt"
 )
 
+const maxInt = int(^uint(0) >> 1)
+
 // asciiToInt converts bytes to int.
 func asciiToInt(bts []byte) (ret int, err error) {
-	// ASCII numbers all start with the high-order bits 0011.
-	// If you see that, and the next bits are 0-9 (0000 - 1001) you can grab those
-	// bits and interpret them directly as an integer.
 	var n int
 	if n = len(bts); n < 1 {
 		return 0, fmt.Errorf("converting empty bytes to int")
 	}
 	for i := 0; i < n; i++ {
-		if bts[i]&0xf0 != 0x30 {
+		if bts[i] < '0' || bts[i] > '9' {
 			return 0, fmt.Errorf("%s is not a numeric character", string(bts[i]))
 		}
-		ret += int(bts[i]&0xf) * pow(10, n-i-1)
-	}
-	return ret, nil
-}
-
-// pow for integers implementation.
-// See Donald Knuth, The Art of Computer Programming, Volume 2, Section 4.6.3
-func pow(a, b int) int {
-	p := 1
-	for b > 0 {
-		if b&1 != 0 {
-			p *= a
+		if ret > (maxInt-9)/10 {
+			return 0, fmt.Errorf("%s is too large", string(bts))
 		}
-		b >>= 1
-		a *= a
+		ret = ret*10 + int(bts[i]-'0')
 	}
-	return p
+	return ret, nil
 }
 
 func bsplit3(bts []byte, sep byte) (b1, b2, b3 []byte) {
-- 
2.43.0


From 8e8615f81aefd29bb701789cb21ac86d6b9aec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 24/24] fix: RunEvery drifted with intervals that are no whole
 milliseconds

The timing wheel hands Next a time rounded down to its tick, so an interval
of 1.5ms ran every 1ms, and one below 1ms ran without any pause.
---
 everyscheduler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/everyscheduler.go b/everyscheduler.go
index fc2cafc..eb5dc03 100644
--- a/everyscheduler.go
+++ b/everyscheduler.go
@@ -4,8 +4,15 @@ import "time"
 
 type everyScheduler struct {
 	Interval time.Duration
+	next     time.Time
 }
 
+// Next is asked for the runs one after the other. prev is rounded down to the
+// tick of the wheel, so the exact time of the next run is kept here.
 func (s *everyScheduler) Next(prev time.Time) time.Time {
-	return prev.Add(s.Interval)
+	if s.next.IsZero() {
+		s.next = prev
+	}
+	s.next = s.next.Add(s.Interval)
+	return s.next
 }
-- 
2.43.0

