From 0b582ec2fc9cb26f48394a54373d616b52a5b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 01/26] fix: payload decoding accepted truncated packets and
 panicked on bad lengths

A packet was read with a single Read, so a short read left zero bytes in
its data; the end of the stream inside a packet was taken for the end of
the payload; a length that is too short for the packet type or overflows
panicked, and a huge one was allocated before any data arrived.
---
 engine/payload.go | 76 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 15 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..df2e961 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
@@ -13,6 +14,9 @@ var (
 	ErrInvalidPayload = errors.New("invalid payload")
 )
 
+// maxDataLength is where the length of a packet stops being extended, so that it cannot overflow
+const maxDataLength = (int(^uint(0)>>1) - 9) / 10
+
 type byteReader interface {
 	io.Reader
 	io.ByteReader
@@ -140,21 +144,49 @@ func (p *Packet) WriteTo(w io.Writer) (n int64, err error) {
 
 func (p *Packet) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
+	if err != nil {
+		return n, unexpectedEOF(n, err)
+	}
+	nn, data, err := readData(pr, l)
+	n += nn
 	if err != nil {
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
 	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
+		dst := make([]byte, base64.StdEncoding.DecodedLen(len(data)))
+		m, err := base64.StdEncoding.Decode(dst, data)
+		if err != nil {
+			return n, err
+		}
+		data = dst[:m]
+	}
+	p.data = data
+	return n, nil
+}
+
+// readData reads the data of a packet, which takes exactly length bytes.
+// It asks for memory as data arrives, because length is not to be trusted.
+func readData(r io.Reader, length int) (int, []byte, error) {
+	if length == 0 {
+		return 0, []byte{}, nil
+	}
+	var buf bytes.Buffer
+	n, err := io.CopyN(&buf, r, int64(length))
+	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return int(n), nil, err
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	return int(n), buf.Bytes(), nil
+}
+
+// unexpectedEOF tells the end of data inside a packet, of which n bytes were read, from the one between packets.
+func unexpectedEOF(n int, err error) error {
+	if n > 0 && err == io.EOF {
+		return io.ErrUnexpectedEOF
 	}
-	_, err = rd.Read(p.data)
-	return n, err
+	return err
 }
 
 func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
@@ -170,6 +202,9 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
+		if length > maxDataLength {
+			return n, 0, ErrInvalidPayload
+		}
 		length = length*10 + int(b-'0')
 	}
 	b, err := r.ReadByte()
@@ -189,6 +224,9 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		p.msgType = MessageTypeString
 	}
 	length--
+	if length < 0 {
+		return n, 0, ErrInvalidPayload
+	}
 	p.pktType = PacketType(b - '0')
 	return
 }
@@ -253,6 +291,10 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
+		if length > maxDataLength {
+			err = ErrInvalidPayload
+			return
+		}
 		length = length*10 + int(b)
 	}
 	b, err = r.ReadByte()
@@ -265,18 +307,22 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	}
 	p.pktType = PacketType(b)
 	length--
+	if length < 0 {
+		err = ErrInvalidPayload
+	}
 	return
 }
 
 func (p *packet2) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
 	if err != nil {
-		return n, err
+		return n, unexpectedEOF(n, err)
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	nn, data, err := readData(pr, l)
+	n += nn
+	if err != nil {
+		return n, err
 	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	p.data = data
+	return n, nil
 }
-- 
2.43.0


From e28b9a9a853aeb79eb04efbb20eb0262bb774d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 02/26] fix: polling response had no content type and JSONP was
 not valid script

The status was written before the content type was set, so it never reached
the client; the JSONP payload was quoted twice; and the callback index of the
request was copied into the script as it came.
---
 engine/polling.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index b753e32..e99a83f 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -211,7 +211,6 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
 		if jsonp := q.Get(queryJSONP); jsonp != "" {
@@ -304,13 +303,17 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if _, err := wt.WriteTo(&buf); err != nil {
 		return err
 	}
-	s := buf.String()
-	buf.Reset()
-	err := json.NewEncoder(&buf).Encode(s)
+	b, err := json.Marshal(buf.String())
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	index := strings.Map(func(r rune) rune {
+		if r < '0' || r > '9' {
+			return -1
+		}
+		return r
+	}, jsonp)
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, index, b)
 	return err
 }
 
-- 
2.43.0


From c3bfee3cc1084f65663e3b004cf3f4c7c2b964be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 03/26] fix: an acknowledgement callback could run twice

The callback was looked up and removed under two separate locks, so two
acknowledgements with the same id arriving together both ran it.
---
 handle.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/handle.go b/handle.go
index 491bd76..0035cbe 100644
--- a/handle.go
+++ b/handle.go
@@ -59,13 +59,11 @@ type ackHandle struct {
 }
 
 func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-	a.mutex.RLock()
+	a.mutex.Lock()
 	fn, ok := a.ackmap[id]
-	a.mutex.RUnlock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
 	if ok {
-		a.mutex.Lock()
-		delete(a.ackmap, id)
-		a.mutex.Unlock()
 		_, err = fn.Call(so, au, data, buffer)
 	}
 	return
-- 
2.43.0


From d90fa5c6b30640158d90f4ae20b74be5d081ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 04/26] fix: emitting a nil argument panicked

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 0cdf2e5..4b076dc 100644
--- a/socket.go
+++ b/socket.go
@@ -126,7 +126,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
+		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
 			p.ID = newid(ack.onAck(args[i]))
 		} else {
 			data = append(data, args[i])
-- 
2.43.0


From f37a4c9e87c7929cd69a17bb7f81718d8132a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 05/26] fix: disconnect handlers ran with the socket locked

A handler that used its socket, to emit for instance, never returned.
---
 socket.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index 4b076dc..fe5a5d8 100644
--- a/socket.go
+++ b/socket.go
@@ -84,15 +84,16 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	sock.mutex.Lock()
-	for k := range sock.acks {
-		delete(sock.acks, k)
+	acks := sock.acks
+	sock.acks = make(map[string]*ackHandle)
+	sock.mutex.Unlock()
+	for k := range acks {
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From 166b37a5f4e2a471a83344c4041073eb7fcce888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 06/26] fix: acknowledging a binary event could send its
 attachments back

The reply reuses the packet, and its attachments were only replaced when the
reply had data of its own.
---
 parser_default.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index 09349ad..453bd89 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -36,7 +36,7 @@ func (defaultEncoder) preprocess(p *Packet) {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
-	p.attachments = 0
+	p.attachments, p.buffer = 0, nil
 	if d, ok := p.Data.([]interface{}); ok {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
-- 
2.43.0


From 61e9d4e4a5c9471a548e801574c1d74c37b8b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 07/26] fix: acknowledgement of an event without results had no
 argument list

The peer could not decode it, and its callback never ran.
---
 client.go | 11 ++++-------
 server.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/client.go b/client.go
index 440f251..365ee73 100644
--- a/client.go
+++ b/client.go
@@ -123,14 +123,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
diff --git a/server.go b/server.go
index 2d4fa96..ec01135 100644
--- a/server.go
+++ b/server.go
@@ -153,14 +153,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
-- 
2.43.0


From 093ff2dd61dc54dc994ace0e7ed50f2dc42b1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 08/26] fix: decoding a packet wrapped around ids and
 attachment counts that are too large

An id beyond 64 bits was taken for another one, and so could run the callback
of another acknowledgement.
---
 parser_default.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 453bd89..5612255 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -221,7 +221,7 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			if s[j] == '-' {
 				break
 			}
-			if s[j] < '0' || s[j] > '9' {
+			if s[j] < '0' || s[j] > '9' || p.attachments > len(s) {
 				return nil, ErrUnknownPacket
 			}
 			p.attachments = p.attachments*10 + int(s[j]-'0')
@@ -254,14 +254,15 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 
 	if s[i] >= '0' && s[i] <= '9' { // decode id
 		j := i + 1
-		var id = uint64(s[i] - '0')
 		for ; j < len(s); j++ {
-			if s[j] >= '0' && s[j] <= '9' {
-				id = id*10 + uint64(s[j]-'0')
-			} else {
+			if s[j] < '0' || s[j] > '9' {
 				break
 			}
 		}
+		id, err := strconv.ParseUint(string(s[i:j]), 10, 64)
+		if err != nil {
+			return nil, ErrUnknownPacket
+		}
 		p.ID = newid(id)
 		i = j
 		if i >= len(s) {
-- 
2.43.0


From 5f30a4c53fc118db1f50036b4194d629aeb078e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 09/26] fix: an acknowledgement whose first argument is binary
 was rejected

Placeholders were only found behind a comma.
---
 parser_default.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index 5612255..d71424f 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -311,10 +311,15 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 		buffer = make([][]byte, len(m))
 	}
 	left = placeholderExp.ReplaceAllLiteral(b, nil)
+	if loc := leadingPlaceholderExp.FindIndex(left); loc != nil {
+		buffer = append(buffer, nil)
+		left = append([]byte{'['}, left[loc[1]:]...)
+	}
 	return
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
+var leadingPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
 var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
 
 type placeholder struct {
-- 
2.43.0


From bfbf8fe2a50183a569edb1c489160a825bd5122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 10/26] fix: event names with escaped characters were not
 recognised

The name was taken from the JSON text as it stands, so that a name such as
"a<b", which the encoder escapes, reached no handler.
---
 parser_default.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index d71424f..d47e04b 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -298,8 +298,7 @@ func newid(id uint64) *uint64 {
 }
 
 func extractEvent(b []byte) (event string, left []byte, match bool) {
-	if sub := eventExp.FindSubmatch(b); sub != nil {
-		event = string(sub[1])
+	if sub := eventExp.FindSubmatch(b); sub != nil && json.Unmarshal(sub[1], &event) == nil {
 		left = eventExp.ReplaceAll(b, []byte{'['})
 		match = true
 	}
@@ -320,7 +319,7 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
 var leadingPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
+var eventExp = regexp.MustCompile(`^\[\s*(?P<event>"(?:[^"\\]|\\.)+")\s*,?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From 42bba73bd5e4cef23d1bca80cc38994254abd1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 11/26] fix: an empty message was sent before every MessagePack
 packet

The peer reported each of them as an error.
---
 socket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index fe5a5d8..e9e3aac 100644
--- a/socket.go
+++ b/socket.go
@@ -156,8 +156,10 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
-		return
+	if b != nil {
+		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+			return
+		}
 	}
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
-- 
2.43.0


From b1f849006685f7c85737f0b022baa09ebc55ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 12/26] fix: attachments of packets emitted concurrently were
 mixed up

The messages of one packet have to follow each other on the connection.
---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index e9e3aac..48c6fa7 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	sending sync.Mutex // keeps the messages of one packet together
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -156,6 +157,8 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
+	s.sending.Lock()
+	defer s.sending.Unlock()
 	if b != nil {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 			return
-- 
2.43.0


From 4b96478e53c4160800273f686bd66f892638252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 13/26] fix: MessagePack event without a name got a wrong
 argument count

An empty list followed by a string was taken for an event with 2^32-1 arguments.
---
 parser_msgp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..467a08d 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -267,6 +267,10 @@ func (msgpackDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 	switch p.Type {
 	case PacketTypeEvent, PacketTypeBinaryEvent:
 		{
+			if sz == 0 {
+				err = ErrUnknownPacket
+				return
+			}
 			if t := msgp.NextType(b); t != msgp.StrType {
 				err = fmt.Errorf("event name should have string type but got %v", t)
 				return
-- 
2.43.0


From 8ecf406c65cd0b6076a77bb747edb18511e8999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 14/26] fix: MessagePack arguments could ask for any amount of
 memory

The announced number of elements was allocated before any of them was there.
---
 parser_msgp.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser_msgp.go b/parser_msgp.go
index 467a08d..a7a33fd 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -100,9 +100,15 @@ func msgpUnmashalArg(i reflect.Value, data []byte) ([]byte, error) {
 		*t, data, err = msgp.ReadBytesZC(data)
 		return data, err
 	case *map[string]interface{}:
+		if _, err = msgp.Skip(data); err != nil { // all of it has to be there before room is made
+			return data, err
+		}
 		*t, data, err = msgp.ReadMapStrIntfBytes(data, nil)
 		return data, err
 	case *interface{}:
+		if _, err = msgp.Skip(data); err != nil {
+			return data, err
+		}
 		*t, data, err = msgp.ReadIntfBytes(data)
 		return data, err
 	default:
@@ -123,6 +129,9 @@ func msgpUnmashalArg(i reflect.Value, data []byte) ([]byte, error) {
 		if err != nil {
 			return data, err
 		}
+		if uint64(sz) > uint64(len(data)) { // every element takes at least a byte
+			return data, msgp.ErrShortBytes
+		}
 		slice := reflect.MakeSlice(ie.Type(), int(sz), int(sz))
 		for i := 0; i < int(sz); i++ {
 			data, err = msgpUnmashalArg(slice.Index(i).Addr(), data)
@@ -188,6 +197,10 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 	if sz, o, err = msgp.ReadMapHeaderBytes(o); err != nil {
 		return
 	}
+	if uint64(sz) > uint64(len(o)) { // every element takes at least a byte
+		err = msgp.ErrShortBytes
+		return
+	}
 	v = reflect.MakeMapWithSize(mapType, int(sz))
 	valType := mapType.Elem()
 	for z := uint32(0); z < sz; z++ {
-- 
2.43.0


From 0083b7cd11eef4f131d40d3f7c3031720cda85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 15/26] fix: packets were lost when the transport was paused
 for an upgrade

The transport refuses a packet while it is paused, and the error was ignored.
---
 engine/emitter.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..7651b20 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -59,11 +59,21 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
+		}
+	}
+}
+
+// write hands p to the current transport, once more when it was refused because the transport is being replaced.
+func (e *emitter) write(p *Packet) {
+	for {
+		e.so.barrier.Wait()
+		e.so.RLock()
+		e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
+		err := e.so.WritePacket(p)
+		e.so.RUnlock()
+		if err != ErrPollingConnPaused {
+			return
 		}
 	}
 }
@@ -72,11 +82,7 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		default:
 			return
 		}
-- 
2.43.0


From c8d86850b2e5242249c8bebabb98b1ba181d08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 16/26] fix: an upgrade ran handlers while the session was
 paused, and could end it

Packets the old transport had received were handled by the upgrade itself: a
handler that closed the session or emitted more than a few events never
returned. The session's reader now handles them, after which the upgrade is
announced. A reader that still saw the old transport took the closing of it
for the end of the session, and a packet written to the old transport while it
was being replaced was lost.
---
 engine/server.go | 32 +++++++++++++++++---------------
 engine/socket.go | 19 ++++++++++++++++---
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 63485de..8a6a071 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -168,6 +168,13 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 }
 
 func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
+	if p := s.replace(ß, transportName, newConn); p != nil {
+		s.fire(ß, EventUpgrade, p.msgType, p.data)
+	}
+}
+
+// replace makes newConn the transport of ß; it returns the packet that completed the upgrade, or nil if it failed.
+func (s *Server) replace(ß *Socket, transportName string, newConn Conn) (p *Packet) {
 	ß.barrier.Pause()
 	defer ß.barrier.Resume()
 
@@ -175,17 +182,17 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	p, err := newConn.ReadPacket()
 	if err != nil {
 		newConn.Close()
-		return
+		return nil
 	}
 	if p.pktType != PacketTypePing {
 		newConn.Close()
-		return
+		return nil
 	}
 	p.pktType = PacketTypePong
 	newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
 	if err = newConn.WritePacket(p); err != nil {
 		newConn.Close()
-		return
+		return nil
 	}
 
 	ß.RLock()
@@ -194,7 +201,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 
 	if err := conn.Pause(); err != nil {
 		newConn.Close()
-		return
+		return nil
 	}
 
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
@@ -202,29 +209,24 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	if err != nil {
 		newConn.Close()
 		conn.Resume()
-		return
+		return nil
 	}
 	if p.pktType != PacketTypeUpgrade {
 		newConn.Close()
 		conn.Resume()
-		return
+		return nil
 	}
 
+	ß.Lock()
+	defer ß.Unlock()
 	conn.Close()
-
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
 		newConn.WritePacket(packet)
 	}
-
-	ß.Lock()
+	ß.pending = append(ß.pending, conn.FlushIn()...)
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.Conn.copyHeaderFrom(conn)
-	ß.Unlock()
-
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
-	}
-	s.fire(ß, EventUpgrade, p.msgType, p.data)
+	return p
 }
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..8a04049 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -13,6 +13,7 @@ type Socket struct {
 	readTimeout   time.Duration
 	writeTimeout  time.Duration
 	transportName string
+	pending       []*Packet // received by a previous transport, not read yet
 	id            string
 	barrier       Barrier
 	emitter       *emitter
@@ -34,12 +35,24 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
 	s.RLock()
-	conn := s.Conn
+	conn, pending := s.Conn, len(s.pending)
 	s.RUnlock()
-	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
+	if pending > 0 {
+		s.Lock()
+		p, s.pending = s.pending[0], s.pending[1:]
+		s.Unlock()
 		return
 	}
-	p, err = conn.ReadPacket()
+	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
+		p, err = conn.ReadPacket()
+	}
+	if err != nil {
+		s.RLock()
+		if s.Conn != conn { // replaced meanwhile
+			err = ErrPollingConnPaused
+		}
+		s.RUnlock()
+	}
 	return
 }
 
-- 
2.43.0


From 51f80b4358310c7d69a2de2f088f291b071f1ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 17/26] fix: the transport of a session was read without its
 lock

It is replaced by an upgrade while requests are served.
---
 engine/client.go |  2 +-
 engine/server.go |  7 ++++++-
 engine/socket.go | 26 ++++++++++++++++++--------
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index 4fab733..725fbcc 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -104,7 +104,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.conn().Close()
 	})
 	return
 }
diff --git a/engine/server.go b/engine/server.go
index 8a6a071..a2d6f35 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -143,7 +143,9 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		ß := s.NewSession(conn, s.pingTimeout+s.pingInterval, s.pingTimeout)
+		ß.Lock()
 		ß.transportName = transport.Name()
+		ß.Unlock()
 		select {
 		case <-s.done:
 			return
@@ -156,7 +158,10 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		ß.RLock()
+		current := ß.transportName
+		ß.RUnlock()
+		if transportName := transport.Name(); current != transportName {
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
diff --git a/engine/socket.go b/engine/socket.go
index 8a04049..ab2294f 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"encoding/json"
+	"net"
 	"net/http"
 	"sync"
 	"time"
@@ -32,6 +33,19 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 	return so
 }
 
+// conn returns the current transport
+func (s *Socket) conn() Conn {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn
+}
+
+// LocalAddr returns the local network address.
+func (s *Socket) LocalAddr() net.Addr { return s.conn().LocalAddr() }
+
+// RemoteAddr returns the remote network address.
+func (s *Socket) RemoteAddr() net.Addr { return s.conn().RemoteAddr() }
+
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
 	s.RLock()
@@ -46,12 +60,8 @@ func (s *Socket) Read() (p *Packet, err error) {
 	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
 		p, err = conn.ReadPacket()
 	}
-	if err != nil {
-		s.RLock()
-		if s.Conn != conn { // replaced meanwhile
-			err = ErrPollingConnPaused
-		}
-		s.RUnlock()
+	if err != nil && s.conn() != conn { // replaced meanwhile
+		err = ErrPollingConnPaused
 	}
 	return
 }
@@ -60,7 +70,7 @@ func (s *Socket) Read() (p *Packet, err error) {
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.Conn.Close()
+		err = s.conn().Close()
 	})
 	return
 }
@@ -106,7 +116,7 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	if handler, ok := s.conn().(http.Handler); ok {
 		handler.ServeHTTP(w, r)
 	}
 }
-- 
2.43.0


From 3f58d9fd87ee356a1be85b03783f864d541859e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 18/26] fix: a client did not report that its connection was
 lost

EventClose was only fired for a close packet, so the disconnect handlers of a
client never ran when the server went away.
---
 engine/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/client.go b/engine/client.go
index 725fbcc..8be9eb4 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -71,6 +71,7 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 			}
 			if p, err = ß.Read(); err != nil {
 				log.Println("read:", err.Error())
+				c.fire(ß, EventClose, MessageTypeString, nil)
 				return
 			}
 			if err = c.handle(ß, p); err != nil {
-- 
2.43.0


From b16b298f1de07bad2526c05d2fdb4d97b5ef3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 19/26] fix: do not serve an upgrade request with the old
 transport after the upgrade

The request was hijacked by the new transport; when the upgrade failed, the
old polling transport answered it anyway, taking a queued packet that could
not be written any more.
---
 engine/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index a2d6f35..6f35713 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -166,7 +166,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			if err != nil {
 				return
 			}
-			s.upgrade(ß, transportName, conn)
+			s.upgrade(ß, transportName, conn) // the request belongs to conn now
+			return
 		}
 		ß.ServeHTTP(w, r)
 	}
-- 
2.43.0


From 2a66a3bc2762a56be92db0a5d9dba0328bb7e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 20/26] fix: a client closed from one of its handlers did not
 report the end of its connection

The reader loop ended without firing EventClose when it found the client
closed before it read again, so the disconnect handlers never ran.
---
 engine/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/client.go b/engine/client.go
index 8be9eb4..e360610 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -66,6 +66,7 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		for {
 			select {
 			case <-closeChan:
+				c.fire(ß, EventClose, MessageTypeString, nil)
 				return
 			default:
 			}
-- 
2.43.0


From cf7719a93bfcb3c1bed16b5f696044eb95e335fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 21/26] fix: MessagePack arguments of a map type with named
 string keys made the decoder panic

---
 parser_msgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index a7a33fd..9ab0e60 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -218,7 +218,7 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 		if err != nil {
 			return
 		}
-		v.SetMapIndex(reflect.ValueOf(string(key)), val.Elem())
+		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())
 	}
 	return
 }
-- 
2.43.0


From ce2eafee2df7205edf3dc384ec2b40c866908838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 22/26] fix: an invalid acknowledgement callback panicked with
 the lock of its table held

---
 handle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handle.go b/handle.go
index 0035cbe..3d0b4b2 100644
--- a/handle.go
+++ b/handle.go
@@ -70,9 +70,10 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 }
 
 func (a *ackHandle) onAck(callback interface{}) uint64 {
+	cb := newCallback(callback) // panics unless it is a valid callback: not with the lock held
 	id := atomic.AddUint64(&a.id, 1)
 	a.mutex.Lock()
-	a.ackmap[id] = newCallback(callback)
+	a.ackmap[id] = cb
 	a.mutex.Unlock()
 	return id
 }
-- 
2.43.0


From 148e8c2810bf2c4cb7d146373e93a05d7025b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 23/26] fix: run the open handler before the session's packets
 are read

A packet that arrived before the handler had finished was lost, and a
connection lost before that was never reported as closed.
---
 engine/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 6f35713..a82f212 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -56,6 +56,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					PingInterval: int(interval / time.Millisecond),
 					PingTimeout:  int(timeout / time.Millisecond),
 				})
+				onOpen(ß) // before anything of the session is read: its events come after it is open
 				go func() {
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
@@ -76,8 +77,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						}
 					}
 				}()
-
-				onOpen(ß)
 			}
 		}
 	}()
-- 
2.43.0


From 8c4e80b2eb068115d6f244cf45ac7dedbc64f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 24/26] fix: an argument that cannot be marshalled is an error

A binary argument whose MarshalBinary failed was sent as an empty
attachment.
---
 parser_default.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index d47e04b..cf2aa4e 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -32,7 +32,7 @@ func (d defaultEncoder) Encode(p *Packet) ([]byte, [][]byte, error) {
 	return buf.Bytes(), p.buffer, nil
 }
 
-func (defaultEncoder) preprocess(p *Packet) {
+func (defaultEncoder) preprocess(p *Packet) (err error) {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
@@ -41,9 +41,12 @@ func (defaultEncoder) preprocess(p *Packet) {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
 			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
+				bb, err := b.MarshalBinary()
+				if err != nil {
+					return err
+				}
 				d[i] = &placeholder{num: p.attachments}
 				p.attachments++
-				bb, _ := b.MarshalBinary()
 				p.buffer = append(p.buffer, bb)
 			}
 		}
@@ -56,10 +59,13 @@ func (defaultEncoder) preprocess(p *Packet) {
 			p.Type = PacketTypeBinaryAck
 		}
 	}
+	return
 }
 
 func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
-	d.preprocess(p)
+	if err = d.preprocess(p); err != nil {
+		return
+	}
 
 	if err = w.WriteByte(byte(p.Type) + '0'); err != nil {
 		return
-- 
2.43.0


From 97f56a87bf739fe68c3b7295120511bc7f79787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:31 +0000
Subject: [PATCH 25/26] fix: close the connection when dialing fails after it
 was made

---
 engine/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/client.go b/engine/client.go
index e360610..a902c47 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -24,14 +24,17 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 	}
 	p, err := conn.ReadPacket()
 	if err != nil {
+		conn.Close()
 		return
 	}
 	if p.pktType != PacketTypeOpen {
+		conn.Close()
 		err = ErrInvalidPayload
 		return
 	}
 	var param Parameters
 	if err = json.Unmarshal(p.data, &param); err != nil {
+		conn.Close()
 		return
 	}
 	pingInterval := time.Duration(param.PingInterval) * time.Millisecond
-- 
2.43.0


From 9c1e5bb75a3d3ed06e352d4cc68e218ac4d4a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:47 +0000
Subject: [PATCH 26/26] fix: SetHeader waited for the write in progress, and
 polls for SetHeader

The emitter holds the session's lock, shared, while a write waits for the
peer. SetHeader asked for it exclusively, so that from then on nobody could
take it: not even the poll that would have let the write go on. Headers have
a lock of their own now.
---
 engine/socket.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/socket.go b/engine/socket.go
index ab2294f..2b2912c 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -19,6 +19,7 @@ type Socket struct {
 	barrier       Barrier
 	emitter       *emitter
 	once          sync.Once
+	headers       sync.Mutex // guards the header of the current transport
 	sync.RWMutex
 }
 
@@ -129,14 +130,18 @@ func (s *Socket) Sid() string {
 // GetHeader returns the value in http header from client request specified by `key`
 func (s *Socket) GetHeader(key string) (val string) {
 	s.RLock()
+	s.headers.Lock()
 	val = s.Conn.httpHeader().Get(key)
+	s.headers.Unlock()
 	s.RUnlock()
 	return
 }
 
 // SetHeader sets (key,value) in http header
 func (s *Socket) SetHeader(key, value string) {
-	s.Lock()
+	s.RLock() // shared: a write that waits for the peer holds it, and must not be waited for
+	s.headers.Lock()
 	s.Conn.httpHeader().Set(key, value)
-	s.Unlock()
+	s.headers.Unlock()
+	s.RUnlock()
 }
-- 
2.43.0

