From 1ae648c7da0f58ce319623c5280a1b4e79cbc6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 01/16] fix: ring buffer loses wake-ups, reads unwritten and
 overwrites unread bytes

After waiting, ReadN and WriteN kept using the position they had loaded before
the wait, so a reader returned bytes that had not been written yet and a writer
overwrote bytes that had not been read.  A release between the emptiness check
and the wait was lost, and a one byte write never released the reader.  After
Close both went on copying; they now stop and report it.
---
 ring/buffer.go | 78 ++++++++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index b4c244c..77784d7 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -18,37 +18,36 @@ package ring
 
 import (
 	"context"
+	"io"
 	"sync/atomic"
 )
 
 type mutex struct {
 	ctx context.Context
 	ch  chan struct{}
-	set int32
 }
 
 func newMutex(ctx context.Context) *mutex {
 	return &mutex{
 		ctx: ctx,
-		ch:  make(chan struct{}),
+		ch:  make(chan struct{}, 1),
 	}
 }
 
+// Wait until Release is called.  A Release that has not been waited for yet is
+// remembered, so Wait may return early and callers must check their condition again
 func (m *mutex) Wait() {
-	if atomic.CompareAndSwapInt32(&m.set, 0, 1) {
-		select {
-		case <-m.ctx.Done():
-		case m.ch <- struct{}{}:
-		}
+	select {
+	case <-m.ctx.Done():
+	case <-m.ch:
 	}
 }
 
+// Release wakes the current or else the next call to Wait
 func (m *mutex) Release() {
-	if atomic.CompareAndSwapInt32(&m.set, 1, 0) {
-		select {
-		case <-m.ctx.Done():
-		case <-m.ch:
-		}
+	select {
+	case m.ch <- struct{}{}:
+	default:
 	}
 }
 
@@ -84,74 +83,73 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space
-func (r *Buffer) WriteN(data []byte, n int) {
+// blocks until ReadN clears space.  Returns io.ErrClosedPipe if the buffer was closed
+// before all bytes could be written
+func (r *Buffer) WriteN(data []byte, n int) error {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
-		wrote int                          // bytes written since last lock
 	)
 
 	for i := 0; i < n; i++ {
-		r.data[pos] = data[i]
-		pos = incr(pos, r.size)
-
 		// whenever pos catches up to the starting position, wait for
-		// additional bytes to be written before continuing
-		if next := incr(pos, r.size); next == start {
+		// bytes to be read before continuing
+		for next := incr(pos, r.size); next == start; {
 			atomic.StoreInt32(&r.next, pos)
 
-			// important to store pos prior to reading from lockMux
+			// important to store pos prior to releasing readLock
 			r.readLock.Release()
-			wrote = i
 
 			start = atomic.LoadInt32(&r.start)
-			if next := incr(pos, r.size); next == start {
+			if next == start {
+				if r.ctx.Err() != nil {
+					return io.ErrClosedPipe
+				}
 				r.writeLock.Wait()
 			}
 		}
+
+		r.data[pos] = data[i]
+		pos = incr(pos, r.size)
 	}
 
 	atomic.StoreInt32(&r.next, pos)
-
-	// if at least one byte has been written since the last time r.lock
-	// was cleared, check to see if it needs to be cleared again
-	if n > wrote+1 {
-		r.readLock.Release()
-	}
+	r.readLock.Release()
+	return nil
 }
 
 // ReadN reads n bytes in the byte array provided.  If insufficient bytes
-// are available, blocks until WriteN refills the buffer.
-func (r *Buffer) ReadN(data []byte, n int) {
+// are available, blocks until WriteN refills the buffer.  Returns io.EOF
+// if the buffer was closed before n bytes became available
+func (r *Buffer) ReadN(data []byte, n int) error {
 	var (
 		pos  = atomic.LoadInt32(&r.start)
 		next = atomic.LoadInt32(&r.next)
-		read = 0
 	)
 
 	for i := 0; i < n; i++ {
-		if pos == next {
+		for pos == next {
 			atomic.StoreInt32(&r.start, pos)
-			if read > 0 {
-				r.writeLock.Release()
-			}
+			r.writeLock.Release()
 
+			// bytes written before Close remain readable, so check for Close first
+			closed := r.ctx.Err() != nil
 			next = atomic.LoadInt32(&r.next)
 			if pos == next {
+				if closed {
+					return io.EOF
+				}
 				r.readLock.Wait()
 			}
 		}
 
 		data[i] = r.data[pos]
 		pos = incr(pos, r.size)
-		read++
 	}
 
 	atomic.StoreInt32(&r.start, pos)
-	if read > 0 {
-		r.writeLock.Release()
-	}
+	r.writeLock.Release()
+	return nil
 }
 
 func incr(pos, size int32) int32 {
-- 
2.43.0


From 320920fc6df2a5fde8283e6d9b28ac1a0866bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 02/16] fix: calls hang forever when the connection is lost or
 closed

Nothing failed the pending requests once the broker was gone or Close had been
called, and later calls registered a request nobody would answer.  Fail them
when the reading side ends, and forget requests that could not be written.
---
 gen.conn.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index fda4007..58a0cb2 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -29,6 +30,8 @@ import (
 	"github.com/savaki/kafka/ring"
 )
 
+var errConnClosed = errors.New("connection closed")
+
 type Conn struct {
 	cancel      context.CancelFunc
 	ch          chan request
@@ -43,6 +46,7 @@ type Conn struct {
 	writeLock sync.Mutex
 	readLock  sync.Mutex
 	requests  map[int32]request
+	closed    bool // closed is set, under readLock, once no more responses can arrive
 }
 
 type request struct {
@@ -91,21 +95,24 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 
 func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
+	defer rb.Close() // lets messageLoop finish once it has consumed what was received
 
 	buffer := make([]byte, 2e6) // 2MB
 	for {
 		n, err := raw.Read(buffer)
+		if rb.WriteN(buffer, n) != nil {
+			return
+		}
 		if err != nil {
 			fmt.Println(err)
 			return
 		}
-
-		rb.WriteN(buffer, n)
 	}
 }
 
 func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
 	defer close(c.doneMessage)
+	defer c.shutdown()
 
 	var (
 		buffer = make([]byte, 2e6) // 2MB
@@ -121,13 +128,17 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		}
 
 		// read the header
-		rb.ReadN(buffer, 4)
+		if rb.ReadN(buffer, 4) != nil {
+			return
+		}
 		d.Reset(4)
 		v, _ := d.Int32()
 		size := int(v)
 
 		// read the payload
-		rb.ReadN(buffer, size)
+		if rb.ReadN(buffer, size) != nil {
+			return
+		}
 		d.Reset(size)
 
 		var resp message.ResponseHeader
@@ -147,6 +158,21 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 	}
 }
 
+// shutdown fails the pending requests and any later ones
+func (c *Conn) shutdown() {
+	c.rb.Close()
+	c.raw.Close()
+
+	c.readLock.Lock()
+	defer c.readLock.Unlock()
+
+	c.closed = true
+	for correlationID, req := range c.requests {
+		delete(c.requests, correlationID)
+		req.reply <- errConnClosed
+	}
+}
+
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
@@ -158,6 +184,10 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	}
 
 	c.readLock.Lock()
+	if c.closed {
+		c.readLock.Unlock()
+		return errConnClosed
+	}
 	c.requests[correlationID] = req
 	c.readLock.Unlock()
 
@@ -167,6 +197,14 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.writeLock.Unlock()
 
 	if err != nil {
+		c.readLock.Lock()
+		_, pending := c.requests[correlationID]
+		delete(c.requests, correlationID)
+		c.readLock.Unlock()
+
+		if !pending {
+			<-req.reply // already being replied to
+		}
 		return err
 	}
 
-- 
2.43.0


From 665d732be6071f72a65252c8ce710b628ab0017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 03/16] fix: responses are overwritten by later ones and large
 ones crash the process

All responses were decoded from one shared 2MB buffer, so byte fields already
returned to callers changed when the next response arrived, and a response
larger than the buffer (or a negative size) ran out of its bounds.  Give each
payload its own memory, growing with what actually arrives, and treat a negative
size as the end of the usable stream.
---
 gen.conn.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index 58a0cb2..d5e2edd 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -114,10 +114,7 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 	defer close(c.doneMessage)
 	defer c.shutdown()
 
-	var (
-		buffer = make([]byte, 2e6) // 2MB
-		d      = message.NewDecoder(buffer, len(buffer))
-	)
+	buffer := make([]byte, 2e6) // 2MB
 
 	for {
 		select {
@@ -131,15 +128,27 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		if rb.ReadN(buffer, 4) != nil {
 			return
 		}
-		d.Reset(4)
-		v, _ := d.Int32()
+		v, _ := message.NewDecoder(buffer, 4).Int32()
 		size := int(v)
-
-		// read the payload
-		if rb.ReadN(buffer, size) != nil {
+		if size < 0 {
+			fmt.Println("invalid message size,", size)
 			return
 		}
-		d.Reset(size)
+
+		// read the payload, which may be larger than buffer.  decoded values refer
+		// to the payload so each message requires its own
+		var payload []byte
+		for len(payload) < size {
+			n := size - len(payload)
+			if n > len(buffer) {
+				n = len(buffer)
+			}
+			if rb.ReadN(buffer, n) != nil {
+				return
+			}
+			payload = append(payload, buffer[:n]...)
+		}
+		d := message.NewDecoder(payload, size)
 
 		var resp message.ResponseHeader
 		if err := (&resp).Decode(d, 1); err != nil {
-- 
2.43.0


From 52d62e4686fc36641210f5fe31e7abaed9f9a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:50 +0000
Subject: [PATCH 04/16] fix: decoding panics, over-reads or exhausts memory on
 malformed input

Negative lengths (-1 is a legitimate null byte array) panicked or moved the
decoder backwards, a var int was read beyond the length of the message, an
overflowing var int moved the decoder backwards because only -1 was taken for
overflow, and an array length was trusted before allocating.
---
 message/decoder.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index a00bcbd..479a3fe 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -24,6 +24,7 @@ import (
 )
 
 var (
+	errNegativeLength = errors.New("negative length")
 	errNullString     = errors.New("null string")
 	errVarIntOverflow = errors.New("var int overflow")
 )
@@ -58,18 +59,29 @@ func (d *Decoder) Reset(length int) {
 
 // remains ensures that the buffer contains at least n more bytes
 func (d *Decoder) remains(n int) error {
+	if n < 0 {
+		return errNegativeLength
+	}
 	if remain := d.length - d.offset; remain < n {
 		return io.ErrShortBuffer
 	}
 	return nil
 }
 
-// ArrayLength reads the head of the buffer as an array length (int32)
+// ArrayLength reads the head of the buffer as an array length (int32).  As every
+// element takes at least one byte, the length never exceeds the bytes that remain.
+// A null array has length -1.
 func (d *Decoder) ArrayLength() (int, error) {
 	n, err := d.Int32()
 	if err != nil {
 		return 0, err
 	}
+	if n == -1 {
+		return -1, nil
+	}
+	if err := d.remains(int(n)); err != nil {
+		return 0, err
+	}
 	return int(n), nil
 }
 
@@ -89,6 +101,9 @@ func (d *Decoder) Bytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
@@ -257,6 +272,9 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
@@ -271,13 +289,13 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 
 // VarInt returns the buffer head as an int64
 func (d *Decoder) VarInt() (int64, error) {
-	tmp, n := binary.Varint(d.raw[d.offset:])
-	switch n {
-	case 0:
+	tmp, n := binary.Varint(d.raw[d.offset:d.length])
+	switch {
+	case n == 0:
 		d.offset = d.length // no further requests can be made
 		return 0, io.ErrShortBuffer
 
-	case -1:
+	case n < 0:
 		d.offset = d.length // no further requests can be made
 		return 0, errVarIntOverflow
 
@@ -292,6 +310,9 @@ func (d *Decoder) VarString() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if n == -1 {
+		return "", nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
-- 
2.43.0


From 89036c4d2270dc823369af73e8a09eb66836a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 05/16] fix: primitive values are altered or corrupt the stream

A string that is not valid UTF-8 was written with more bytes than its length
announced and read back altered; a string longer than an int16 length was
written with a wrong length; null was read as an empty string and written as an
empty byte array; a bool other than 1 was read as false although the protocol
defines any non-zero value as true.
---
 message/decoder.go | 22 +++++++---------------
 message/encoder.go | 25 +++++++++++++++----------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index 479a3fe..86b0657 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"unicode/utf8"
 )
 
 var (
@@ -90,7 +89,7 @@ func (d *Decoder) Bool() (bool, error) {
 	if err := d.remains(1); err != nil {
 		return false, err
 	}
-	b := d.raw[d.offset] == 1
+	b := d.raw[d.offset] != 0
 	d.offset += 1
 	return b, nil
 }
@@ -215,6 +214,10 @@ func (d *Decoder) Int64Array() ([]int64, error) {
 
 // NullableString returns the buffer head as a *string
 func (d *Decoder) NullableString() (*string, error) {
+	if d.remains(2) == nil && int16(binary.BigEndian.Uint16(d.raw[d.offset:])) == -1 {
+		return nil, d.Discard(2)
+	}
+
 	s, err := d.String()
 	if err != nil {
 		return nil, err
@@ -319,18 +322,7 @@ func (d *Decoder) VarString() (string, error) {
 		return "", err
 	}
 
-	var (
-		eom   = d.offset + length // end of message
-		som   = d.offset          // start of message
-		runes []rune
-	)
-
-	for som < eom {
-		r, size := utf8.DecodeRune(d.raw[som:eom])
-		som += size
-		runes = append(runes, r)
-	}
-
+	s := string(d.raw[d.offset : d.offset+length])
 	d.offset += length
-	return string(runes), nil
+	return s, nil
 }
diff --git a/message/encoder.go b/message/encoder.go
index a1d1520..26975bf 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -18,10 +18,13 @@ package message
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
-	"unicode/utf8"
+	"math"
 )
 
+var errStringTooLong = errors.New("string too long")
+
 type flusher interface {
 	Flush() error
 }
@@ -172,6 +175,9 @@ func (e *Encoder) PutRecordHeader(key, value string) {
 
 // PutString encodes a string
 func (e *Encoder) PutString(s string) {
+	if e.err == nil && len(s) > math.MaxInt16 {
+		e.err = errStringTooLong
+	}
 	e.PutInt16(int16(len(s)))
 	if e.err == nil {
 		_, e.err = io.WriteString(e.target, s)
@@ -196,12 +202,17 @@ func (e *Encoder) PutStringArray(ss []string) {
 	}
 }
 
-// PutRaw unlike PutBytes puts the bytes as is without first encoding the length
+// PutVarBytes encodes a byte array with a var int length; nil is encoded as null
 func (e *Encoder) PutVarBytes(data []byte) {
 	if e.err != nil {
 		return
 	}
 
+	if data == nil {
+		e.PutVarInt(-1)
+		return
+	}
+
 	e.PutVarInt(int64(len(data)))
 	_, e.err = e.target.Write(data)
 }
@@ -216,18 +227,12 @@ func (e *Encoder) PutVarInt(i int64) {
 	_, e.err = e.target.Write(e.buf[0:length])
 }
 
-// PutRaw unlike PutBytes puts the bytes as is without first encoding the length
+// PutVarString encodes a string with a var int length
 func (e *Encoder) PutVarString(s string) {
 	if e.err != nil {
 		return
 	}
 
 	e.PutVarInt(int64(len(s)))
-	for _, i := range s {
-		length := utf8.EncodeRune(e.buf[:], rune(i))
-		_, e.err = e.target.Write(e.buf[0:length])
-		if e.err != nil {
-			return
-		}
-	}
+	_, e.err = io.WriteString(e.target, s)
 }
-- 
2.43.0


From ca1d93cff3fd6f12253244d841f0c7cbf8957bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 06/16] fix: failed write of a var length is forgotten by the
 write that follows

---
 message/encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/message/encoder.go b/message/encoder.go
index 26975bf..da6a296 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -214,7 +214,9 @@ func (e *Encoder) PutVarBytes(data []byte) {
 	}
 
 	e.PutVarInt(int64(len(data)))
-	_, e.err = e.target.Write(data)
+	if e.err == nil {
+		_, e.err = e.target.Write(data)
+	}
 }
 
 // PutVarInt encodes a var int
@@ -234,5 +236,7 @@ func (e *Encoder) PutVarString(s string) {
 	}
 
 	e.PutVarInt(int64(len(s)))
-	_, e.err = io.WriteString(e.target, s)
+	if e.err == nil {
+		_, e.err = io.WriteString(e.target, s)
+	}
 }
-- 
2.43.0


From 2cc5088edb148888470e2a7dbdd7baf87bf1d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 07/16] fix: negotiation fails when the broker supports newer
 versions than the library

Only the broker's highest version was ever considered, however many times, so a
broker ahead of the library could not be used although versions overlap, and a
range starting at the lowest int16 made the loop endless.
---
 gen.broker.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9603348..ff84cb5 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1580,10 +1580,12 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 
 // matchVersion determines which version of the api to use
 func matchVersion(apiKey message.ApiVersionsResponseKey18, minVersion, maxVersion int16) (int16, error) {
-	for version := apiKey.MaxVersion; version >= apiKey.MinVersion; version-- {
-		if version := apiKey.MaxVersion; version >= minVersion && version <= maxVersion {
-			return version, nil
-		}
+	version := apiKey.MaxVersion
+	if version > maxVersion {
+		version = maxVersion
+	}
+	if version >= apiKey.MinVersion && version >= minVersion {
+		return version, nil
 	}
 	return 0, fmt.Errorf("unable to negotiate version for api key, %v", apiKey.ApiKey)
 }
-- 
2.43.0


From 1fd026ee89e682bd64ab9a6ced8f04d6d58284e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 08/16] fix: flexible protocol versions are negotiated although
 they cannot be encoded

From KIP-482 on, these versions use compact lengths and tagged fields, which the
encoder does not write and the decoder does not read: every call at such a
version fails against a real broker (2.4 and later).  Negotiate the highest
version that can be spoken instead.
---
 gen.broker.go | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index ff84cb5..d231c61 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1329,6 +1329,9 @@ type apiVersion struct {
 func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersion, error) {
 	// Since this file is generated, there's no need to externalize the supported
 	// versions elsewhere.  We can simply inline the values into the call to matchVersion
+	//
+	// Flexible versions (KIP-482: compact lengths and tagged fields) are left out because
+	// neither the headers nor the messages can be encoded that way yet
 	var av apiVersion
 	var err error
 	for _, apiKey := range apiKeys {
@@ -1349,72 +1352,72 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyMetadata:
-			av.Metadata, err = matchVersion(apiKey, 0, 9)
+			av.Metadata, err = matchVersion(apiKey, 0, 8)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyLeaderAndIsr:
-			av.LeaderAndIsr, err = matchVersion(apiKey, 0, 4)
+			av.LeaderAndIsr, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyStopReplica:
-			av.StopReplica, err = matchVersion(apiKey, 0, 2)
+			av.StopReplica, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyUpdateMetadata:
-			av.UpdateMetadata, err = matchVersion(apiKey, 0, 6)
+			av.UpdateMetadata, err = matchVersion(apiKey, 0, 5)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyControlledShutdown:
-			av.ControlledShutdown, err = matchVersion(apiKey, 0, 3)
+			av.ControlledShutdown, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyOffsetCommit:
-			av.OffsetCommit, err = matchVersion(apiKey, 0, 8)
+			av.OffsetCommit, err = matchVersion(apiKey, 0, 7)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyOffsetFetch:
-			av.OffsetFetch, err = matchVersion(apiKey, 0, 6)
+			av.OffsetFetch, err = matchVersion(apiKey, 0, 5)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyFindCoordinator:
-			av.FindCoordinator, err = matchVersion(apiKey, 0, 3)
+			av.FindCoordinator, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyJoinGroup:
-			av.JoinGroup, err = matchVersion(apiKey, 0, 6)
+			av.JoinGroup, err = matchVersion(apiKey, 0, 5)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyHeartbeat:
-			av.Heartbeat, err = matchVersion(apiKey, 0, 4)
+			av.Heartbeat, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyLeaveGroup:
-			av.LeaveGroup, err = matchVersion(apiKey, 0, 4)
+			av.LeaveGroup, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeySyncGroup:
-			av.SyncGroup, err = matchVersion(apiKey, 0, 4)
+			av.SyncGroup, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyDescribeGroups:
-			av.DescribeGroups, err = matchVersion(apiKey, 0, 5)
+			av.DescribeGroups, err = matchVersion(apiKey, 0, 4)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyListGroups:
-			av.ListGroups, err = matchVersion(apiKey, 0, 3)
+			av.ListGroups, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1424,17 +1427,17 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyApiVersions:
-			av.ApiVersions, err = matchVersion(apiKey, 0, 3)
+			av.ApiVersions, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyCreateTopics:
-			av.CreateTopics, err = matchVersion(apiKey, 0, 5)
+			av.CreateTopics, err = matchVersion(apiKey, 0, 4)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyDeleteTopics:
-			av.DeleteTopics, err = matchVersion(apiKey, 0, 4)
+			av.DeleteTopics, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1444,7 +1447,7 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyInitProducerId:
-			av.InitProducerId, err = matchVersion(apiKey, 0, 2)
+			av.InitProducerId, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1524,7 +1527,7 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyCreateDelegationToken:
-			av.CreateDelegationToken, err = matchVersion(apiKey, 0, 2)
+			av.CreateDelegationToken, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1544,17 +1547,17 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyDeleteGroups:
-			av.DeleteGroups, err = matchVersion(apiKey, 0, 2)
+			av.DeleteGroups, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyElectLeaders:
-			av.ElectLeaders, err = matchVersion(apiKey, 0, 2)
+			av.ElectLeaders, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyIncrementalAlterConfigs:
-			av.IncrementalAlterConfigs, err = matchVersion(apiKey, 0, 1)
+			av.IncrementalAlterConfigs, err = matchVersion(apiKey, 0, 0)
 			if err != nil {
 				return apiVersion{}, err
 			}
-- 
2.43.0


From f64de347c7c37fe0594809f7a85105fa09747038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 09/16] fix: connections leak from failed negotiations and
 every bootstrap lookup

---
 client.go     | 1 +
 gen.broker.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 303efdc..4fd621f 100644
--- a/client.go
+++ b/client.go
@@ -45,6 +45,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 		if err != nil {
 			continue
 		}
+		defer broker.Close()
 
 		return callback(broker)
 	}
diff --git a/gen.broker.go b/gen.broker.go
index d231c61..dcd80dc 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -46,10 +46,12 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 	//
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	broker.apiVersion = apiVersion
-- 
2.43.0


From 2c099517e7f14a7b6f521ba6146f8da029036dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 10/16] fix: a client without bootstrap servers reports success
 with empty results

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 4fd621f..87153e9 100644
--- a/client.go
+++ b/client.go
@@ -16,6 +16,7 @@ package kafka
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -39,7 +40,7 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 // dialBootstrap dials one of the initial bootstrap servers
 func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 	var broker *Broker
-	var err error
+	var err = errors.New("no bootstrap servers")
 	for _, addr := range c.bootstrap {
 		broker, err = NewBroker(addr, c.opts...)
 		if err != nil {
-- 
2.43.0


From d50868bb23eefaceeda0a6ccb230188365dfbfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 11/16] fix: brokers with an IPv6 host cannot be dialled

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 87153e9..f3b54c3 100644
--- a/client.go
+++ b/client.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
@@ -57,7 +58,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
-			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
+			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
 			return NewBroker(addr, c.opts...)
 		}
 	}
@@ -78,7 +79,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, err
 	}
 
-	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
+	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
 	return NewBroker(addr, c.opts...)
 }
 
-- 
2.43.0


From 322e0000c5d7665ca21172e701f65d5dba546050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 12/16] fix: producing with acks=0 waits forever for a response
 brokers do not send

---
 gen.broker.go | 28 ++++++++++++++++------------
 gen.conn.go   | 26 +++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index dcd80dc..52a5179 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -67,20 +67,24 @@ func (b *Broker) Close() error {
 // Produce (apiKey: 0)
 func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, error) {
 	var resp message.ProduceResponse
+	encode := func(e *message.Encoder, correlationID int32) {
+		hdr := message.RequestHeader{
+			RequestApiKey:     message.KeyProduce,
+			RequestApiVersion: b.apiVersion.Produce,
+			CorrelationId:     correlationID,
+			ClientId:          b.config.clientID,
+		}
+		size := hdr.Size(2) + req.Size(b.apiVersion.Produce)
+		e.PutInt32(size)
+		hdr.Encode(e, 2)
+		req.Encode(e, b.apiVersion.Produce)
+	}
+	if req.Acks == 0 {
+		return resp, b.conn.Send(encode) // the broker does not respond
+	}
 	err := b.conn.Do(
 		// encode request
-		func(e *message.Encoder, correlationID int32) {
-			hdr := message.RequestHeader{
-				RequestApiKey:     message.KeyProduce,
-				RequestApiVersion: b.apiVersion.Produce,
-				CorrelationId:     correlationID,
-				ClientId:          b.config.clientID,
-			}
-			size := hdr.Size(2) + req.Size(b.apiVersion.Produce)
-			e.PutInt32(size)
-			hdr.Encode(e, 2)
-			req.Encode(e, b.apiVersion.Produce)
-		},
+		encode,
 		// decode response
 		func(d *message.Decoder) error {
 			return (&resp).Decode(d, b.apiVersion.Produce)
diff --git a/gen.conn.go b/gen.conn.go
index d5e2edd..085963c 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -200,11 +200,7 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.requests[correlationID] = req
 	c.readLock.Unlock()
 
-	c.writeLock.Lock()
-	encode(c.encoder, correlationID)
-	err := c.encoder.Flush()
-	c.writeLock.Unlock()
-
+	err := c.write(encode, correlationID)
 	if err != nil {
 		c.readLock.Lock()
 		_, pending := c.requests[correlationID]
@@ -220,6 +216,26 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	return <-req.reply
 }
 
+// Send a request the broker sends no response to
+func (c *Conn) Send(encode EncodeFunc) error {
+	c.readLock.Lock()
+	closed := c.closed
+	c.readLock.Unlock()
+
+	if closed {
+		return errConnClosed
+	}
+	return c.write(encode, atomic.AddInt32(&c.id, 1))
+}
+
+func (c *Conn) write(encode EncodeFunc, correlationID int32) error {
+	c.writeLock.Lock()
+	defer c.writeLock.Unlock()
+
+	encode(c.encoder, correlationID)
+	return c.encoder.Flush()
+}
+
 func (c *Conn) Close() error {
 	c.cancel()
 	c.rb.Close()
-- 
2.43.0


From 27462ad44277cd0d4efb9158efe00b41cc4122ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 13/16] fix: OffsetCommit version 1 lacks the commit timestamp

---
 message/messages.gen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/message/messages.gen.go b/message/messages.gen.go
index 9a4f3b4..4916784 100644
--- a/message/messages.gen.go
+++ b/message/messages.gen.go
@@ -3441,6 +3441,7 @@ type OffsetCommitRequestPartition8 struct {
 	PartitionIndex       int32  // The partition index. Versions: 0-8
 	CommittedOffset      int64  // The message offset to be committed. Versions: 0-8
 	CommittedLeaderEpoch int32  // The leader epoch of this partition. Versions: 0-8
+	CommitTimestamp      int64  // The timestamp of the commit. Versions: 1
 	CommittedMetadata    string // Any associated metadata the client wants to keep. Versions: 0-8
 }
 
@@ -3452,6 +3453,9 @@ func (t OffsetCommitRequestPartition8) Size(version int16) int32 {
 	if version >= 6 {
 		sz += sizeof.Int32 // CommittedLeaderEpoch
 	}
+	if version >= 1 && version <= 1 {
+		sz += sizeof.Int64 // CommitTimestamp
+	}
 	sz += sizeof.String(t.CommittedMetadata) // CommittedMetadata
 	return sz
 }
@@ -3463,6 +3467,9 @@ func (t OffsetCommitRequestPartition8) Encode(e *Encoder, version int16) {
 	if version >= 6 {
 		e.PutInt32(t.CommittedLeaderEpoch) // CommittedLeaderEpoch
 	}
+	if version >= 1 && version <= 1 {
+		e.PutInt64(t.CommitTimestamp) // CommitTimestamp
+	}
 	e.PutString(t.CommittedMetadata) // CommittedMetadata
 }
 
@@ -3483,6 +3490,12 @@ func (t *OffsetCommitRequestPartition8) Decode(d *Decoder, version int16) error
 			return err
 		}
 	}
+	if version >= 1 && version <= 1 {
+		t.CommitTimestamp, err = d.Int64()
+		if err != nil {
+			return err
+		}
+	}
 	t.CommittedMetadata, err = d.String()
 	if err != nil {
 		return err
-- 
2.43.0


From da0fb0a084ea8c6b8e864b50b195778cbbf4cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:55 +0000
Subject: [PATCH 14/16] fix: timeout and validate only of CreateTopics cannot
 be set by callers

---
 message/messages.gen.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/message/messages.gen.go b/message/messages.gen.go
index 4916784..a1026c8 100644
--- a/message/messages.gen.go
+++ b/message/messages.gen.go
@@ -5371,8 +5371,8 @@ func (t *ApiVersionsResponseKey18) Decode(d *Decoder, version int16) error {
 // CreateTopicsRequest; ApiKey: 19, Versions: 0-5
 type CreateTopicsRequest struct {
 	Topics       []CreatableTopic19 // The topics to create. Versions: 0-5
-	timeoutMs    int32              // How long to wait in milliseconds before timing out the request. Versions: 0-5
-	validateOnly bool               // If true, check that the topics can be created as specified, but don't create anything. Versions: 0-5
+	TimeoutMs    int32              // How long to wait in milliseconds before timing out the request. Versions: 0-5
+	ValidateOnly bool               // If true, check that the topics can be created as specified, but don't create anything. Versions: 0-5
 }
 
 // size of CreateTopicsRequest; Versions: 0-5
@@ -5382,9 +5382,9 @@ func (t CreateTopicsRequest) Size(version int16) int32 {
 	for i := len(t.Topics) - 1; i >= 0; i-- {
 		sz += t.Topics[i].Size(version)
 	}
-	sz += sizeof.Int32 // timeoutMs
+	sz += sizeof.Int32 // TimeoutMs
 	if version >= 1 {
-		sz += sizeof.Bool // validateOnly
+		sz += sizeof.Bool // ValidateOnly
 	}
 	return sz
 }
@@ -5397,9 +5397,9 @@ func (t CreateTopicsRequest) Encode(e *Encoder, version int16) {
 	for i := 0; i < len0; i++ {
 		t.Topics[i].Encode(e, version)
 	}
-	e.PutInt32(t.timeoutMs) // timeoutMs
+	e.PutInt32(t.TimeoutMs) // TimeoutMs
 	if version >= 1 {
-		e.PutBool(t.validateOnly) // validateOnly
+		e.PutBool(t.ValidateOnly) // ValidateOnly
 	}
 }
 
@@ -5419,12 +5419,12 @@ func (t *CreateTopicsRequest) Decode(d *Decoder, version int16) error {
 			t.Topics[i] = item
 		}
 	}
-	t.timeoutMs, err = d.Int32()
+	t.TimeoutMs, err = d.Int32()
 	if err != nil {
 		return err
 	}
 	if version >= 1 {
-		t.validateOnly, err = d.Bool()
+		t.ValidateOnly, err = d.Bool()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1d0145d263f53aeb8345a869dbd6503ae60aa7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 15/16] fix: record batches are not in the record batch format

The record and header counts were missing, every record had length 0 and offset
delta 0, timestamps were in seconds, Size counted lengths twice, and a message
without headers crashed the encoder.
---
 gen.record_batch.go | 51 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index dda4446..2da9f05 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -97,8 +97,10 @@ func (r RecordBatch) Size(version int16) int32 {
 	sz += sizeof.Int16 // ProducerEpoch
 	sz += sizeof.Int32 // BaseSequence
 
+	sz += sizeof.ArrayLength // Records
 	for _, msg := range r.Records {
-		sz += sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		length := sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		sz += sizeof.VarInt(int64(length)) + length
 	}
 	return sz
 }
@@ -117,32 +119,36 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 	encoder.PutInt16(r.ProducerEpoch)
 	encoder.PutInt32(r.BaseSequence)
 
+	encoder.PutArrayLength(len(r.Records))
 	for _, m := range r.Records {
-		encodeMessage(m, encoder, version, r.FirstTimestamp)
+		encodeMessage(m, encoder, version, r.BaseOffset, r.FirstTimestamp)
 	}
 }
 
 // encodeMessage as per https://kafka.apache.org/documentation/#record
-func encodeMessage(m Message, encoder *message.Encoder, version int16, firstTimestamp int64) {
-	encoder.PutVarInt(int64(m.Size(version)))              // length
-	encoder.PutInt8(0)                                     // attributes
-	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(0)                                   // offsetDelta
+func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
+	encoder.PutVarInt(int64(sizeofMessage(m, version, baseOffset, firstTimestamp))) // length
+	encoder.PutInt8(0)                                                              // attributes
+	encoder.PutVarInt(millis(m.Timestamp) - firstTimestamp)                         // timestampDelta
+	encoder.PutVarInt(m.Offset - baseOffset)                                        // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
-	m.Header.Range(encoder.PutRecordHeader)
+	encoder.PutVarInt(countHeaders(m.Header))
+	if m.Header != nil {
+		m.Header.Range(encoder.PutRecordHeader)
+	}
 }
 
+// sizeofMessage returns the size of the record without its length
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
-	sz += sizeof.Int8                                        // attributes
-	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarInt(int64(len(m.Key)))                   // keyLength
-	sz += sizeof.Bytes(m.Key)                                // key
-	sz += sizeof.VarInt(int64(len(m.Value)))                 // valueLength
-	sz += sizeof.Bytes(m.Value)                              // value
-	if version >= magic && m.Header != nil {
+	sz += sizeof.Int8                                         // attributes
+	sz += sizeof.VarInt(millis(m.Timestamp) - firstTimestamp) // timestampDelta
+	sz += sizeof.VarInt(m.Offset - baseOffset)                // offsetDelta
+	sz += sizeof.VarBytes(m.Key)                              // key
+	sz += sizeof.VarBytes(m.Value)                            // value
+	sz += sizeof.VarInt(countHeaders(m.Header))               // headers
+	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
 			sz += sizeof.VarString(value)
@@ -150,3 +156,16 @@ func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) i
 	}
 	return sz
 }
+
+func countHeaders(h Header) int64 {
+	var n int64
+	if h != nil {
+		h.Range(func(key, value string) { n++ })
+	}
+	return n
+}
+
+// millis since the epoch, the unit of kafka timestamps
+func millis(t time.Time) int64 {
+	return t.Unix()*1e3 + int64(t.Nanosecond())/1e6
+}
-- 
2.43.0


From 5c1e3e28e9541409a24a7ffa774577bd8e7ee609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:38 +0000
Subject: [PATCH 16/16] fix: node 0 is taken for the controller when the broker
 names none

Version 0 of the metadata response carries no controller id, so the zero
value was dialled as if it were the controller.
---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index f3b54c3..a273f41 100644
--- a/client.go
+++ b/client.go
@@ -133,6 +133,9 @@ func (c *Client) Metadata(ctx context.Context, topics ...string) (message.Metada
 		if err != nil {
 			return err
 		}
+		if b.apiVersion.Metadata < 1 {
+			v.ControllerId = -1 // not carried by this version
+		}
 		meta = v
 		return nil
 	}
-- 
2.43.0

