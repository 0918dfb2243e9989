From e7e617cfb1ef8d9892b0dbd18ccd042d6f4119ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 01/61] fix: do not write the line terminator into the spare
 capacity of the caller's value

---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..8f47b28 100644
--- a/client/server.go
+++ b/client/server.go
@@ -473,7 +473,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -876,7 +879,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
-- 
2.43.0


From b8e920fda41efa0664d7729bdb90255740727a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 02/61] fix: report a refused Add or Replace as exists/not
 found only when the server said NOT_STORED

---
 client/server.go | 53 ++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/client/server.go b/client/server.go
index 8f47b28..92cc46a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -19,14 +19,15 @@ import (
 )
 
 var (
-	crlf                 = []byte("\r\n")
-	msgTextProtoStored   = []byte("STORED\r\n")
-	msgTextProtoDeleted  = []byte("DELETED\r\n")
-	msgTextProtoNotFound = []byte("NOT_FOUND\r\n")
-	msgTextProtoTouched  = []byte("TOUCHED\r\n")
-	msgTextProtoExists   = []byte("EXISTS\r\n")
-	msgTextProtoOk       = []byte("OK\r\n")
-	msgTextProtoEnd      = []byte("END\r\n")
+	crlf                  = []byte("\r\n")
+	msgTextProtoStored    = []byte("STORED\r\n")
+	msgTextProtoNotStored = []byte("NOT_STORED\r\n")
+	msgTextProtoDeleted   = []byte("DELETED\r\n")
+	msgTextProtoNotFound  = []byte("NOT_FOUND\r\n")
+	msgTextProtoTouched   = []byte("TOUCHED\r\n")
+	msgTextProtoExists    = []byte("EXISTS\r\n")
+	msgTextProtoOk        = []byte("OK\r\n")
+	msgTextProtoEnd       = []byte("END\r\n")
 
 	valueFormatWithCas = "VALUE %s %d %d %d"
 	valueFormat        = "VALUE %s %d %d"
@@ -527,11 +528,14 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
@@ -564,11 +568,14 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithTextProtocol) Flush() error {
@@ -934,11 +941,14 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
@@ -968,11 +978,14 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
-- 
2.43.0


From 6e36da226b93d9876a2186a1927fafa2c6c146e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 03/61] fix: text Delete and Touch report success only when the
 server confirmed it

---
 client/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 92cc46a..0c850ec 100644
--- a/client/server.go
+++ b/client/server.go
@@ -367,7 +367,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	}
-	return nil
+	return fmt.Errorf("memcached: failed delete: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -445,7 +445,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return merrors.ItemNotFound
 	}
 
-	return nil
+	return fmt.Errorf("memcached: failed touch: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
-- 
2.43.0


From f46c95ca0cae5e755656b6f8f4f84d1eb2b0d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 04/61] fix: meta Touch updates the expiration only, and
 reports an absent key as not found

md with the I flag marks the item stale and gives it a new CAS token.
---
 client/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 0c850ec..b163b6d 100644
--- a/client/server.go
+++ b/client/server.go
@@ -39,6 +39,7 @@ var (
 	msgMetaProtoStored    = []byte("HD")
 	msgMetaProtoNotStored = []byte("NS")
 	msgMetaProtoDeleted   = []byte("HD")
+	msgMetaProtoTouched   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
 )
@@ -1073,7 +1074,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
-	if _, err := fmt.Fprintf(s.conn, "md %s I T%d\r\n", key, expiration); err != nil {
+	if _, err := fmt.Fprintf(s.conn, "mg %s T%d\r\n", key, expiration); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -1086,8 +1087,10 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	}
 
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoDeleted):
+	case bytes.HasPrefix(b, msgMetaProtoTouched):
 		return nil
+	case bytes.Equal(b, msgMetaProtoEnd):
+		return merrors.ItemNotFound
 	default:
 		return errors.New("memcached: failed touch")
 	}
-- 
2.43.0


From 65769b365912daabd8dd05423059409c18bc8dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 05/61] fix: a CAS Set of an absent key is reported as not
 found by text and binary clients

---
 client/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/server.go b/client/server.go
index b163b6d..48aed27 100644
--- a/client/server.go
+++ b/client/server.go
@@ -494,6 +494,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 		return nil
 	case bytes.Equal(buf, msgTextProtoExists):
 		return merrors.ItemExists
+	case bytes.Equal(buf, msgTextProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return fmt.Errorf("memcached: failed set: %s", string(buf))
 	}
@@ -1390,6 +1392,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
+		case 1: // key not found
+			return merrors.ItemNotFound
 		case 2: // key exists
 			return merrors.ItemExists
 		default:
-- 
2.43.0


From b1223f0a00f14293f8391a0374ce351c47276817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 06/61] fix: text and binary batch reads return CAS tokens;
 text Get parses keys and flags exactly

fmt.Fscanf splits a key at non-ASCII white space and replaces bytes that are
not UTF-8.
---
 client/server.go | 60 +++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/client/server.go b/client/server.go
index 48aed27..372dcda 100644
--- a/client/server.go
+++ b/client/server.go
@@ -28,9 +28,6 @@ var (
 	msgTextProtoExists    = []byte("EXISTS\r\n")
 	msgTextProtoOk        = []byte("OK\r\n")
 	msgTextProtoEnd       = []byte("END\r\n")
-
-	valueFormatWithCas = "VALUE %s %d %d %d"
-	valueFormat        = "VALUE %s %d %d"
 )
 
 var (
@@ -216,45 +213,15 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	items, err := s.parseGetResponse(s.conn.Reader)
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgTextProtoEnd) {
+	if len(items) == 0 {
 		return nil, merrors.ItemNotFound
 	}
-	if !bytes.HasPrefix(b, []byte("VALUE")) {
-		return nil, errors.New("memcached: invalid response")
-	}
-	item := &Item{Server: s.Name()}
-	size := 0
-	p := valueFormatWithCas
-	var flags uint32
-	scan := []interface{}{&item.Key, &flags, &size, &item.Cas}
-	if bytes.Count(b, []byte(" ")) == 3 {
-		p = valueFormat
-		scan = scan[:3]
-	}
-	if _, err := fmt.Fscanf(bytes.NewReader(b), p, scan...); err != nil {
-		return nil, err
-	}
-	f := make([]byte, 4)
-	binary.BigEndian.PutUint32(f, flags)
-	item.Flags = f
-
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return nil, err
-	}
-	item.Value = buf[:size]
-
-	b, err = s.conn.ReadSlice('\n')
-	if err != nil {
-		return nil, err
-	}
-	if !bytes.Equal(b, msgTextProtoEnd) {
-		return nil, errors.New("memcached: invalid response")
-	}
+	item := items[0]
+	item.Server = s.Name()
 
 	return item, nil
 }
@@ -306,27 +273,31 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			return nil, errors.New("memcached: invalid response")
 		}
 
-		f, err := strconv.Atoi(string(s[2]))
+		s[len(s)-1] = bytes.TrimSuffix(s[len(s)-1], crlf)
+		f, err := strconv.ParseUint(string(s[2]), 10, 32)
 		if err != nil {
 			return nil, err
 		}
 		flags := make([]byte, 4)
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
-		var size int
-		if len(s) == 4 {
-			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
-		} else {
-			size, err = strconv.Atoi(string(s[3]))
-		}
+		size, err := strconv.Atoi(string(s[3]))
 		if err != nil {
 			return nil, err
 		}
+		var cas uint64
+		if len(s) == 5 {
+			cas, err = strconv.ParseUint(string(s[4]), 10, 64)
+			if err != nil {
+				return nil, err
+			}
+		}
 
 		buf := make([]byte, size+2)
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
+			Cas:   cas,
 		}
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
@@ -1348,6 +1319,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
 
-- 
2.43.0


From 1db033bddaa2478bfc0d7474cb0383994f57a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 07/61] fix: meta reads accept every 32-bit flags value and
 every 64-bit CAS token

---
 client/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 372dcda..7a85b40 100644
--- a/client/server.go
+++ b/client/server.go
@@ -812,7 +812,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -820,11 +820,11 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
-- 
2.43.0


From c0a9aaa2b279720b388af1f49814e1cd89d8ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 08/61] fix: meta Get reports the remaining lifetime as an
 expiration that can be set again

An item that never expires was read with Expiration -1, which Set takes for
'expire immediately': the replica pool's counters deleted it on the secondary.
A lifetime longer than 30 days was taken for a time in 1970.
---
 client/server.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 7a85b40..38aa7d7 100644
--- a/client/server.go
+++ b/client/server.go
@@ -41,6 +41,9 @@ var (
 	msgMetaProtoNotFound  = []byte("NF")
 )
 
+// maxRelativeExpiration is the longest expiration in seconds that is not an absolute time.
+const maxRelativeExpiration = 60 * 60 * 24 * 30
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -826,11 +829,11 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		}
 		item.Cas = in
 	case 't':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseInt(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Expiration = int(in)
+		item.Expiration = expirationFromTTL(in)
 	case 'k':
 		item.Key = string(v)
 	}
@@ -838,6 +841,20 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 	return nil
 }
 
+// expirationFromTTL converts the remaining lifetime in seconds to the expiration that Set accepts for it.
+// memcached reports -1 for an item that never expires,
+// and takes an expiration longer than 30 days for an absolute time.
+func expirationFromTTL(ttl int64) int {
+	switch {
+	case ttl < 0:
+		return 0
+	case ttl > maxRelativeExpiration:
+		return int(time.Now().Unix() + ttl)
+	default:
+		return int(ttl)
+	}
+}
+
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-- 
2.43.0


From 206df0c19dd09de5568711e94d9fd5c4ba4935a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 09/61] fix: meta GetMulti reads the replies of all keys

It stopped at the first absent key: the items after it were not returned, and
their replies were taken for those of later operations.
---
 client/server.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/client/server.go b/client/server.go
index 38aa7d7..711a44b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -39,6 +39,9 @@ var (
 	msgMetaProtoTouched   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
+
+	errMetaNoop       = errors.New("memcached: unexpected noop response")
+	errMetaInvalidGet = errors.New("memcached: invalid get response")
 )
 
 // maxRelativeExpiration is the longest expiration in seconds that is not an absolute time.
@@ -729,21 +732,25 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
-MultiRead:
+	var replyErr error
 	for {
 		item, err := s.parseGetResponse(s.conn)
-		if err != nil {
-			switch err {
-			case merrors.ItemNotFound:
-				break MultiRead
-			default:
-				return nil, err
+		switch err {
+		case nil:
+			items = append(items, item)
+		case merrors.ItemNotFound:
+		case errMetaInvalidGet:
+			// The replies for other keys follow.
+			replyErr = err
+		case errMetaNoop:
+			if replyErr != nil {
+				return nil, replyErr
 			}
+			return items, nil
+		default:
+			return nil, err
 		}
-		items = append(items, item)
 	}
-
-	return items, nil
 }
 
 func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item, error) {
@@ -755,10 +762,10 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-		return nil, merrors.ItemNotFound
+		return nil, errMetaNoop
 	}
 	if !bytes.HasPrefix(b, []byte("VA")) {
-		return nil, errors.New("memcached: invalid get response")
+		return nil, errMetaInvalidGet
 	}
 
 	item := &Item{}
-- 
2.43.0


From bff4efdb9101c38e1a779ecb52fb07f01095fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 10/61] fix: the binary client consumes the whole reply,
 whatever its status

The body of an error reply to Set, Add, Touch, Flush, Version or a batch read,
and the flags in the reply to Touch, were left on the connection and taken for
the reply to the next operation. Flush now reports the server's refusal, and
Touch an absent key as not found.
---
 client/server.go | 71 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/client/server.go b/client/server.go
index 711a44b..7d40009 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1319,24 +1319,27 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	}
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
+	var replyErr error
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
 			return nil, err
 		}
+		buf, err := resHeader.ReadBody(s.conn)
+		if err != nil {
+			return nil, err
+		}
 		if resHeader.Opcode == binaryOpcodeNoop {
 			break
 		}
 
 		if resHeader.Status != 0 {
+			// The responses for other keys follow.
 			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
+				replyErr = fmt.Errorf("memcached: error %s", v)
+			} else {
+				replyErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
-		}
-
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
-			return nil, err
+			continue
 		}
 
 		items = append(items, &Item{
@@ -1346,6 +1349,9 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Cas:   resHeader.CAS,
 		})
 	}
+	if replyErr != nil {
+		return nil, replyErr
+	}
 
 	return items, nil
 }
@@ -1382,6 +1388,9 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
 	if resHeader.Opcode != binaryOpcodeSet {
 		return errors.New("memcached: invalid response")
 	}
@@ -1436,6 +1445,9 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
 	if resHeader.Opcode != binaryOpcodeAdd {
 		return errors.New("memcached: invalid response")
 	}
@@ -1673,12 +1685,20 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
-		if v, ok := binaryStatus[resHeader.Status]; ok {
-			return fmt.Errorf("memcached: error %s", v)
-		} else {
-			return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+		switch resHeader.Status {
+		case 1: // key not found
+			return merrors.ItemNotFound
+		default:
+			if v, ok := binaryStatus[resHeader.Status]; ok {
+				return fmt.Errorf("memcached: error %s", v)
+			} else {
+				return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+			}
 		}
 	}
 
@@ -1711,10 +1731,21 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
 	if resHeader.Opcode != binaryOpcodeFlush {
 		return errors.New("memcached: invalid response")
 	}
 
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		} else {
+			return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+		}
+	}
+
 	return nil
 }
 
@@ -1743,6 +1774,10 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 	if err := resHeader.Read(s.conn); err != nil {
 		return "", err
 	}
+	buf, err := resHeader.ReadBody(s.conn)
+	if err != nil {
+		return "", err
+	}
 
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1751,11 +1786,6 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return "", err
-	}
-
 	return string(buf), nil
 }
 
@@ -1854,6 +1884,15 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	return nil
 }
 
+// ReadBody reads the whole body of the response.
+func (h *binaryResponseHeader) ReadBody(r io.Reader) ([]byte, error) {
+	buf := make([]byte, h.TotalBodyLength)
+	if _, err := io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
+	return buf, nil
+}
+
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
 	ticker := time.NewTimer(interval)
 	for {
-- 
2.43.0


From bbae90e7b5913d739cd202d701822ba608c07624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 11/61] fix: binary counters do not reuse the CAS token of an
 earlier request; an absent key is 'not found'

---
 client/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/server.go b/client/server.go
index 7d40009..41f0967 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1602,6 +1602,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
@@ -1637,6 +1638,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	}
 
 	if resHeader.Status != 0 {
+		if resHeader.Status == 1 { // key not found
+			return 0, merrors.ItemNotFound
+		}
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			additional := ""
 			if len(body) > 0 {
-- 
2.43.0


From 3a9bf9a4e6b9a29901cd407c7329217d1853fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 12/61] fix: meta and binary clients treat flags that are not 4
 bytes as unset, as the text client does

They panicked, or read beyond the length of the caller's slice.
---
 client/server.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/server.go b/client/server.go
index 41f0967..e89c11c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -877,7 +877,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
@@ -1373,8 +1373,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1430,8 +1430,8 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1485,8 +1485,8 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
-- 
2.43.0


From 78f8c359647eb679c598a36e3db795b3aaa01b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 13/61] fix: refuse keys that the protocol cannot carry

A key containing a space or a line break was sent as further arguments or as
commands of its own, and a key that is empty or too long made the server answer
with an extra error line or close the connection.
---
 client/server.go | 126 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 126 insertions(+)

diff --git a/client/server.go b/client/server.go
index e89c11c..62ec6b2 100644
--- a/client/server.go
+++ b/client/server.go
@@ -82,6 +82,30 @@ var binaryStatus = map[uint16]string{
 	130: "out of memory",
 }
 
+// maxKeyLength is the length of the longest key memcached accepts.
+const maxKeyLength = 250
+
+var errInvalidKey = errors.New("memcached: invalid key")
+
+// legalKey reports whether the key can be sent by the text based protocols.
+// White space and control characters delimit the arguments and the commands.
+func legalKey(key string) bool {
+	if !legalBinaryKey(key) {
+		return false
+	}
+	for i := 0; i < len(key); i++ {
+		if key[i] <= ' ' || key[i] == 0x7f {
+			return false
+		}
+	}
+	return true
+}
+
+// legalBinaryKey reports whether the key can be sent by the binary protocol.
+func legalBinaryKey(key string) bool {
+	return len(key) > 0 && len(key) <= maxKeyLength
+}
+
 type ServerOperationType string
 
 const (
@@ -201,6 +225,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 }
 
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
+	if !legalKey(key) {
+		return nil, errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -233,6 +261,12 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if !legalKey(key) {
+			return nil, errInvalidKey
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -316,6 +350,10 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 }
 
 func (s *ServerWithTextProtocol) Delete(key string) error {
+	if !legalKey(key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -357,6 +395,10 @@ func (s *ServerWithTextProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if !legalKey(key) {
+		return 0, errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -393,6 +435,10 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
+	if !legalKey(key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -427,6 +473,10 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
+	if !legalKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -479,6 +529,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Add(item *Item) error {
+	if !legalKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -519,6 +573,10 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
+	if !legalKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -689,6 +747,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 }
 
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
+	if !legalKey(key) {
+		return nil, errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -713,6 +775,12 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if !legalKey(key) {
+			return nil, errInvalidKey
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -863,6 +931,10 @@ func expirationFromTTL(ttl int64) int {
 }
 
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
+	if !legalKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -913,6 +985,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
+	if !legalKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -950,6 +1026,10 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
+	if !legalKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -987,6 +1067,10 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
+	if !legalKey(key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1031,6 +1115,10 @@ func (s *ServerWithMetaProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if !legalKey(key) {
+		return 0, errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1063,6 +1151,10 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
+	if !legalKey(key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1229,6 +1321,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 }
 
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
+	if !legalBinaryKey(key) {
+		return nil, errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1285,6 +1381,12 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if !legalBinaryKey(key) {
+			return nil, errInvalidKey
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1357,6 +1459,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Set(item *Item) error {
+	if !legalBinaryKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1414,6 +1520,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Add(item *Item) error {
+	if !legalBinaryKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1469,6 +1579,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
+	if !legalBinaryKey(item.Key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1526,6 +1640,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Delete(key string) error {
+	if !legalBinaryKey(key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1588,6 +1706,10 @@ func (s *ServerWithBinaryProtocol) Decrement(key string, delta, expiration int)
 }
 
 func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int, expiration int) (int64, error) {
+	if !legalBinaryKey(key) {
+		return 0, errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1656,6 +1778,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
+	if !legalBinaryKey(key) {
+		return errInvalidKey
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From a225741b0cb45ba4a0ae19783fb2cda0dbc48d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 14/61] fix: a connection whose read failed is not used until
 Reconnect

After a timeout the late reply was taken for the reply to the next operation.
---
 client/server.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/client/server.go b/client/server.go
index 62ec6b2..3e43d4b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -145,6 +145,34 @@ func EnableAutoReconnect(opt *ServerOption) {
 	opt.EnableAutoReconnect = true
 }
 
+// failStopConn fails for good once a read failed.
+// The reply of the operation that failed may still arrive, and must not be taken for that of a later one.
+type failStopConn struct {
+	net.Conn
+	err error
+}
+
+func (c *failStopConn) Read(p []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.Conn.Read(p)
+	c.err = err
+	return n, err
+}
+
+func (c *failStopConn) Write(p []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	return c.Conn.Write(p)
+}
+
+func newConnBuffer(conn net.Conn) *bufio.ReadWriter {
+	c := &failStopConn{Conn: conn}
+	return bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c))
+}
+
 type ServerWithTextProtocol struct {
 	name    string
 	Network string
@@ -177,7 +205,7 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 		Network: network,
 		Addr:    addr,
 		closeCh: make(chan struct{}),
-		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
+		conn:    newConnBuffer(conn),
 		raw:     conn,
 	}
 
@@ -220,7 +248,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		return err
 	}
 	s.raw = conn
-	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
+	s.conn = newConnBuffer(conn)
 	return nil
 }
 
@@ -711,7 +739,7 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 		Network: network,
 		Addr:    addr,
 		closeCh: make(chan struct{}),
-		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
+		conn:    newConnBuffer(conn),
 		raw:     conn,
 	}
 
@@ -742,7 +770,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		return err
 	}
 	s.raw = conn
-	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
+	s.conn = newConnBuffer(conn)
 	return nil
 }
 
@@ -1279,7 +1307,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 		Network: network,
 		Addr:    addr,
 		closeCh: make(chan struct{}),
-		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
+		conn:    newConnBuffer(conn),
 		raw:     conn,
 		reqHeaderPool: &sync.Pool{New: func() interface{} {
 			return newBinaryRequestHeader()
@@ -1316,7 +1344,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		return err
 	}
 	s.raw = conn
-	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
+	s.conn = newConnBuffer(conn)
 	return nil
 }
 
-- 
2.43.0


From f9e569c13cec9a3184c26b78091cadb62638c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 15/61] fix: Reconnect works again after an attempt that failed

---
 client/server.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/client/server.go b/client/server.go
index 3e43d4b..351d19c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -237,9 +237,8 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// It fails if the connection is closed already, by an earlier attempt for example.
+		_ = s.raw.Close()
 	}
 
 	d := &net.Dialer{}
@@ -759,9 +758,8 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// It fails if the connection is closed already, by an earlier attempt for example.
+		_ = s.raw.Close()
 	}
 
 	d := &net.Dialer{}
@@ -1333,9 +1331,8 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// It fails if the connection is closed already, by an earlier attempt for example.
+		_ = s.raw.Close()
 	}
 
 	d := &net.Dialer{}
-- 
2.43.0


From d03de8b7ca4a1900b05ec9434be12b7524ae3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 16/61] fix: the heartbeat keeps probing, and keeps trying to
 reconnect

The timer fired only once, and one failed attempt ended the goroutine.
---
 client/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 351d19c..7741d05 100644
--- a/client/server.go
+++ b/client/server.go
@@ -2049,7 +2049,8 @@ func (h *binaryResponseHeader) ReadBody(r io.Reader) ([]byte, error) {
 }
 
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -2058,9 +2059,8 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			_, err := s.Version()
 			if err != nil {
 				if reconnect {
-					if err := s.Reconnect(); err != nil {
-						return
-					}
+					// The next tick tries again if it fails.
+					_ = s.Reconnect()
 				} else {
 					s.Close()
 				}
-- 
2.43.0


From 8d1c3fcfb7b69ceb49e271564a947b4d3fbbedf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 17/61] fix: Close is final and safe at any moment

Closing a text client raced with its operations and made them panic; closing a
meta or binary client did not end its heartbeat, which could connect again.
---
 client/server.go | 90 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 84 insertions(+), 6 deletions(-)

diff --git a/client/server.go b/client/server.go
index 7741d05..3d2f68a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -184,6 +184,9 @@ type ServerWithTextProtocol struct {
 	closeCh chan struct{}
 	raw     net.Conn
 	mu      sync.Mutex
+
+	closeMu sync.Mutex // guards closed and, together with mu, changes of raw
+	closed  bool
 }
 
 var _ Server = &ServerWithTextProtocol{}
@@ -221,21 +224,32 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
-	if s.closeCh == nil {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
 		return errors.New("memcached: already closed")
 	}
-
-	err := s.raw.Close()
-	s.raw = nil
+	s.closed = true
 	close(s.closeCh)
-	s.closeCh = nil
-	return err
+
+	// Does not wait for s.mu: an operation that is blocked fails when its connection is closed.
+	return s.raw.Close()
+}
+
+func (s *ServerWithTextProtocol) isClosed() bool {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	return s.closed
 }
 
 func (s *ServerWithTextProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if s.isClosed() {
+		return errors.New("memcached: closed")
+	}
 	if s.raw != nil {
 		// It fails if the connection is closed already, by an earlier attempt for example.
 		_ = s.raw.Close()
@@ -246,6 +260,13 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closed {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = newConnBuffer(conn)
 	return nil
@@ -717,6 +738,9 @@ type ServerWithMetaProtocol struct {
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 	mu      sync.Mutex
+
+	closeMu sync.Mutex // guards closed and, together with mu, changes of raw
+	closed  bool
 }
 
 var _ Server = &ServerWithMetaProtocol{}
@@ -753,10 +777,19 @@ func (s *ServerWithMetaProtocol) Name() string {
 	return s.name
 }
 
+func (s *ServerWithMetaProtocol) isClosed() bool {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	return s.closed
+}
+
 func (s *ServerWithMetaProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if s.isClosed() {
+		return errors.New("memcached: closed")
+	}
 	if s.raw != nil {
 		// It fails if the connection is closed already, by an earlier attempt for example.
 		_ = s.raw.Close()
@@ -767,6 +800,13 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closed {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = newConnBuffer(conn)
 	return nil
@@ -1267,6 +1307,16 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
+		return errors.New("memcached: already closed")
+	}
+	s.closed = true
+	close(s.closeCh)
+
+	// Does not wait for s.mu: an operation that is blocked fails when its connection is closed.
 	return s.raw.Close()
 }
 
@@ -1281,6 +1331,8 @@ type ServerWithBinaryProtocol struct {
 	mu      sync.Mutex
 	conn    *bufio.ReadWriter
 	raw     net.Conn
+	closeMu sync.Mutex // guards closed and, together with mu, changes of raw
+	closed  bool
 
 	reqHeaderPool *sync.Pool
 	resHeaderPool *sync.Pool
@@ -1326,10 +1378,19 @@ func (s *ServerWithBinaryProtocol) Name() string {
 	return s.name
 }
 
+func (s *ServerWithBinaryProtocol) isClosed() bool {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	return s.closed
+}
+
 func (s *ServerWithBinaryProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if s.isClosed() {
+		return errors.New("memcached: closed")
+	}
 	if s.raw != nil {
 		// It fails if the connection is closed already, by an earlier attempt for example.
 		_ = s.raw.Close()
@@ -1340,6 +1401,13 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closed {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = newConnBuffer(conn)
 	return nil
@@ -1945,6 +2013,16 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
+		return errors.New("memcached: already closed")
+	}
+	s.closed = true
+	close(s.closeCh)
+
+	// Does not wait for s.mu: an operation that is blocked fails when its connection is closed.
 	return s.raw.Close()
 }
 
-- 
2.43.0


From 2e4a60de6799a9a413eead28e2021e5a82ea56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 18/61] fix: malformed replies are errors, not panics or huge
 allocations

---
 client/server.go | 85 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/client/server.go b/client/server.go
index 3d2f68a..ebcfcd3 100644
--- a/client/server.go
+++ b/client/server.go
@@ -357,7 +357,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			break
 		}
 		s := bytes.Split(b, []byte(" "))
-		if !bytes.Equal(s[0], []byte("VALUE")) {
+		if !bytes.Equal(s[0], []byte("VALUE")) || len(s) < 4 {
 			return nil, errors.New("memcached: invalid response")
 		}
 
@@ -381,16 +381,15 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			}
 		}
 
-		buf := make([]byte, size+2)
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
 			Cas:   cas,
 		}
-		if _, err := io.ReadFull(r, buf); err != nil {
+		item.Value, err = readValue(r, size)
+		if err != nil {
 			return nil, err
 		}
-		item.Value = buf[:size]
 		res = append(res, item)
 	}
 
@@ -474,7 +473,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -692,7 +691,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
@@ -898,7 +897,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if bytes.Equal(b, msgMetaProtoNoop) {
 		return nil, errMetaNoop
 	}
-	if !bytes.HasPrefix(b, []byte("VA")) {
+	if !bytes.HasPrefix(b, []byte("VA ")) {
 		return nil, errMetaInvalidGet
 	}
 
@@ -944,11 +943,10 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		}
 	}
 
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(conn, buf); err != nil {
+	item.Value, err = readValue(conn, size)
+	if err != nil {
 		return nil, err
 	}
-	item.Value = buf[:size]
 
 	return item, nil
 }
@@ -1208,7 +1206,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -1275,7 +1273,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
@@ -1448,8 +1446,8 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 		return nil, err
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	buf, err := resHeader.ReadBody(s.conn)
+	if err != nil {
 		return nil, err
 	}
 
@@ -1467,7 +1465,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 
 	return &Item{
 		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 		Flags: buf[:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
@@ -1538,8 +1536,8 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
+			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength],
 			Cas:   resHeader.CAS,
 		})
@@ -1711,8 +1709,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
 		return err
 	}
 
@@ -1769,8 +1766,7 @@ func (s *ServerWithBinaryProtocol) Delete(key string) error {
 		return errors.New("memcached: invalid response")
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
 		return err
 	}
 
@@ -1843,13 +1839,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		return 0, errors.New("memcached: invalid response")
 	}
 
-	var body []byte
-	if resHeader.TotalBodyLength > 0 {
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
-			return 0, err
-		}
-		body = buf
+	body, err := resHeader.ReadBody(s.conn)
+	if err != nil {
+		return 0, err
 	}
 
 	if resHeader.Status != 0 {
@@ -1867,6 +1859,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		}
 	}
 
+	if len(body) != 8 {
+		return 0, errors.New("memcached: invalid response")
+	}
 	return int64(binary.BigEndian.Uint64(body)), nil
 }
 
@@ -2119,13 +2114,43 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 
 // ReadBody reads the whole body of the response.
 func (h *binaryResponseHeader) ReadBody(r io.Reader) ([]byte, error) {
-	buf := make([]byte, h.TotalBodyLength)
-	if _, err := io.ReadFull(r, buf); err != nil {
+	buf, err := readN(r, int64(h.TotalBodyLength))
+	if err != nil {
 		return nil, err
 	}
+	if int(h.ExtraLength)+int(h.KeyLength) > len(buf) {
+		return nil, errors.New("memcached: invalid response")
+	}
 	return buf, nil
 }
 
+// readN reads n bytes. It does not allocate memory for bytes that never arrive.
+func readN(r io.Reader, n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("memcached: invalid response")
+	}
+	if n <= 1024*1024 {
+		buf := make([]byte, n)
+		_, err := io.ReadFull(r, buf)
+		return buf, err
+	}
+	buf := new(bytes.Buffer)
+	_, err := io.CopyN(buf, r, n)
+	return buf.Bytes(), err
+}
+
+// readValue reads a value and the line break that follows it.
+func readValue(r io.Reader, size int) ([]byte, error) {
+	if size < 0 {
+		return nil, errors.New("memcached: invalid response")
+	}
+	buf, err := readN(r, int64(size)+2)
+	if err != nil {
+		return nil, err
+	}
+	return buf[:size], nil
+}
+
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
 	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
-- 
2.43.0


From da88f25587d1a99b0767409297ec9cf06a35d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 19/61] fix: text and meta Version do not take an error reply
 for the version

---
 client/server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index ebcfcd3..7695734 100644
--- a/client/server.go
+++ b/client/server.go
@@ -28,6 +28,7 @@ var (
 	msgTextProtoExists    = []byte("EXISTS\r\n")
 	msgTextProtoOk        = []byte("OK\r\n")
 	msgTextProtoEnd       = []byte("END\r\n")
+	msgTextProtoVersion   = []byte("VERSION ")
 )
 
 var (
@@ -720,10 +721,10 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, msgTextProtoVersion) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-	return "", err
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 type ServerWithMetaProtocol struct {
@@ -1297,11 +1298,11 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, msgTextProtoVersion) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
 
-	return "", nil
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-- 
2.43.0


From 36a24ea04276c728266f5af958b21f71b3e91948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 20/61] fix: text GetMulti of no keys returns no items instead
 of an invalid command's error

---
 client/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/server.go b/client/server.go
index 7695734..d385f7b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -316,6 +316,10 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 	}
 
+	if len(keys) == 0 {
+		return []*Item{}, nil
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From e7ab652755a0738b5135c412e46e8d3bf92fb161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 21/61] fix: meta GetMulti recognises a miss that echoes the
 key

---
 client/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index d385f7b..4188b09 100644
--- a/client/server.go
+++ b/client/server.go
@@ -896,7 +896,8 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgMetaProtoEnd) {
+	// A miss returns the key too if it was asked for.
+	if bytes.Equal(b, msgMetaProtoEnd) || bytes.HasPrefix(b, []byte("EN ")) {
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-- 
2.43.0


From 5dab876c163e22f61d2d48aedcd604cdcc665119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 22/61] fix: Ring.Pick returns the node whose hash equals the
 key's hash

---
 client/ring.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..09d6b2f 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -54,17 +54,14 @@ func (r *Ring) Pick(key string) Server {
 
 	lower := 0
 	upper := len(r.nodes) - 1
-Search:
 	for lower <= upper {
 		idx := (lower + upper) / 2
 
 		t := r.nodes[idx].hash
 		switch {
-		case t == h:
-			break Search
 		case h < t:
 			upper = idx - 1
-		case t < h:
+		case t <= h:
 			lower = idx + 1
 		}
 	}
-- 
2.43.0


From ccfa97e82637a4da5fc54e5d95b660d00f024d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 23/61] fix: servers whose nodes collide keep one order in the
 ring

---
 client/ring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/ring.go b/client/ring.go
index 09d6b2f..1adddb9 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -35,6 +35,10 @@ func NewRing(servers ...Server) *Ring {
 	}
 
 	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].hash == nodes[j].hash {
+			// The order must not depend on the order of the arguments.
+			return nodes[i].Server.Name() < nodes[j].Server.Name()
+		}
 		return nodes[i].hash < nodes[j].hash
 	})
 
-- 
2.43.0


From 93a302bc16ffb638787c06bb19d1bce095d9622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 24/61] fix: SinglePool.Close closes every server even if one
 fails

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..2bd327c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -109,7 +109,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From 43ec437eb4d4e009acaace48379d9f46f8836432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 25/61] fix: ReplicaPool does not send the primary's CAS token
 to the secondary

---
 cluster/cluster.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..82f48c5 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -58,7 +58,7 @@ func (p *ReplicaPool) Set(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.copyToSecondary(item)
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
@@ -66,7 +66,7 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.copyToSecondary(item)
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
@@ -74,7 +74,15 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.copyToSecondary(item)
+}
+
+// copyToSecondary stores what the primary accepted.
+// The CAS token of the item is meaningful only to the primary.
+func (p *ReplicaPool) copyToSecondary(item *client.Item) error {
+	replica := *item
+	replica.Cas = 0
+	return p.secondary.Pick(item.Key).Set(&replica)
 }
 
 func (p *ReplicaPool) Delete(key string) error {
-- 
2.43.0


From 13ea5ef699434edf52553529afa4650cf61b1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 26/61] fix: concurrent ReplicaPool writes to one key reach
 both replicas in the same order

---
 cluster/cluster.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 82f48c5..a1c9e2e 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -1,12 +1,23 @@
 package cluster
 
 import (
+	"sync"
+
 	"go.f110.dev/go-memcached/client"
 )
 
 type ReplicaPool struct {
 	primary   *client.Ring
 	secondary *client.Ring
+
+	mu     sync.Mutex
+	writes map[string]*keyLock
+}
+
+// keyLock lets the writes to one key reach both replicas in the same order.
+type keyLock struct {
+	sync.Mutex
+	users int
 }
 
 func NewReplicaPool(primary, secondary []*client.ServerWithMetaProtocol) *ReplicaPool {
@@ -24,6 +35,31 @@ func NewReplicaPool(primary, secondary []*client.ServerWithMetaProtocol) *Replic
 	return &ReplicaPool{
 		primary:   primaryRing,
 		secondary: secondaryRing,
+		writes:    make(map[string]*keyLock),
+	}
+}
+
+// lock waits for the other writes to the key and returns the function that ends the caller's write.
+func (p *ReplicaPool) lock(key string) func() {
+	p.mu.Lock()
+	l, ok := p.writes[key]
+	if !ok {
+		l = &keyLock{}
+		p.writes[key] = l
+	}
+	l.users++
+	p.mu.Unlock()
+
+	l.Lock()
+	return func() {
+		l.Unlock()
+
+		p.mu.Lock()
+		l.users--
+		if l.users == 0 {
+			delete(p.writes, key)
+		}
+		p.mu.Unlock()
 	}
 }
 
@@ -54,6 +90,8 @@ func (p *ReplicaPool) GetMulti(keys ...string) ([]*client.Item, error) {
 }
 
 func (p *ReplicaPool) Set(item *client.Item) error {
+	defer p.lock(item.Key)()
+
 	if err := p.primary.Pick(item.Key).Set(item); err != nil {
 		return err
 	}
@@ -62,6 +100,8 @@ func (p *ReplicaPool) Set(item *client.Item) error {
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
+	defer p.lock(item.Key)()
+
 	if err := p.primary.Pick(item.Key).Add(item); err != nil {
 		return err
 	}
@@ -70,6 +110,8 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
+	defer p.lock(item.Key)()
+
 	if err := p.primary.Pick(item.Key).Replace(item); err != nil {
 		return err
 	}
@@ -86,6 +128,8 @@ func (p *ReplicaPool) copyToSecondary(item *client.Item) error {
 }
 
 func (p *ReplicaPool) Delete(key string) error {
+	defer p.lock(key)()
+
 	if err := p.primary.Pick(key).Delete(key); err != nil {
 		return err
 	}
@@ -94,6 +138,8 @@ func (p *ReplicaPool) Delete(key string) error {
 }
 
 func (p *ReplicaPool) Increment(key string, delta, expiration int) (int64, error) {
+	defer p.lock(key)()
+
 	s := p.primary.Pick(key)
 	n, err := s.Increment(key, delta, expiration)
 	if err != nil {
@@ -116,6 +162,8 @@ func (p *ReplicaPool) Increment(key string, delta, expiration int) (int64, error
 }
 
 func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error) {
+	defer p.lock(key)()
+
 	s := p.primary.Pick(key)
 	n, err := s.Decrement(key, delta, expiration)
 	if err != nil {
-- 
2.43.0


From 0d953690fcddb9a407d64828f277dd04b14472ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 27/61] fix: the proxy forwards the flags, CAS token and
 lifetime of what it read

---
 proxy/replica_pool.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..031f4ea 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"errors"
+	"time"
 
 	"go.f110.dev/go-memcached/client"
 	"go.f110.dev/go-memcached/cluster"
@@ -17,6 +18,20 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 	return &ReplicaProxy{pool: pool}
 }
 
+// maxRelativeExpiration is the longest expiration in seconds that is not an absolute time.
+const maxRelativeExpiration = 60 * 60 * 24 * 30
+
+func newResponse(item *client.Item) *server.Response {
+	ttl := int64(item.Expiration)
+	switch {
+	case ttl == 0:
+		ttl = -1
+	case ttl > maxRelativeExpiration:
+		ttl -= time.Now().Unix()
+	}
+	return &server.Response{Key: item.Key, Value: item.Value, Flags: item.Flags, Cas: int64(item.Cas), TTL: ttl}
+}
+
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
@@ -27,7 +42,7 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			}
 			return nil, err
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return []*server.Response{newResponse(res)}, nil
 	case server.OpcodeSet:
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
-- 
2.43.0


From 6789d17a820661fbc132067bd01e6c6c2f753847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 28/61] fix: the proxy reads all keys of a gets request

---
 proxy/replica_pool.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index 031f4ea..e92ed07 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -35,6 +35,17 @@ func newResponse(item *client.Item) *server.Response {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if req.Keys != nil {
+			items, err := p.pool.GetMulti(req.Keys...)
+			if err != nil {
+				return nil, err
+			}
+			res := make([]*server.Response, len(items))
+			for i, item := range items {
+				res[i] = newResponse(item)
+			}
+			return res, nil
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
-- 
2.43.0


From d85b3e66f714b5ca2989a168d88dbab9fd6c06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 29/61] fix: the proxy forwards the flags of a meta set

---
 proxy/replica_pool.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index e92ed07..c0bb388 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,6 +1,7 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
 	"time"
 
@@ -55,10 +56,15 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		}
 		return []*server.Response{newResponse(res)}, nil
 	case server.OpcodeSet:
+		flags := req.Flags
+		if req.SetOpt.Meta {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
-- 
2.43.0


From f6a3a765b9e745415d8d04e9184a44ecaf214d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 30/61] fix: the proxy answers the noop that ends a binary
 batch read

---
 proxy/replica_pool.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index c0bb388..80f422e 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -75,6 +75,8 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			return nil, err
 		}
 		return []*server.Response{{}}, nil
+	case server.OpcodeNoop:
+		return []*server.Response{{}}, nil
 	default:
 		return nil, errors.New("proxy: unknown opcode")
 	}
-- 
2.43.0


From eb91446ce7d7fef53a40f1b8d59226db76c85fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 31/61] fix: the server checks the length and the end of a data
 block instead of panicking or losing track

---
 server/server.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..d03cb37 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -150,11 +151,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf := make([]byte, bufLen+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(bufLen)
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:bufLen]
 
 		opcode := OpcodeSet
 		switch s[0] {
@@ -276,11 +276,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 
-		buf := make([]byte, opt.Size+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(int64(opt.Size))
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:opt.Size]
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
@@ -292,6 +291,30 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// readDataBlock reads the value of a storage command and the line break that ends it.
+func (c *conn) readDataBlock(size int64) ([]byte, error) {
+	if size < 0 {
+		return nil, errors.New("server: invalid request")
+	}
+	buf, err := c.readFull(size + int64(len(crlf)))
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.HasSuffix(buf, crlf) {
+		return nil, errors.New("server: invalid request")
+	}
+	return buf[:size], nil
+}
+
+// readFull reads exactly size bytes. The memory it takes grows with what was received, not with what was announced.
+func (c *conn) readFull(size int64) ([]byte, error) {
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, c.connBuf, size); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func (c *conn) readBinaryRequest() (*Request, error) {
 	header := make([]byte, 24)
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
-- 
2.43.0


From 3232d0e55e057006662d417ea8a9c85d00cfd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 32/61] fix: an empty flag of a meta set does not crash the
 server

---
 server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/server.go b/server/server.go
index d03cb37..37d14c9 100644
--- a/server/server.go
+++ b/server/server.go
@@ -234,6 +234,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		opt := &SetOpt{Meta: true, Size: int(v)}
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
+				if f == "" {
+					continue
+				}
 				switch f[0] {
 				case 'C':
 					opt.Cas = true
-- 
2.43.0


From 5171ae4b2798c9d955058bd78013025e59c65990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 33/61] fix: the server refuses a meta set whose sizes
 contradict each other

---
 server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 37d14c9..6b3ee93 100644
--- a/server/server.go
+++ b/server/server.go
@@ -268,7 +268,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					if err != nil {
 						return nil, err
 					}
-					opt.Size = int(v)
+					if int(v) != opt.Size {
+						return nil, errors.New("server: invalid request")
+					}
 				case 'T':
 					v, err := strconv.ParseInt(f[1:], 10, 32)
 					if err != nil {
-- 
2.43.0


From 366df4aaad80862be49f11ced3da51f0d451b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 34/61] fix: the server does not take a meta add, append or the
 like for a set

---
 server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/server.go b/server/server.go
index 6b3ee93..2ba8a3a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -255,6 +255,13 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.Invalidate = true
 				case 'k':
 					opt.Key = true
+				case 'M':
+					if f != "MS" && f != "Ms" && f != "Mset" {
+						// Not a set
+						return nil, errors.New("server: invalid request")
+					}
+				case 'b':
+					return nil, errors.New("server: invalid request")
 				case 'O':
 					v, err := strconv.ParseInt(f[1:], 10, 64)
 					if err != nil {
-- 
2.43.0


From 76f512ccde0aebbf4949bd3d45f4463b74670005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 35/61] fix: the server checks the lengths in a binary header
 instead of panicking or losing track

---
 server/server.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2ba8a3a..0c20ea4 100644
--- a/server/server.go
+++ b/server/server.go
@@ -332,7 +332,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
 		return nil, err
 	}
-	if header[0] != magicRequest {
+	if header[0] != magicRequest || !validBinaryLengths(header) {
 		return nil, errors.New("server: invalid request")
 	}
 
@@ -367,8 +367,8 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		}
 
 		totalBodyLen := binary.BigEndian.Uint32(header[8:12])
-		buf := make([]byte, int(totalBodyLen)-len(extra)-int(KeyLength))
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readFull(int64(totalBodyLen) - int64(len(extra)) - int64(KeyLength))
+		if err != nil {
 			return nil, err
 		}
 
@@ -422,12 +422,37 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 
 		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
 	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
+		if _, err := c.connBuf.Discard(int(header[4])); err != nil {
+			return nil, err
+		}
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
 
 	return nil, errors.New("server: invalid request")
 }
 
+// validBinaryLengths reports whether the lengths in the header are those of a well-formed request.
+func validBinaryLengths(header []byte) bool {
+	keyLength := int64(binary.BigEndian.Uint16(header[2:4]))
+	extraLength := int64(header[4])
+	totalBodyLen := int64(binary.BigEndian.Uint32(header[8:12]))
+
+	switch Opcode(header[1]) {
+	case OpcodeSet, OpcodeAdd, OpcodeReplace:
+		return extraLength == 8 && totalBodyLen >= extraLength+keyLength
+	case OpcodeIncrement, OpcodeDecrement:
+		return extraLength == 20 && totalBodyLen == extraLength+keyLength
+	case OpcodeTouch:
+		return extraLength == 4 && totalBodyLen == extraLength+keyLength
+	case OpcodeGet, OpcodeGetKQ, OpcodeDelete:
+		return extraLength == 0 && totalBodyLen == keyLength
+	case OpcodeFlush:
+		return (extraLength == 0 || extraLength == 4) && totalBodyLen == extraLength
+	default:
+		return totalBodyLen == 0
+	}
+}
+
 type Opcode byte
 
 type Handler interface {
-- 
2.43.0


From a62529420ced7424414b40c3632e549e5dcadc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 36/61] fix: the server passes the CAS token of binary writes
 to the handler

---
 server/server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0c20ea4..8c3b453 100644
--- a/server/server.go
+++ b/server/server.go
@@ -376,7 +376,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), CasValue: binary.BigEndian.Uint64(header[16:24])},
 			Flags:  extra[:4],
 		}, nil
 	case OpcodeDelete:
@@ -386,7 +386,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 
-		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}, nil
+		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf), DelOpt: &DelOpt{CasValue: binary.BigEndian.Uint64(header[16:24])}}, nil
 	case OpcodeIncrement, OpcodeDecrement:
 		extra := make([]byte, header[4])
 		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
@@ -405,7 +405,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Delta:  int64(delta),
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), CasValue: binary.BigEndian.Uint64(header[16:24])},
 		}, nil
 	case OpcodeTouch:
 		extra := make([]byte, header[4])
@@ -510,7 +510,8 @@ type SetOpt struct {
 }
 
 type DelOpt struct {
-	Meta bool
+	Meta     bool
+	CasValue uint64
 }
 
 type MetaFlag struct {
-- 
2.43.0


From 3437b74e12530d7720dda2628bdedd5c4696d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 37/61] fix: the server accepts all 32-bit flags of text and
 meta sets

---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index 8c3b453..549329c 100644
--- a/server/server.go
+++ b/server/server.go
@@ -136,7 +136,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -246,11 +246,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
-					opt.Flag = int32(v)
+					opt.Flag = int32(uint32(v))
 				case 'I':
 					opt.Invalidate = true
 				case 'k':
-- 
2.43.0


From c8f850fa872a85a97117b2fce9528ebf39e905c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 38/61] fix: the server passes 64-bit deltas and the expiration
 of a text touch to the handler

---
 server/server.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 549329c..cb45417 100644
--- a/server/server.go
+++ b/server/server.go
@@ -178,7 +178,14 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		if s[0] == "touch" {
+			expiration, err := strconv.ParseInt(s[2], 10, 32)
+			if err != nil {
+				return nil, err
+			}
+			return &Request{Opcode: OpcodeTouch, Key: s[1], Delta: expiration, SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		}
+		d, err := strconv.ParseUint(s[2], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -186,10 +193,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		switch s[0] {
 		case "decr":
 			opcode = OpcodeDecrement
-		case "touch":
-			opcode = OpcodeTouch
 		}
-		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
+		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
 	case "mg":
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
-- 
2.43.0


From f5de28fcedde078646da426d23d34774f6526525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 39/61] fix: the server answers a handler's error as an error
 instead of a hit or not at all

---
 errors/errors.go |  5 +++
 server/server.go | 84 ++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 86 insertions(+), 3 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index cb3ffde..4021076 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -13,3 +13,8 @@ var (
 func (e *MemcachedError) Error() string {
 	return e.Message
 }
+
+// StatusCode returns the status of the binary protocol.
+func (e *MemcachedError) StatusCode() uint16 {
+	return e.Status
+}
diff --git a/server/server.go b/server/server.go
index cb45417..698fa5c 100644
--- a/server/server.go
+++ b/server/server.go
@@ -59,6 +59,25 @@ var (
 
 var crlf = []byte("\r\n")
 
+// Statuses of the binary protocol
+const (
+	statusNotFound      uint16 = 0x01
+	statusExists        uint16 = 0x02
+	statusNotStored     uint16 = 0x05
+	statusInternalError uint16 = 0x84
+)
+
+var errNoResponse = errors.New("server: the handler returned no response")
+
+// errorStatus returns the status that stands for the error of a handler.
+func errorStatus(err error) uint16 {
+	var e interface{ StatusCode() uint16 }
+	if errors.As(err, &e) && e.StatusCode() != 0 {
+		return e.StatusCode()
+	}
+	return statusInternalError
+}
+
 type Protocol string
 
 type conn struct {
@@ -592,10 +611,22 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 }
 
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
+	if len(res) == 0 && req.Opcode != OpcodeGet {
+		return errNoResponse
+	}
+	for _, r := range res {
+		if r.Error != nil && (req.Opcode != OpcodeGet || errorStatus(r.Error) != statusNotFound) {
+			return s.writeAsciiError(conn, req, r.Error)
+		}
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
 		if req.GetOpt == nil {
 			for _, r := range res {
+				if r.Error != nil {
+					continue
+				}
 				if err := s.writeAsciiResponseGet(conn, r); err != nil {
 					return err
 				}
@@ -605,12 +636,17 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				return err
 			}
 		} else {
+			hit := false
 			for _, r := range res {
+				if r.Error != nil {
+					continue
+				}
+				hit = true
 				if err := s.writeAsciiResponseMetaGet(conn, req, r); err != nil {
 					return err
 				}
 			}
-			if len(res) == 0 {
+			if !hit && !req.GetOpt.NoReply {
 				conn.connBuf.Write(metaProtoEnd)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
@@ -684,6 +720,37 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
+// writeAsciiError answers a request that the handler failed.
+func (s *Server) writeAsciiError(conn *conn, req *Request, err error) error {
+	status := errorStatus(err)
+	switch {
+	case req.Opcode == OpcodeAdd && status == statusExists, req.Opcode == OpcodeReplace && status == statusNotFound:
+		status = statusNotStored
+	}
+	meta := req.SetOpt != nil && req.SetOpt.Meta || req.DelOpt != nil && req.DelOpt.Meta
+
+	switch {
+	case status == statusNotFound && meta:
+		conn.connBuf.WriteString("NF")
+	case status == statusNotFound:
+		conn.connBuf.WriteString("NOT_FOUND")
+	case status == statusExists && meta:
+		conn.connBuf.WriteString("EX")
+	case status == statusExists:
+		conn.connBuf.WriteString("EXISTS")
+	case status == statusNotStored && meta:
+		conn.connBuf.WriteString("NS")
+	case status == statusNotStored:
+		conn.connBuf.WriteString("NOT_STORED")
+	default:
+		conn.connBuf.WriteString("SERVER_ERROR ")
+		// The message must not end the line.
+		conn.connBuf.WriteString(strings.NewReplacer("\r", " ", "\n", " ").Replace(err.Error()))
+	}
+	conn.connBuf.Write(crlf)
+	return conn.connBuf.Flush()
+}
+
 func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) > 0 {
@@ -752,7 +819,13 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
 	switch req.Opcode {
 	case OpcodeGet:
+		if len(res) == 0 {
+			return errNoResponse
+		}
 		for _, v := range res {
+			if v.Error != nil && errorStatus(v.Error) == statusNotFound && req.GetOpt != nil && req.GetOpt.NoReply {
+				continue
+			}
 			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
 				return err
 			}
@@ -765,9 +838,10 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 		}
 	case OpcodeSet, OpcodeAdd, OpcodeReplace, OpcodeDelete, OpcodeIncrement, OpcodeDecrement,
 		OpcodeVersion, OpcodeFlush, OpcodeTouch, OpcodeNoop:
-		if res[0].Error == nil {
-			return res[0].writeAsBinaryProtocol(conn, req)
+		if len(res) == 0 {
+			return errNoResponse
 		}
+		return res[0].writeAsBinaryProtocol(conn, req)
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
@@ -777,6 +851,10 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 
 func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	header := make([]byte, 24)
+	if r.Error != nil {
+		binary.BigEndian.PutUint16(header[6:8], errorStatus(r.Error))
+		r = &Response{Value: []byte(r.Error.Error())}
+	}
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
-- 
2.43.0


From baaaab98438e085855d9778c0d53add59e848c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 40/61] fix: binary replies repeat the opcode and the opaque of
 the request

---
 server/server.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 698fa5c..d4e5888 100644
--- a/server/server.go
+++ b/server/server.go
@@ -127,7 +127,17 @@ func (c *conn) readRequest() (*Request, error) {
 	case ProtocolAscii:
 		return c.readAsciiRequest()
 	case ProtocolBinary:
-		return c.readBinaryRequest()
+		header, err := c.readBinaryHeader()
+		if err != nil {
+			return nil, err
+		}
+		req, err := c.readBinaryRequest(header)
+		if err != nil {
+			return nil, err
+		}
+		req.opcode = header[1]
+		req.opaque = binary.BigEndian.Uint32(header[12:16])
+		return req, nil
 	}
 
 	return nil, nil
@@ -351,7 +361,7 @@ func (c *conn) readFull(size int64) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (c *conn) readBinaryRequest() (*Request, error) {
+func (c *conn) readBinaryHeader() ([]byte, error) {
 	header := make([]byte, 24)
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
 		return nil, err
@@ -360,6 +370,10 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		return nil, errors.New("server: invalid request")
 	}
 
+	return header, nil
+}
+
+func (c *conn) readBinaryRequest(header []byte) (*Request, error) {
 	switch Opcode(header[1]) {
 	case OpcodeGet:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
@@ -493,6 +507,10 @@ type Request struct {
 	GetOpt *GetOpt
 	SetOpt *SetOpt
 	DelOpt *DelOpt
+
+	// opcode and opaque are what the binary protocol repeats in the reply.
+	opcode byte
+	opaque uint32
 }
 
 type Response struct {
@@ -832,7 +850,7 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 		}
 		if len(res) > 1 {
 			r := &Response{}
-			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop}); err != nil {
+			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop, opcode: byte(OpcodeNoop)}); err != nil {
 				return err
 			}
 		}
@@ -856,10 +874,11 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 		r = &Response{Value: []byte(r.Error.Error())}
 	}
 	header[0] = magicResponse
-	header[1] = byte(req.Opcode)
+	header[1] = req.opcode
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
+	binary.BigEndian.PutUint32(header[12:16], req.opaque)
 
 	conn.connBuf.Write(header)
 	if len(r.Flags) > 0 {
-- 
2.43.0


From 51fa457037e0eadb00337b6336284498f70d29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 41/61] fix: gets and binary replies carry the CAS token

---
 server/server.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index d4e5888..9b261aa 100644
--- a/server/server.go
+++ b/server/server.go
@@ -160,7 +160,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
-		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
+		return &Request{Opcode: OpcodeGet, Keys: s[1:], GetOpt: &GetOpt{Cas: true}}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
@@ -640,12 +640,12 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 
 	switch req.Opcode {
 	case OpcodeGet:
-		if req.GetOpt == nil {
+		if req.GetOpt == nil || !req.GetOpt.Meta {
 			for _, r := range res {
 				if r.Error != nil {
 					continue
 				}
-				if err := s.writeAsciiResponseGet(conn, r); err != nil {
+				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
 					return err
 				}
 			}
@@ -769,16 +769,21 @@ func (s *Server) writeAsciiError(conn *conn, req *Request, err error) error {
 	return conn.connBuf.Flush()
 }
 
-func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
+func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) > 0 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
+	cas := ""
+	if req.GetOpt != nil && req.GetOpt.Cas {
+		cas = " " + strconv.FormatUint(uint64(r.Cas), 10)
+	}
 	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VALUE %s %d %d\r\n",
+		fmt.Sprintf("VALUE %s %d %d%s\r\n",
 			r.Key,
 			flag,
 			len(r.Value),
+			cas,
 		),
 	)
 	if err != nil {
@@ -879,6 +884,7 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
 	binary.BigEndian.PutUint32(header[12:16], req.opaque)
+	binary.BigEndian.PutUint64(header[16:24], uint64(r.Cas))
 
 	conn.connBuf.Write(header)
 	if len(r.Flags) > 0 {
-- 
2.43.0


From 0ae0835d3319b3aad33c9d621d0d947965ac333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 42/61] fix: the binary reply to a get always carries the flags

---
 server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/server.go b/server/server.go
index 9b261aa..9dcd139 100644
--- a/server/server.go
+++ b/server/server.go
@@ -877,6 +877,9 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	if r.Error != nil {
 		binary.BigEndian.PutUint16(header[6:8], errorStatus(r.Error))
 		r = &Response{Value: []byte(r.Error.Error())}
+	} else if req.Opcode == OpcodeGet && len(r.Flags) == 0 {
+		// The reply to a get always has them.
+		r = &Response{Key: r.Key, Value: r.Value, Cas: r.Cas, Flags: make([]byte, 4)}
 	}
 	header[0] = magicResponse
 	header[1] = req.opcode
-- 
2.43.0


From fc0c6850604ee88fde5f1a5750e7821fd7c9edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 43/61] fix: meta get reads all flags and is answered in the
 format clients parse

---
 server/server.go | 71 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/server/server.go b/server/server.go
index 9dcd139..800ddd9 100644
--- a/server/server.go
+++ b/server/server.go
@@ -225,13 +225,20 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
 	case "mg":
-		if len(s) < 3 {
+		if len(s) < 2 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
-		if len(s[2]) > 0 {
-			for _, f := range s[2] {
+		opt := &GetOpt{Meta: true, RequestFlag: strings.Join(s[2:], " ")}
+		for _, token := range s[2:] {
+			for _, f := range token {
+				if 'A' <= f && f <= 'Z' {
+					// The rest of the token is an argument.
+					break
+				}
 				switch f {
+				case 'b':
+					// The key is encoded
+					return nil, errors.New("server: invalid request")
 				case 'c':
 					opt.Cas = true
 				case 'f':
@@ -803,27 +810,41 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 	if len(r.Flags) > 0 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
+	code := "HD"
+	if req.GetOpt.Value {
+		code = fmt.Sprintf("VA %d", len(r.Value))
+	}
+	_, err := conn.connBuf.WriteString(code)
 	if err != nil {
 		return err
 	}
-	for _, v := range req.GetOpt.RequestFlag {
-		switch v {
-		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
-		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
-		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
-		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
-		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+	for _, token := range strings.Fields(req.GetOpt.RequestFlag) {
+		if token[0] == 'O' {
+			conn.connBuf.WriteString(" " + token)
+			continue
+		}
+		for _, v := range token {
+			if 'A' <= v && v <= 'Z' {
+				// The rest of the token is an argument.
+				break
+			}
+			switch v {
+			case 'c':
+				conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
+			case 'f':
+				conn.connBuf.WriteString(" f" + strconv.FormatInt(int64(flag), 10))
+			case 'k':
+				conn.connBuf.WriteString(" k" + req.Key)
+			case 's':
+				conn.connBuf.WriteString(" s" + strconv.FormatInt(int64(len(r.Value)), 10))
+			case 't':
+				ttl := r.TTL
+				if ttl <= 0 {
+					// Never expires
+					ttl = -1
+				}
+				conn.connBuf.WriteString(" t" + strconv.FormatInt(ttl, 10))
+			}
 		}
 	}
 	conn.connBuf.Write(crlf)
@@ -831,9 +852,9 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-	}
-	if _, err := conn.connBuf.Write(crlf); err != nil {
-		return err
+		if _, err := conn.connBuf.Write(crlf); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 10f87fdaf997d9f5348a8600afb178f88acb8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 44/61] fix: a meta set returns the key and opaque asked for,
 and nothing if it is quiet

---
 server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/server.go b/server/server.go
index 800ddd9..38e2221 100644
--- a/server/server.go
+++ b/server/server.go
@@ -681,7 +681,16 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
 		if res[0].Error == nil {
 			if req.SetOpt.Meta {
+				if req.SetOpt.NoReply {
+					return nil
+				}
 				conn.connBuf.Write(metaProtoStored)
+				if req.SetOpt.Key {
+					conn.connBuf.WriteString(" k" + req.Key)
+				}
+				if req.SetOpt.Opaque != 0 {
+					conn.connBuf.WriteString(" O" + strconv.FormatInt(req.SetOpt.Opaque, 10))
+				}
 				conn.connBuf.Write(crlf)
 				if err := conn.connBuf.Flush(); err != nil {
 					return err
-- 
2.43.0


From d14639570ac9ed467b7653fce4ef2b30bb1022a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 45/61] fix: the server reads all keys of a text get

---
 server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/server.go b/server/server.go
index 38e2221..3972c3f 100644
--- a/server/server.go
+++ b/server/server.go
@@ -155,6 +155,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 	switch s[0] {
 	case "get":
+		if len(s) > 2 {
+			return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
+		}
 		if len(s) != 2 {
 			return nil, errors.New("server: invalid request")
 		}
-- 
2.43.0


From 16762ad622183d3b231572dde3b1b0199410a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 46/61] fix: the server refuses empty and too long keys and
 accepts a bare line feed

---
 server/server.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 3972c3f..11dfff0 100644
--- a/server/server.go
+++ b/server/server.go
@@ -57,6 +57,8 @@ var (
 	metaProtoDeleted = []byte("HD")
 )
 
+const maxKeyLength = 250
+
 var crlf = []byte("\r\n")
 
 // Statuses of the binary protocol
@@ -125,7 +127,14 @@ func (c *conn) readRequest() (*Request, error) {
 
 	switch c.Protocol {
 	case ProtocolAscii:
-		return c.readAsciiRequest()
+		req, err := c.readAsciiRequest()
+		if err != nil {
+			return nil, err
+		}
+		if !req.validKeys() {
+			return nil, errors.New("server: invalid request")
+		}
+		return req, nil
 	case ProtocolBinary:
 		header, err := c.readBinaryHeader()
 		if err != nil {
@@ -135,6 +144,9 @@ func (c *conn) readRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
+		if !req.validKeys() {
+			return nil, errors.New("server: invalid request")
+		}
 		req.opcode = header[1]
 		req.opaque = binary.BigEndian.Uint32(header[12:16])
 		return req, nil
@@ -148,7 +160,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	if err != nil {
 		return nil, err
 	}
-	s := strings.Split(strings.TrimSuffix(string(line), "\r\n"), " ")
+	s := strings.Split(strings.TrimSuffix(strings.TrimSuffix(string(line), "\n"), "\r"), " ")
 	if len(s) == 0 {
 		return nil, errors.New("server: invalid request")
 	}
@@ -523,6 +535,23 @@ type Request struct {
 	opaque uint32
 }
 
+// validKeys reports whether the request has the keys it needs, none of them empty or too long.
+func (r *Request) validKeys() bool {
+	switch r.Opcode {
+	case OpcodeFlush, OpcodeVersion, OpcodeNoop:
+		return true
+	}
+	if r.Keys == nil {
+		return 0 < len(r.Key) && len(r.Key) <= maxKeyLength
+	}
+	for _, key := range r.Keys {
+		if len(key) == 0 || maxKeyLength < len(key) {
+			return false
+		}
+	}
+	return len(r.Keys) > 0
+}
+
 type Response struct {
 	Key   string
 	Error error
-- 
2.43.0


From 5015fab278d1fc4469686880381fd8e0e87f2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 47/61] fix: bound the length of a command line the server
 buffers

---
 server/server.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 11dfff0..057e750 100644
--- a/server/server.go
+++ b/server/server.go
@@ -59,6 +59,9 @@ var (
 
 const maxKeyLength = 250
 
+// maxLineLength bounds the memory a client can occupy with a command that never ends.
+const maxLineLength = 1 << 20
+
 var crlf = []byte("\r\n")
 
 // Statuses of the binary protocol
@@ -156,7 +159,7 @@ func (c *conn) readRequest() (*Request, error) {
 }
 
 func (c *conn) readAsciiRequest() (*Request, error) {
-	line, err := c.connBuf.ReadBytes('\n')
+	line, err := c.readLine()
 	if err != nil {
 		return nil, err
 	}
@@ -359,6 +362,24 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// readLine reads up to and including the next line break.
+func (c *conn) readLine() ([]byte, error) {
+	var line []byte
+	for {
+		b, err := c.connBuf.ReadSlice('\n')
+		line = append(line, b...)
+		if err == nil {
+			return line, nil
+		}
+		if err != bufio.ErrBufferFull {
+			return nil, err
+		}
+		if len(line) > maxLineLength {
+			return nil, errors.New("server: too long line")
+		}
+	}
+}
+
 // readDataBlock reads the value of a storage command and the line break that ends it.
 func (c *conn) readDataBlock(size int64) ([]byte, error) {
 	if size < 0 {
-- 
2.43.0


From 1c90ffce82cd4b7ba281177dd7038e2d16545ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 48/61] fix: the server refuses binary commands without body
 that announce a key or extras

---
 server/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 057e750..2227212 100644
--- a/server/server.go
+++ b/server/server.go
@@ -528,9 +528,9 @@ func validBinaryLengths(header []byte) bool {
 	case OpcodeGet, OpcodeGetKQ, OpcodeDelete:
 		return extraLength == 0 && totalBodyLen == keyLength
 	case OpcodeFlush:
-		return (extraLength == 0 || extraLength == 4) && totalBodyLen == extraLength
+		return keyLength == 0 && (extraLength == 0 || extraLength == 4) && totalBodyLen == extraLength
 	default:
-		return totalBodyLen == 0
+		return keyLength == 0 && extraLength == 0 && totalBodyLen == 0
 	}
 }
 
-- 
2.43.0


From c705c20dfadde6c03ad6d749de65c76c30156cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 49/61] fix: the server refuses a flush with a delay instead of
 flushing at once

---
 server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server.go b/server/server.go
index 2227212..af067bc 100644
--- a/server/server.go
+++ b/server/server.go
@@ -354,6 +354,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
+		if len(s) != 1 {
+			// A delayed flush must not be done at once.
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
 		return &Request{Opcode: OpcodeVersion}, nil
-- 
2.43.0


From f012271654ead41015383f859df0c5775436d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 50/61] fix: GetMulti of the meta and binary clients blocked
 forever on very many keys

---
 client/server.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/client/server.go b/client/server.go
index 4188b09..02f5b90 100644
--- a/client/server.go
+++ b/client/server.go
@@ -83,6 +83,10 @@ var binaryStatus = map[uint16]string{
 	130: "out of memory",
 }
 
+// maxGetBatch is the number of keys that are asked for before the replies are read.
+// A server stops reading requests while its replies are not read: asking for too many at once would block both sides.
+const maxGetBatch = 100
+
 // maxKeyLength is the length of the longest key memcached accepts.
 const maxKeyLength = 250
 
@@ -859,6 +863,23 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	items := make([]*Item, 0)
+	for len(keys) > maxGetBatch {
+		i, err := s.getBatch(keys[:maxGetBatch])
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, i...)
+		keys = keys[maxGetBatch:]
+	}
+	i, err := s.getBatch(keys)
+	if err != nil {
+		return nil, err
+	}
+	return append(items, i...), nil
+}
+
+func (s *ServerWithMetaProtocol) getBatch(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0)
 	for _, key := range keys {
 		if _, err := fmt.Fprintf(s.conn, "mg %s v f k c t\r\n", key); err != nil {
@@ -1492,6 +1513,23 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	items := make([]*Item, 0, len(keys))
+	for len(keys) > maxGetBatch {
+		i, err := s.getBatch(keys[:maxGetBatch])
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, i...)
+		keys = keys[maxGetBatch:]
+	}
+	i, err := s.getBatch(keys)
+	if err != nil {
+		return nil, err
+	}
+	return append(items, i...), nil
+}
+
+func (s *ServerWithBinaryProtocol) getBatch(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0, len(keys))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	for _, key := range keys {
-- 
2.43.0


From a7cc08acce51e503d888a482a665c93de39dbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 51/61] fix: clients read the rest of a response line longer
 than their buffer, instead of taking it for the next response

---
 client/server.go | 62 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/client/server.go b/client/server.go
index 02f5b90..f22fe9e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -90,6 +90,9 @@ const maxGetBatch = 100
 // maxKeyLength is the length of the longest key memcached accepts.
 const maxKeyLength = 250
 
+// maxLineLength bounds the memory that a line of a response can occupy.
+const maxLineLength = 1 << 20
+
 var errInvalidKey = errors.New("memcached: invalid key")
 
 // legalKey reports whether the key can be sent by the text based protocols.
@@ -358,7 +361,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, error) {
 	res := make([]*Item, 0)
 	for {
-		b, err := r.ReadSlice('\n')
+		b, err := readLine(r)
 		if err != nil {
 			return nil, err
 		}
@@ -428,7 +431,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -473,7 +476,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return 0, err
 	}
@@ -513,7 +516,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -567,7 +570,7 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	buf, err := s.conn.ReadSlice('\n')
+	buf, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -614,7 +617,7 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -658,7 +661,7 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -691,7 +694,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -724,7 +727,7 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return "", err
 	}
@@ -913,7 +916,7 @@ func (s *ServerWithMetaProtocol) getBatch(keys []string) ([]*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item, error) {
-	b, err := conn.ReadSlice('\n')
+	b, err := readLine(conn.Reader)
 	if err != nil {
 		return nil, err
 	}
@@ -1056,7 +1059,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1102,7 +1105,7 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1143,7 +1146,7 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1176,7 +1179,7 @@ func (s *ServerWithMetaProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1224,7 +1227,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return 0, err
 	}
@@ -1261,7 +1264,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1291,7 +1294,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1320,7 +1323,7 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := readLine(s.conn.Reader)
 	if err != nil {
 		return "", err
 	}
@@ -2168,6 +2171,29 @@ func (h *binaryResponseHeader) ReadBody(r io.Reader) ([]byte, error) {
 	return buf, nil
 }
 
+// readLine reads up to and including the next line break.
+// What it returns is valid until the next read.
+func readLine(r *bufio.Reader) ([]byte, error) {
+	line, err := r.ReadSlice('\n')
+	if err != bufio.ErrBufferFull {
+		return line, err
+	}
+
+	// A part that stays unread would be taken for the next response.
+	line = append([]byte(nil), line...)
+	for err == bufio.ErrBufferFull {
+		var b []byte
+		b, err = r.ReadSlice('\n')
+		if len(line) < maxLineLength {
+			line = append(line, b...)
+		}
+	}
+	if err == nil && len(line) >= maxLineLength {
+		err = errors.New("memcached: too long line")
+	}
+	return line, err
+}
+
 // readN reads n bytes. It does not allocate memory for bytes that never arrive.
 func readN(r io.Reader, n int64) ([]byte, error) {
 	if n < 0 {
-- 
2.43.0


From 2f060442a386902072fbf8e48e8ff7dc91879c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:43 +0000
Subject: [PATCH 52/61] fix: a temporary failure to accept a connection does
 not stop the server

---
 server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/server.go b/server/server.go
index af067bc..7a921ad 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"time"
 )
 
 const (
@@ -62,6 +63,9 @@ const maxKeyLength = 250
 // maxLineLength bounds the memory a client can occupy with a command that never ends.
 const maxLineLength = 1 << 20
 
+// acceptRetryInterval is the pause after a temporary failure to accept a connection.
+const acceptRetryInterval = 10 * time.Millisecond
+
 var crlf = []byte("\r\n")
 
 // Statuses of the binary protocol
@@ -645,6 +649,11 @@ func (s *Server) Serve(l net.Listener) error {
 	for {
 		conn, err := l.Accept()
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// For example, too many files are open.
+				time.Sleep(acceptRetryInterval)
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From 03ee49ebfe2c9b913090bd4bbf312c417b133704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 53/61] fix: the router reconnects to a server that comes back

---
 cmd/router/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/router/main.go b/cmd/router/main.go
index ff31491..5f291c6 100644
--- a/cmd/router/main.go
+++ b/cmd/router/main.go
@@ -29,7 +29,8 @@ type Config struct {
 func connectServers(servers []Server) []*client.ServerWithMetaProtocol {
 	res := make([]*client.ServerWithMetaProtocol, len(servers))
 	for i := range servers {
-		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", fmt.Sprintf("%s:%d", servers[i].Host, servers[i].Port))
+		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", fmt.Sprintf("%s:%d", servers[i].Host, servers[i].Port),
+			client.EnableHeartbeat, client.EnableAutoReconnect)
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From b867ee3c84e9b08cf4c20b3dbdaa99a104a33229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 54/61] fix: the router refuses meta gets that are not only a
 read, instead of reading

---
 proxy/replica_pool.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index 80f422e..3538982 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -3,6 +3,7 @@ package proxy
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"time"
 
 	"go.f110.dev/go-memcached/client"
@@ -36,6 +37,15 @@ func newResponse(item *client.Item) *server.Response {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if req.GetOpt != nil && req.GetOpt.Meta {
+			for _, token := range strings.Fields(req.GetOpt.RequestFlag) {
+				switch token[0] {
+				case 'E', 'N', 'R', 'T':
+					// It is not only a read.
+					return nil, errors.New("proxy: unsupported flag")
+				}
+			}
+		}
 		if req.Keys != nil {
 			items, err := p.pool.GetMulti(req.Keys...)
 			if err != nil {
-- 
2.43.0


From 9dd20100ebdc83bfa609dacf92bf81719de75108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 55/61] fix: an ms that sets the item's CAS token is refused,
 instead of being answered as done without it

---
 server/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 7a921ad..7bf6f0b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -323,7 +323,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						// Not a set
 						return nil, errors.New("server: invalid request")
 					}
-				case 'b':
+				case 'b', 'E':
+					// The key is encoded, or the item must get another CAS token.
 					return nil, errors.New("server: invalid request")
 				case 'O':
 					v, err := strconv.ParseInt(f[1:], 10, 64)
-- 
2.43.0


From 9e9f325172861ae78b465974fecc943ebae0ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 56/61] fix: a meta batch read whose no-op is refused ends

---
 client/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index f22fe9e..168ae50 100644
--- a/client/server.go
+++ b/client/server.go
@@ -894,8 +894,9 @@ func (s *ServerWithMetaProtocol) getBatch(keys []string) ([]*Item, error) {
 		return nil, err
 	}
 
+	// Every key has one reply, and so has the no-op.
 	var replyErr error
-	for {
+	for i := 0; i <= len(keys); i++ {
 		item, err := s.parseGetResponse(s.conn)
 		switch err {
 		case nil:
@@ -913,6 +914,8 @@ func (s *ServerWithMetaProtocol) getBatch(keys []string) ([]*Item, error) {
 			return nil, err
 		}
 	}
+	// The no-op was refused.
+	return nil, errMetaInvalidGet
 }
 
 func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item, error) {
-- 
2.43.0


From b3dad69e42b76c8bc9f6d336282997bc105cf597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:43 +0000
Subject: [PATCH 57/61] fix: the binary client's Add does not send a CAS token

---
 client/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/server.go b/client/server.go
index 168ae50..c0e42dd 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1678,6 +1678,8 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 
 	header.Opcode = binaryOpcodeAdd
 	extra := item.marshalBinaryRequestHeader(header)
+	// memcached takes an add with a CAS token for a set that needs it to match.
+	header.CAS = 0
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-- 
2.43.0


From 9a0e36c434480de3794c6b01cb3c7679364ea338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:43 +0000
Subject: [PATCH 58/61] fix: the server refuses a binary flush with a delay
 instead of flushing at once

---
 server/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 7bf6f0b..1cb617c 100644
--- a/server/server.go
+++ b/server/server.go
@@ -512,9 +512,16 @@ func (c *conn) readBinaryRequest(header []byte) (*Request, error) {
 
 		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
 	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
-		if _, err := c.connBuf.Discard(int(header[4])); err != nil {
+		extra := make([]byte, header[4])
+		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
 			return nil, err
 		}
+		for _, b := range extra {
+			if b != 0 {
+				// A delayed flush must not be done at once.
+				return nil, errors.New("server: invalid request")
+			}
+		}
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
 
-- 
2.43.0


From 53d64e7cefa9e626f78356a72d73bdf58270feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 59/61] fix: a meta set echoes the opaque 0

---
 server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 1cb617c..892fd57 100644
--- a/server/server.go
+++ b/server/server.go
@@ -332,6 +332,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						return nil, err
 					}
 					opt.Opaque = v
+					opt.WithOpaque = true
 				case 'q':
 					opt.NoReply = true
 				case 'S':
@@ -621,6 +622,7 @@ type SetOpt struct {
 	Flag       int32
 	Invalidate bool
 	Key        bool
+	WithOpaque bool
 	Opaque     int64
 	NoReply    bool
 	Size       int
@@ -762,7 +764,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				if req.SetOpt.Key {
 					conn.connBuf.WriteString(" k" + req.Key)
 				}
-				if req.SetOpt.Opaque != 0 {
+				if req.SetOpt.WithOpaque {
 					conn.connBuf.WriteString(" O" + strconv.FormatInt(req.SetOpt.Opaque, 10))
 				}
 				conn.connBuf.Write(crlf)
-- 
2.43.0


From f50d9dc7183ce67f81a66345eab0f3e0ad533c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 60/61] fix: read the remaining replies of a meta batch after
 one that is too long

---
 client/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index c0e42dd..d3682f5 100644
--- a/client/server.go
+++ b/client/server.go
@@ -902,7 +902,7 @@ func (s *ServerWithMetaProtocol) getBatch(keys []string) ([]*Item, error) {
 		case nil:
 			items = append(items, item)
 		case merrors.ItemNotFound:
-		case errMetaInvalidGet:
+		case errMetaInvalidGet, errLongLine:
 			// The replies for other keys follow.
 			replyErr = err
 		case errMetaNoop:
@@ -2176,6 +2176,9 @@ func (h *binaryResponseHeader) ReadBody(r io.Reader) ([]byte, error) {
 	return buf, nil
 }
 
+// errLongLine means that a line was read to its end but not kept.
+var errLongLine = errors.New("memcached: too long line")
+
 // readLine reads up to and including the next line break.
 // What it returns is valid until the next read.
 func readLine(r *bufio.Reader) ([]byte, error) {
@@ -2194,7 +2197,7 @@ func readLine(r *bufio.Reader) ([]byte, error) {
 		}
 	}
 	if err == nil && len(line) >= maxLineLength {
-		err = errors.New("memcached: too long line")
+		err = errLongLine
 	}
 	return line, err
 }
-- 
2.43.0


From af815d2e5b6fb1a9a8f96596ebcd4f00c02e4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:46 +0000
Subject: [PATCH 61/61] fix: bound the dial of Reconnect by the timeout and end
 it when the client is closed

---
 client/server.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/client/server.go b/client/server.go
index d3682f5..f789c89 100644
--- a/client/server.go
+++ b/client/server.go
@@ -263,8 +263,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		_ = s.raw.Close()
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	conn, err := redial(s.Network, s.Addr, s.Timeout, s.closeCh)
 	if err != nil {
 		return err
 	}
@@ -806,8 +805,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		_ = s.raw.Close()
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	conn, err := redial(s.Network, s.Addr, s.Timeout, s.closeCh)
 	if err != nil {
 		return err
 	}
@@ -1427,8 +1425,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		_ = s.raw.Close()
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	conn, err := redial(s.Network, s.Addr, s.Timeout, s.closeCh)
 	if err != nil {
 		return err
 	}
@@ -2229,6 +2226,22 @@ func readValue(r io.Reader, size int) ([]byte, error) {
 	return buf[:size], nil
 }
 
+// redial gives up when the timeout, if there is one, has passed or when closeCh is closed.
+func redial(network, addr string, timeout time.Duration, closeCh <-chan struct{}) (net.Conn, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+	go func() {
+		select {
+		case <-closeCh:
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+
+	d := &net.Dialer{Timeout: timeout}
+	return d.DialContext(ctx, network, addr)
+}
+
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
 	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
-- 
2.43.0

