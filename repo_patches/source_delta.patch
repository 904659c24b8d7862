From b10db6c887d75a2e7fdda0e308ac9abf55087e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 01/37] fix: read primitives completely even if the transport
 delivers them in pieces

---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/primitives/varint.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..eda9712 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -74,7 +74,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..e104672 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -92,7 +92,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
-- 
2.43.0


From 6f8262be1931d671f2749906881deb5556134a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 02/37] fix: refuse to write strings whose length does not fit
 the 16-bit prefix

---
 mqtt/packets/primitives/string.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index eda9712..de51c70 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,22 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
+// ErrStringTooLong is returned when a string does not fit the 16-bit length prefix used on the wire.
+var ErrStringTooLong = errors.New("string exceeds 65535 bytes")
+
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// The length must be representable by the 16-bit length prefix
+	if len(*p) > math.MaxUint16 {
+		return 0, ErrStringTooLong
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
-- 
2.43.0


From 514ddb3c84bfeb3314233032ff596aa1addb485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 03/37] fix: count the identifier byte of string properties

---
 mqtt/packets/primitives/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index de51c70..3c823af 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -62,11 +62,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++
 
 	return
 }
-- 
2.43.0


From 29e6d083e0c52474f6052d9aaee7d7b8803c948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 04/37] fix: bound variable byte integers to four bytes when
 reading and writing

---
 mqtt/packets/primitives/varint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index e104672..f3d5294 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -53,6 +53,10 @@ func (v *VariableByteInt) Length(property bool) (result VariableByteInt) {
 }
 
 func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
+	if *v > 268_435_455 {
+		return 0, errors.New("variable byte integer out of range")
+	}
+
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
@@ -91,6 +95,11 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 	var val uint32
 
 	for {
+		if mul > 21 {
+			// SPEC: The maximum number of bytes in the Variable Byte Integer field is four.
+			return 0, errors.New("malformed variable byte integer")
+		}
+
 		var b [1]byte
 		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
-- 
2.43.0


From 25e4ca5eb70617bc74a2576778d3ce2b9ae25428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 05/37] fix: report the number of bytes read by
 Connack.ReadFrom

---
 mqtt/packets/connack.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..45f0716 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -190,7 +190,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
-	n += int64(c.Header.Remaining)
 	/* Properties end */
 	return
 }
-- 
2.43.0


From 50091ce994bbb26504ac07471ddee86b7100c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 06/37] fix: Publish.Write must copy to the current payload
 offset

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..d7270c3 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -63,7 +63,7 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
 	return
-- 
2.43.0


From c93a26fb50a742119bea39a16a2585d192a98d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 07/37] fix: read the whole PUBLISH payload even if the
 transport delivers it in pieces

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index d7270c3..b19870e 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,7 +187,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From 85369446b9d9dd12b67331c3acbda3f0151ab4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 08/37] fix: account for the real fixed header length when
 decoding a stand-alone PUBLISH

---
 mqtt/packets/publish.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index b19870e..db46215 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -95,7 +95,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
+		offset = count
 	}
 
 	// Parse flags
@@ -123,7 +123,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
+	if propertiesLen == 0 && n-offset >= int64(p.Header.Remaining) {
 		return
 	}
 
-- 
2.43.0


From c69d1fc7cc091070cb9a15ea9ffc3146661a0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 09/37] fix: reject PUBLISH packets with QoS 3

---
 mqtt/packets/publish.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index db46215..3119063 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -103,6 +103,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	p.QoS = QoS(p.Header.GetFlags()>>1) & 0x03
 	p.Duplicate = ((p.Header.GetFlags() >> 3) & 0x01) != 0
 
+	// SPEC: A PUBLISH packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Read variable header
 	if count, err = p.Topic.ReadFrom(r); err != nil {
 		return 0, err
-- 
2.43.0


From 7a73895af25b33104f1ebe649bfbe38721067c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 10/37] fix: accept the payload format indicator property in
 PUBLISH packets

---
 mqtt/packets/publish.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 3119063..2a6567a 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -143,6 +143,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining--
 
 		switch identifier {
+		case 0x01: // Payload format indicator (not exposed)
+			var payloadFormat primitives.PrimitiveByte
+			if count, err = payloadFormat.ReadFrom(r); err != nil {
+				return 0, err
+			}
 		case 0x02: // Message expiry interval
 			if count, err = p.MessageExpiryInterval.ReadFrom(r); err != nil {
 				return 0, err
-- 
2.43.0


From 892e6e623b07baa3d040da90a9549cb9695c1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 11/37] fix: reject unknown properties and properties that
 overrun their section

---
 mqtt/packets/auth.go       | 7 +++++++
 mqtt/packets/connack.go    | 7 +++++++
 mqtt/packets/disconnect.go | 7 +++++++
 mqtt/packets/puback.go     | 7 +++++++
 mqtt/packets/publish.go    | 7 +++++++
 mqtt/packets/suback.go     | 7 +++++++
 mqtt/packets/unsuback.go   | 7 +++++++
 7 files changed, 49 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..2e036f0 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -102,11 +102,18 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default: // Unknown property
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The last property must end where the properties section ends
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 45f0716..2808637 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -185,11 +185,18 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default: // Unknown property
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The last property must end where the properties section ends
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	/* Properties end */
 	return
 }
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..267a9ad 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -98,10 +98,17 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default: // Unknown property
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// The last property must end where the properties section ends
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 	/* Variable header end */
 
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..31eebe2 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -133,11 +133,18 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default: // Unknown property
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The last property must end where the properties section ends
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 2a6567a..b4bb492 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,10 +187,17 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default: // Unknown property
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// The last property must end where the properties section ends
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 
 	// Read the payload
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..5e5fc7a 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -96,11 +96,18 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default: // Unknown property
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The last property must end where the properties section ends
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..5a978d7 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -96,11 +96,18 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default: // Unknown property
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The last property must end where the properties section ends
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
-- 
2.43.0


From 01a8f70cb0bbb8e68d3982839d2cdc86866e5406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 12/37] fix: reject acknowledgements that are cut before a
 mandatory field

---
 mqtt/packets/auth.go     | 2 +-
 mqtt/packets/connack.go  | 4 ++--
 mqtt/packets/suback.go   | 5 +++--
 mqtt/packets/unsuback.go | 5 +++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 2e036f0..1906c1c 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -60,7 +60,7 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
+	if propertiesLen == 0 && n >= int64(a.Header.Remaining) {
 		return
 	}
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 2808637..9d01610 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -69,7 +69,7 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
 	if n >= int64(c.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
@@ -90,7 +90,7 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
+	if propertiesLen == 0 && n >= int64(c.Header.Remaining) {
 		return
 	}
 
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 5e5fc7a..ed34d7a 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -51,7 +51,7 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -62,8 +62,9 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
+	// At least one reason code must follow
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 5a978d7..9d8f069 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -51,7 +51,7 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -62,8 +62,9 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
+	// At least one reason code must follow
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
-- 
2.43.0


From cdd90f9856c3c100065cbe0fad5372ebc1890c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 13/37] fix: decode DISCONNECT and AUTH packets with a
 Remaining Length of 0

---
 mqtt/packets/auth.go       | 6 ++++++
 mqtt/packets/disconnect.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 1906c1c..8e48c7b 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,6 +43,12 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.Header.Remaining == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 267a9ad..615dbce 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,6 +43,11 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: If the Remaining Length is less than 1 the value of 0x00 (Normal disconnection) is used.
+	if d.Header.Remaining == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
-- 
2.43.0


From d131adf603027663d6734f77c931c90469aa497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 14/37] fix: encode all DISCONNECT properties and count them in
 the declared lengths

---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 615dbce..40374c2 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -121,7 +121,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := primitives.VariableByteInt(1) // Account for reason code
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -129,6 +129,10 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.SessionExpiryInterval.Length(true)
 	}
 
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
 	for k, v := range d.UserProperties {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
@@ -137,7 +141,7 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -193,6 +197,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From 1fc89fe83dc8688dc5e833b3752d0b6ab3231c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 15/37] fix: write the reason code and properties length of
 AUTH packets

---
 mqtt/packets/auth.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 8e48c7b..e066d10 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -130,17 +130,12 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	// Calculate remaining length
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
 	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
-	}
-
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
-	}
 
-	if len(a.AuthenticationData) > 0 {
-		l := primitives.VariableByteInt(len(a.AuthenticationData))
+		// The authentication data is only meaningful (and written) along with the method
+		l = primitives.VariableByteInt(len(a.AuthenticationData))
 		propertiesLen += 3 + l
 	}
 
@@ -153,7 +148,10 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	omit := a.AuthenticateReasonCode == 0 && propertiesLen == 0
+	if !omit {
+		variableHeaderLen += a.AuthenticateReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -163,7 +161,22 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if omit {
+		return
+	}
+
+	// Write reason code
+	if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
+	if count, err = propertiesLen.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
 			return 0, err
-- 
2.43.0


From d04fa3a3ecb2cd63334b1d8168b7fa25ce790810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 16/37] fix: No Local handling of short and shared topic
 filters

---
 mqtt/packets/topic.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..274c229 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -24,7 +24,11 @@
 
 package packets
 
-import "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+import (
+	"strings"
+
+	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+)
 
 type Topic struct {
 	filter  primitives.PrimitiveString
@@ -44,22 +48,27 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
+	t.filter = primitives.PrimitiveString(filter)
+	if t.isShared() {
 		// Unset no local option
 		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
 		t.SetNoLocal(false)
 	}
-	t.filter = primitives.PrimitiveString(filter)
 	return t
 }
 
+// isShared returns true if the filter is that of a shared subscription.
+func (t *Topic) isShared() bool {
+	return strings.HasPrefix(string(t.filter), "$share/")
+}
+
 func (t *Topic) SetNoLocal(on bool) *Topic {
 	// Set bit 2
 	t.options &= ^primitives.PrimitiveByte(1 << 2)
 
 	// Leave bit unset if this is a shared subscription
 	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on && !t.isShared() {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
-- 
2.43.0


From afac15cf2c888acd4abd0c8ea8dea9c98ef616c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 17/37] fix: declared lengths of CONNECT properties and will
 properties

---
 mqtt/packets/connect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..c17d785 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
@@ -145,9 +145,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
+		// The will payload format indicator is always written
+		willPropertiesLen += 2
+
 		if c.WillDelayInterval > 0 {
 			willPropertiesLen += c.WillDelayInterval.Length(true)
 		}
@@ -171,9 +174,9 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
-	}
 
-	payloadLen += willPropertiesLen
+		payloadLen += willPropertiesLen.Length(false) + willPropertiesLen
+	}
 
 	/* Fixed header begin */
 	fh := FixedHeader{
-- 
2.43.0


From 8c8d39f9e1773889c86cc35903f39b74e95b4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 18/37] fix: property identifiers of CONNECT

---
 mqtt/packets/connect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c17d785..38b0513 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -241,7 +241,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -255,7 +255,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -323,7 +323,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From e2d438e1f53421d13dc146711513f685ceedcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 19/37] fix: disconnecting must be possible while (and only
 while) connected; make the connected flag safe for concurrent use

---
 mqtt/client.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..4b83c06 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -33,6 +33,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/waj334/tinygo-mqtt/mqtt/packets"
@@ -47,7 +48,7 @@ type Client struct {
 
 	storage storage.Storage
 
-	isConnected           bool
+	isConnected           atomic.Bool
 	keepAliveInterval     time.Duration
 	pingRespDeadline      time.Time
 	sessionExpiryInterval uint32
@@ -306,7 +307,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
 
 	// Successful connection!
-	c.isConnected = true
+	c.isConnected.Store(true)
 
 	// Signal CONNACK event
 	c.signal(packets.CONNACK, connack, nil)
@@ -317,7 +318,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
-	return c.isConnected
+	return c.isConnected.Load()
 }
 
 // Disconnect sends the DISCONNECT packet to the server. The network connection will be closed upon sending the
@@ -338,7 +339,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -386,7 +387,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 	unlockConn.Do(c.connMutex.Unlock)
 
-	c.isConnected = false
+	c.isConnected.Store(false)
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -395,7 +396,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 }
 
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -439,7 +440,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	}
 	unlockConn.Do(c.connMutex.Unlock)
 
-	c.isConnected = false
+	c.isConnected.Store(false)
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -454,7 +455,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -548,7 +549,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	c.mutex.Lock()
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -611,7 +612,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -767,7 +768,7 @@ func (c *Client) KeepAlive() (err error) {
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -813,7 +814,7 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -826,7 +827,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected = false
+		c.isConnected.Store(false)
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From 277557efe4a67263683290522868122ccd2ec955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 20/37] fix: acquire the client locks in one order everywhere

---
 mqtt/client.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4b83c06..2cd4678 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -210,18 +210,14 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -254,8 +250,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// Did the server send an error response?
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
@@ -269,6 +263,10 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return ReasonCode(connack.ReasonCode)
 	}
 
+	// NOTE: Locks are always acquired in the order connMutex, mutex, eventMutex.
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	// Handle server keep alive specification
 	if connack.ServerKeepAlive > 0 {
 		// Use the keep alive interval returned by the server
@@ -336,6 +334,9 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
@@ -349,10 +350,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -385,7 +382,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
 
 	c.isConnected.Store(false)
 
@@ -755,6 +751,9 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
@@ -765,8 +764,8 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
 
 	if !c.isConnected.Load() {
 		return ErrClientNotConnected
@@ -785,10 +784,6 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -802,8 +797,6 @@ func (c *Client) KeepAlive() (err error) {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// NOTE: Poll handles receiving the response and disconnecting if no response has been sent within twice the keep
 	// alive interval.
 	return
-- 
2.43.0


From 962bb9b3927fc7b0c5faebe4ff5b2cdaba821c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 21/37] fix: a keep alive of zero turns the keep alive
 mechanism off

---
 mqtt/client.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 2cd4678..98ed645 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -775,13 +775,11 @@ func (c *Client) KeepAlive() (err error) {
 	// SPEC: If the Keep Alive value is non-zero and the Server does not receive an MQTT Control Packet from the Client
 	//       within one and a half times the Keep Alive time period, it MUST close the Network Connection to the Client
 	//       as if the network had failed. [MQTT-3.1.2-22]
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.keepAliveInterval.Seconds()*1.5))
-	defer cancel()
-
+	//
+	// NOTE: There is no limit if the keep alive mechanism is turned off (keep alive of zero).
 	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
+	if c.keepAliveInterval > 0 {
+		deadline = time.Now().Add(time.Second * time.Duration(c.keepAliveInterval.Seconds()*1.5))
 	}
 
 	// Set I/O deadline
@@ -817,7 +815,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	// SPEC: A Keep Alive value of 0 has the effect of turning off the Keep Alive mechanism.
+	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.isConnected.Store(false)
-- 
2.43.0


From 1c9909d3ffcd289799d8632ef45571775f7a8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 22/37] fix: Receive Maximum defaults to 65535 and QoS 0
 publishes do not count against it

---
 mqtt/client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 98ed645..124692c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -29,6 +29,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 	"math/rand"
 	"net"
 	"os"
@@ -279,11 +280,14 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
+	// SPEC: If the Receive Maximum value is absent, then its value defaults to 65,535.
 	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	if c.serverReceiveMaximum == 0 {
+		c.serverReceiveMaximum = math.MaxUint16
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		c.clientReceiveMaximum = math.MaxUint16
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
@@ -884,7 +888,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 				c.mutex.Unlock()
 				return err
 			}
-		} else {
+		} else if publish.QoS > 0 {
 			// Decrement the receive quota counter
 			c.receiveQuota--
 		}
-- 
2.43.0


From efb2dd01f9c018eeacf0dd786822148b927db89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 23/37] fix: release the client mutex when handling an
 acknowledgement fails, and tolerate acknowledgements without a stored packet

---
 mqtt/client.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 124692c..0628a03 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -950,7 +950,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
-			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -975,12 +976,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original publish from persistent storage
-			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
+				c.mutex.Unlock()
 				return err
 			}
 
 			// Store the incoming PUBREC to persistent storage
 			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -993,6 +996,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		if err = c.send(pubrel); err != nil {
+			c.mutex.Unlock()
 			return err
 		}
 
@@ -1010,7 +1014,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.mutex.Lock()
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -1056,7 +1061,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
+				c.mutex.Unlock()
 				return err
 			}
 		}
-- 
2.43.0


From 71b15fea6b5fd2206a2355aee4d7a1c08d508525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 24/37] fix: a PUBREC with a failure reason code ends the
 exchange

---
 mqtt/client.go | 79 +++++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 40 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0628a03..3863d03 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -679,6 +679,21 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	return
 }
 
+// releaseSendQuota makes room for one more publish (QoS > 0). The client mutex must be held.
+func (c *Client) releaseSendQuota() {
+	if c.sendQuota < c.serverReceiveMaximum {
+		// Increment the sent publish counter
+		c.sendQuota++
+
+		// Potentially allow a blocked call to Publish to continue.
+		// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+		select {
+		case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
+		default: // No call to Publish is pending
+		}
+	}
+}
+
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
 func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
@@ -936,17 +951,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota()
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
@@ -968,10 +973,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
-			if c.sendQuota < c.serverReceiveMaximum {
-				c.sendQuota++
-			}
+		if pubrec.ReasonCode >= 0x80 {
+			c.releaseSendQuota()
 		}
 
 		if c.storage != nil {
@@ -980,24 +983,30 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 				c.mutex.Unlock()
 				return err
 			}
+		}
 
-			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
-				c.mutex.Unlock()
-				return err
+		// SPEC: The exchange ends here if the PUBREC carries a Reason Code of 0x80 or greater. The packet identifier is
+		//       released and no PUBREL is sent.
+		if pubrec.ReasonCode < 0x80 {
+			if c.storage != nil {
+				// Store the incoming PUBREC to persistent storage
+				if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+					c.mutex.Unlock()
+					return err
+				}
 			}
-		}
 
-		// Send PUBREL control packet
-		pubrel := &packets.Pubrel{
-			Puback: packets.Puback{
-				PacketIdentifier: pubrec.PacketIdentifier,
-			},
-		}
+			// Send PUBREL control packet
+			pubrel := &packets.Pubrel{
+				Puback: packets.Puback{
+					PacketIdentifier: pubrec.PacketIdentifier,
+				},
+			}
 
-		if err = c.send(pubrel); err != nil {
-			c.mutex.Unlock()
-			return err
+			if err = c.send(pubrel); err != nil {
+				c.mutex.Unlock()
+				return err
+			}
 		}
 
 		c.mutex.Unlock()
@@ -1047,17 +1056,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota()
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-- 
2.43.0


From fa8e1082a619e29f40642bb17c342f8eba4f6bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 25/37] fix: account for the send quota atomically and wake
 every publisher waiting for it

---
 mqtt/client.go | 130 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 89 insertions(+), 41 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 3863d03..e8cba41 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -70,7 +70,11 @@ type Client struct {
 
 	rngFn func() uint32
 
+	// pendingSendSemaphore is closed (and replaced) whenever the send quota is incremented.
 	pendingSendSemaphore chan struct{}
+
+	// closed is closed when the connection ends.
+	closed chan struct{}
 }
 
 type Topic struct {
@@ -298,6 +302,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.receiveQuota = c.clientReceiveMaximum
 
 	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
+	c.closed = make(chan struct{})
 
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
@@ -323,6 +328,13 @@ func (c *Client) IsConnected() bool {
 	return c.isConnected.Load()
 }
 
+// setDisconnected records the end of the connection and wakes all calls that wait for the server.
+func (c *Client) setDisconnected() {
+	if c.isConnected.CompareAndSwap(true, false) {
+		close(c.closed)
+	}
+}
+
 // Disconnect sends the DISCONNECT packet to the server. The network connection will be closed upon sending the
 // DISCONNECT packet. Setting the publishWill parameter to true will require the server to publish the "Will" message if
 // one was specified initially in the CONNECT packet. The server will default session expiry interval to that of the
@@ -387,7 +399,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		return
 	}
 
-	c.isConnected.Store(false)
+	c.setDisconnected()
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -440,7 +452,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	}
 	unlockConn.Do(c.connMutex.Unlock)
 
-	c.isConnected.Store(false)
+	c.setDisconnected()
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -622,16 +634,24 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
+	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
+	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
+	//       [MQTT-4.9.0-2].
+	//
+	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
+	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
+	//       is zero [MQTT-4.9.0-3].
+	if pub.QoS > 0 {
+		if err = c.acquireSendQuota(ctx); err != nil {
+			return err
+		}
 	}
 
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	// Perform preflight packet persistence operations
+	var stored bool
 	if pub.QoS > 0 {
 		// Assign a packet identifier if none is set
 		c.mutex.Lock()
@@ -641,38 +661,29 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 
 		if c.storage != nil {
 			// Store this publish control packet
-			if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
-				c.mutex.Unlock()
-				return err
-			}
+			err = c.storage.Store(uint16(pub.PacketIdentifier), pub)
+			stored = err == nil
 		}
 		c.mutex.Unlock()
 	}
 
-	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
-	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
-	//       [MQTT-4.9.0-2].
-	//
-	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
-	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
-	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
-		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
-		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
-		c.connMutex.Lock()
-	}
-	// Write the publish
-	if err = c.send(pub); err != nil {
-		return err
+	var sent bool
+	if err == nil {
+		if !c.isConnected.Load() {
+			err = ErrClientNotConnected
+		} else if err = c.conn.SetDeadline(deadline); err == nil { // Set I/O deadline
+			// Write the publish
+			sent, err = c.trySend(pub)
+		}
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
-	if pub.QoS > 0 {
+	if !sent && pub.QoS > 0 {
+		// This publish was not sent. Forget about it.
 		c.mutex.Lock()
-		// Decrement the send quota counter
-		c.sendQuota--
+		if stored {
+			c.storage.Drop(uint16(pub.PacketIdentifier))
+		}
+		c.releaseSendQuota()
 		c.mutex.Unlock()
 	}
 
@@ -687,9 +698,34 @@ func (c *Client) releaseSendQuota() {
 
 		// Potentially allow a blocked call to Publish to continue.
 		// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+		close(c.pendingSendSemaphore)
+		c.pendingSendSemaphore = make(chan struct{})
+	}
+}
+
+// acquireSendQuota waits until one more publish (QoS > 0) may be sent and accounts for it.
+func (c *Client) acquireSendQuota(ctx context.Context) error {
+	for {
+		c.mutex.Lock()
+		if !c.isConnected.Load() {
+			c.mutex.Unlock()
+			return ErrClientNotConnected
+		}
+		if c.sendQuota > 0 {
+			c.sendQuota--
+			c.mutex.Unlock()
+			return nil
+		}
+		released, closed := c.pendingSendSemaphore, c.closed
+		c.mutex.Unlock()
+
+		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
 		select {
-		case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-		default: // No call to Publish is pending
+		case <-released:
+		case <-closed:
+			return ErrClientNotConnected
+		case <-ctx.Done():
+			return ctx.Err()
 		}
 	}
 }
@@ -838,7 +874,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected.Store(false)
+		c.setDisconnected()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -1186,18 +1222,30 @@ func (c *Client) matchTopic(topic, filter string) bool {
 }
 
 func (c *Client) send(w io.WriterTo) (err error) {
+	_, err = c.trySend(w)
+	return
+}
+
+// trySend writes the control packet to the connection and reports whether any part of it may have been sent.
+func (c *Client) trySend(w io.WriterTo) (sent bool, err error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
 
 	// Write to the buffer
 	if _, err = w.WriteTo(buf); err != nil {
-		return err
+		return false, err
 	}
 
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(buf.Bytes()); err != nil {
-		return err
+	var n int
+	if n, err = c.conn.Write(buf.Bytes()); err != nil {
+		if n > 0 {
+			// The server received an incomplete control packet. Nothing can be sent after it.
+			c.setDisconnected()
+			c.conn.Close()
+		}
+		return n > 0, err
 	}
 
-	return nil
+	return true, nil
 }
-- 
2.43.0


From 905d3a3ef65477552093d0256bd0aa22473c46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 26/37] fix: never use zero or a packet identifier that is
 still in use

---
 mqtt/client.go | 81 +++++++++++++++++++++++++++++++++++++++++++++-----
 mqtt/errors.go |  1 +
 2 files changed, 74 insertions(+), 8 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index e8cba41..19268cc 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -68,6 +68,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// publishing holds the packet identifiers of the unfinished publishes (QoS > 0) sent by this client.
+	publishing map[primitives.PrimitiveUint16]struct{}
+
 	rngFn func() uint32
 
 	// pendingSendSemaphore is closed (and replaced) whenever the send quota is incremented.
@@ -93,6 +96,7 @@ func NewClient(conn net.Conn) *Client {
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
+		publishing:      make(map[primitives.PrimitiveUint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -492,8 +496,13 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	}
 
 	c.mutex.Lock()
+	id, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: id,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -582,8 +591,13 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+	id, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: id,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -622,6 +636,40 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	return
 }
 
+// packetIdentifierInUse returns true if an unfinished exchange started by this client uses the packet identifier. The
+// client mutex must be held.
+func (c *Client) packetIdentifierInUse(id primitives.PrimitiveUint16) bool {
+	if _, ok := c.responseChan[int(id)]; ok {
+		return true
+	}
+	_, ok := c.publishing[id]
+	return ok
+}
+
+// newPacketIdentifier returns a random packet identifier that is currently unused. The client mutex must be held.
+// SPEC: Each time a Client sends a new SUBSCRIBE, UNSUBSCRIBE, or PUBLISH (where QoS > 0) MQTT Control Packet it MUST
+//
+//	assign it a non-zero Packet Identifier that is currently unused [MQTT-2.2.1-3].
+func (c *Client) newPacketIdentifier() (primitives.PrimitiveUint16, error) {
+	id := primitives.PrimitiveUint16(c.rngFn())
+	for n := 0; n <= math.MaxUint16; n++ {
+		if id != 0 && !c.packetIdentifierInUse(id) {
+			if c.storage == nil {
+				return id, nil
+			}
+
+			// Do not reuse the identifier of a control packet that is still persisted
+			if _, err := c.storage.Get(uint16(id)); errors.Is(err, storage.ErrNoEntry) {
+				return id, nil
+			} else if err != nil {
+				return 0, err
+			}
+		}
+		id++
+	}
+	return 0, ErrNoPacketIdentifier
+}
+
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
 	if !c.isConnected.Load() {
@@ -651,18 +699,26 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	defer c.connMutex.Unlock()
 
 	// Perform preflight packet persistence operations
-	var stored bool
+	var assigned, reserved, stored bool
 	if pub.QoS > 0 {
 		// Assign a packet identifier if none is set
 		c.mutex.Lock()
 		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
+			pub.PacketIdentifier, err = c.newPacketIdentifier()
+			assigned = err == nil
+		} else if c.packetIdentifierInUse(pub.PacketIdentifier) {
+			err = storage.ErrDuplicateEntry
 		}
 
-		if c.storage != nil {
-			// Store this publish control packet
-			err = c.storage.Store(uint16(pub.PacketIdentifier), pub)
-			stored = err == nil
+		if err == nil {
+			c.publishing[pub.PacketIdentifier] = struct{}{}
+			reserved = true
+
+			if c.storage != nil {
+				// Store this publish control packet
+				err = c.storage.Store(uint16(pub.PacketIdentifier), pub)
+				stored = err == nil
+			}
 		}
 		c.mutex.Unlock()
 	}
@@ -683,6 +739,12 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		if stored {
 			c.storage.Drop(uint16(pub.PacketIdentifier))
 		}
+		if reserved {
+			delete(c.publishing, pub.PacketIdentifier)
+		}
+		if assigned {
+			pub.PacketIdentifier = 0
+		}
 		c.releaseSendQuota()
 		c.mutex.Unlock()
 	}
@@ -987,6 +1049,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
+		delete(c.publishing, puback.PacketIdentifier)
 		c.releaseSendQuota()
 
 		// Drop any persisted publish with the same packet identifier
@@ -1010,6 +1073,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
 		if pubrec.ReasonCode >= 0x80 {
+			delete(c.publishing, pubrec.PacketIdentifier)
 			c.releaseSendQuota()
 		}
 
@@ -1092,6 +1156,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
+		delete(c.publishing, pubcomp.PacketIdentifier)
 		c.releaseSendQuota()
 
 		if c.storage != nil {
diff --git a/mqtt/errors.go b/mqtt/errors.go
index b2e4b09..b297c29 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -30,6 +30,7 @@ var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
 	ErrInvalidArgument              = errors.New("invalid argument")
+	ErrNoPacketIdentifier           = errors.New("no unused packet identifier is available")
 )
 
 type ReasonCode byte
-- 
2.43.0


From a8e65fc2367ce9f5d146f5c30da0a65cf0629f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 27/37] fix: guard event channel bindings by the event mutex
 and close each channel once

---
 mqtt/client.go | 54 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 19268cc..d37c632 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -60,6 +60,9 @@ type Client struct {
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 
+	// openChans holds every event channel that was not closed yet, whether bound to topics or not.
+	openChans map[int]EventChannel
+
 	responseChan map[int]chan any
 
 	evChanIdCounter int
@@ -95,6 +98,7 @@ func NewClient(conn net.Conn) *Client {
 		conn:            conn,
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
+		openChans:       make(map[int]EventChannel),
 		responseChan:    make(map[int]chan any),
 		publishing:      make(map[primitives.PrimitiveUint16]struct{}),
 		evChanIdCounter: 1,
@@ -145,6 +149,7 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 
 	// Track this chan so fanout signalling can occur later
 	c.eventChans[c.evChanIdCounter] = result
+	c.openChans[c.evChanIdCounter] = result
 	c.evChanIdCounter++
 
 	return result
@@ -159,6 +164,12 @@ func (c *Client) CloseEventChannel(channel EventChannel) {
 }
 
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	// Do nothing if the channel was closed already
+	if _, ok := c.openChans[channel.id]; !ok {
+		return
+	}
+	delete(c.openChans, channel.id)
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
@@ -175,6 +186,27 @@ func (c *Client) closeEventChannelInternal(channel EventChannel) {
 	}
 }
 
+// unbindTopic removes the binding of an event channel to the topic filter. The event channel is closed along with its
+// last binding.
+func (c *Client) unbindTopic(topic string) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	channel, ok := c.topicChans[topic]
+	if !ok {
+		return
+	}
+	delete(c.topicChans, topic)
+
+	for _, other := range c.topicChans {
+		if other.id == channel.id {
+			// Still in use
+			return
+		}
+	}
+	c.closeEventChannelInternal(channel)
+}
+
 // signal signals on all event channels in a fanout fashion. This function is only meant to be called by the client
 // internally.
 func (c *Client) signal(packetType packets.PacketType, data any, channel chan<- *Event) {
@@ -537,13 +569,15 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 				// TODO: Consider session retention details here
 
 				if chanid := topics[i].channel.id; chanid != 0 {
-					// Map the event channel to the topic
-					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
-
-					// Remove this channel from the general event channel map
-					delete(c.eventChans, chanid)
-					c.mutex.Unlock()
+					// Map the event channel to the topic unless it was closed in the meantime
+					c.eventMutex.Lock()
+					if channel, ok := c.openChans[chanid]; ok {
+						c.topicChans[topics[i].Topic.Filter()] = channel
+
+						// Remove this channel from the general event channel map
+						delete(c.eventChans, chanid)
+					}
+					c.eventMutex.Unlock()
 				}
 			}
 		}
@@ -618,14 +652,10 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	// Wait for the acknowledgement
 	select {
 	case <-respChan:
-		c.mutex.Lock()
 		// Close any event channels bound to the topics
 		for _, topic := range topics {
-			if channel, ok := c.topicChans[topic]; ok {
-				c.closeEventChannelInternal(channel)
-			}
+			c.unbindTopic(topic)
 		}
-		c.mutex.Unlock()
 	}
 
 	c.mutex.Lock()
-- 
2.43.0


From a39bbd2c7dbd1d01023b6b2c2d43a8b0ba3e748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 28/37] fix: route a publish to bound and unbound event
 channels in one step, once per channel

---
 mqtt/client.go | 107 +++++++++++++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 48 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index d37c632..4b26092 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -207,43 +207,62 @@ func (c *Client) unbindTopic(topic string) {
 	c.closeEventChannelInternal(channel)
 }
 
-// signal signals on all event channels in a fanout fashion. This function is only meant to be called by the client
-// internally.
-func (c *Client) signal(packetType packets.PacketType, data any, channel chan<- *Event) {
+// signalPublish signals an incoming publish once on each event channel that is bound to a matching topic filter and on
+// all event channels that are not bound to any topic. This function is only meant to be called by the client internally.
+func (c *Client) signalPublish(publish *packets.Publish) {
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
 
 	e := &Event{
-		PacketType: packetType,
-		Data:       data,
+		PacketType: packets.PUBLISH,
+		Data:       publish,
 	}
 
-	if channel != nil {
-		// Signal this channel directly
-		select {
-		case channel <- e:
-			// Signalled
-		default:
-			// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-			//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-			//       event channels will stop receiving new events when they are full.
-			// Already has a pending event. This channel will miss the current event
-		}
-	} else {
-		// Fanout to all other channels
-		for _, channel := range c.eventChans {
-			select {
-			case channel.channel <- e:
-				// Signalled
-			default:
-				// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-				//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-				//       event channels will stop receiving new events when they are full.
-				// Already has a pending event. This channel will miss the current event
+	signalled := make(map[int]struct{})
+	for filter, channel := range c.topicChans {
+		// Does the topic match any known filter?
+		if c.matchTopic(publish.Topic.String(), filter) {
+			if _, ok := signalled[channel.id]; !ok {
+				signalled[channel.id] = struct{}{}
+				c.signalChannel(e, channel.channel)
 			}
 		}
 	}
 
+	c.fanout(e)
+}
+
+// signalChannel signals on a single event channel. The event mutex must be held.
+func (c *Client) signalChannel(e *Event, channel chan<- *Event) {
+	select {
+	case channel <- e:
+		// Signalled
+	default:
+		// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
+		//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
+		//       event channels will stop receiving new events when they are full.
+		// Already has a pending event. This channel will miss the current event
+	}
+}
+
+// signal signals on all event channels in a fanout fashion. This function is only meant to be called by the client
+// internally.
+func (c *Client) signal(packetType packets.PacketType, data any) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	c.fanout(&Event{
+		PacketType: packetType,
+		Data:       data,
+	})
+}
+
+// fanout signals on all event channels that are not bound to any topic. The event mutex must be held.
+func (c *Client) fanout(e *Event) {
+	for _, channel := range c.eventChans {
+		c.signalChannel(e, channel.channel)
+	}
+
 	// Sleep this goroutine to allow other goroutines to consume their event channels
 	time.Sleep(time.Nanosecond)
 }
@@ -353,7 +372,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.isConnected.Store(true)
 
 	// Signal CONNACK event
-	c.signal(packets.CONNACK, connack, nil)
+	c.signal(packets.CONNACK, connack)
 
 	return
 }
@@ -438,7 +457,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.setDisconnected()
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return nil
 }
@@ -491,7 +510,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	c.setDisconnected()
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return
 }
@@ -1048,15 +1067,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
-		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
-		for filter, channel := range c.topicChans {
-			// Does the topic match any known filter?
-			if c.matchTopic(publish.Topic.String(), filter) {
-				// Signal the publish on this channel
-				c.signal(packets.PUBLISH, publish, channel.channel)
-			}
-		}
-
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
 		c.mutex.RLock()
@@ -1070,7 +1080,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.RUnlock()
 
-		c.signal(packets.PUBLISH, publish, nil)
+		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
+		c.signalPublish(publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if _, err = puback.ReadFrom(c.conn); err != nil {
@@ -1091,7 +1102,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBACK, puback, nil)
+		c.signal(packets.PUBACK, puback)
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
@@ -1141,7 +1152,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBREC, pubrec, nil)
+		c.signal(packets.PUBREC, pubrec)
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
@@ -1176,7 +1187,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			c.receiveQuota++
 		}
 
-		c.signal(packets.PUBREL, pubrel, nil)
+		c.signal(packets.PUBREL, pubrel)
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
@@ -1199,7 +1210,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBCOMP, pubcomp, nil)
+		c.signal(packets.PUBCOMP, pubcomp)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
 		if _, err = suback.ReadFrom(c.conn); err != nil {
@@ -1211,7 +1222,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- suback
 		}
 
-		c.signal(packets.SUBACK, suback, nil)
+		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
 		if _, err = unsuback.ReadFrom(c.conn); err != nil {
@@ -1223,7 +1234,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- unsuback
 		}
 
-		c.signal(packets.UNSUBACK, unsuback, nil)
+		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
 		if _, err = disconnect.ReadFrom(c.conn); err != nil {
@@ -1233,13 +1244,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if err = c.conn.Close(); err != nil {
 			return
 		}
-		c.signal(packets.DISCONNECT, disconnect, nil)
+		c.signal(packets.DISCONNECT, disconnect)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
 		if _, err = auth.ReadFrom(c.conn); err != nil {
 			return
 		}
-		c.signal(packets.AUTH, auth, nil)
+		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
-- 
2.43.0


From fbfb90599647a5b20c4c989486c983a07d1d76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 29/37] fix: match SUBACK and UNSUBACK to the request they
 answer and stop waiting when the context or the connection ends

---
 mqtt/client.go | 183 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 123 insertions(+), 60 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4b26092..acffa5a 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -63,7 +63,7 @@ type Client struct {
 	// openChans holds every event channel that was not closed yet, whether bound to topics or not.
 	openChans map[int]EventChannel
 
-	responseChan map[int]chan any
+	responseChan map[int]*response
 
 	evChanIdCounter int
 	eventMutex      sync.Mutex
@@ -83,6 +83,14 @@ type Client struct {
 	closed chan struct{}
 }
 
+// response describes a request (SUBSCRIBE or UNSUBSCRIBE) that was not acknowledged yet.
+type response struct {
+	ackType packets.PacketType
+	topics  int
+	channel chan any
+	closed  chan struct{}
+}
+
 type Topic struct {
 	packets.Topic
 	channel EventChannel
@@ -99,7 +107,7 @@ func NewClient(conn net.Conn) *Client {
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		openChans:       make(map[int]EventChannel),
-		responseChan:    make(map[int]chan any),
+		responseChan:    make(map[int]*response),
 		publishing:      make(map[primitives.PrimitiveUint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
@@ -536,6 +544,10 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.isConnected.Load() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -561,56 +573,106 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		//UserProperties:         nil,
 	}
 
-	// Create channel to receive the response on
-	respChan := make(chan any, 1)
-	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
-
-	// Send the SUBSCRIBE control packet
-	if err = c.send(subscribe); err != nil {
-		c.mutex.Unlock()
+	resp, err := c.request(subscribe, subscribe.PacketIdentifier, packets.SUBACK, len(topics))
+	c.mutex.Unlock()
+	if err != nil {
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
-	select {
-	case resp := <-respChan:
-		suback := resp.(*packets.Suback)
-
-		// Check all reason codes
-		for i, code := range suback.ReasonCodes {
-			if code >= 0x80 {
-				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
-			} else {
-				// TODO: Consider session retention details here
-
-				if chanid := topics[i].channel.id; chanid != 0 {
-					// Map the event channel to the topic unless it was closed in the meantime
-					c.eventMutex.Lock()
-					if channel, ok := c.openChans[chanid]; ok {
-						c.topicChans[topics[i].Topic.Filter()] = channel
-
-						// Remove this channel from the general event channel map
-						delete(c.eventChans, chanid)
-					}
-					c.eventMutex.Unlock()
+	ack, err := c.awaitResponse(ctx, resp)
+	if err != nil {
+		return err
+	}
+
+	// Check all reason codes
+	for i, code := range ack.(*packets.Suback).ReasonCodes {
+		if code >= 0x80 {
+			// TODO: Return all failure reason codes to caller somehow
+			if err == nil {
+				err = ReasonCode(code)
+			}
+		} else {
+			// TODO: Consider session retention details here
+
+			if chanid := topics[i].channel.id; chanid != 0 {
+				// Map the event channel to the topic unless it was closed in the meantime
+				c.eventMutex.Lock()
+				if channel, ok := c.openChans[chanid]; ok {
+					c.topicChans[topics[i].Topic.Filter()] = channel
+
+					// Remove this channel from the general event channel map
+					delete(c.eventChans, chanid)
 				}
+				c.eventMutex.Unlock()
 			}
 		}
 	}
 
-	// Close the chan
-	close(respChan)
+	return
+}
+
+// request registers the request with the specified packet identifier and sends it. The client mutex must be held.
+func (c *Client) request(packet io.WriterTo, id primitives.PrimitiveUint16, ackType packets.PacketType, topics int) (*response, error) {
+	// Create channel to receive the response on
+	resp := &response{
+		ackType: ackType,
+		topics:  topics,
+		channel: make(chan any, 1),
+		closed:  c.closed,
+	}
+	c.responseChan[int(id)] = resp
+
+	if sent, err := c.trySend(packet); err != nil {
+		if !sent {
+			delete(c.responseChan, int(id))
+		}
+		return nil, err
+	}
+	return resp, nil
+}
+
+// awaitResponse waits for the acknowledgement of a request. The packet identifier of a request that is abandoned stays
+// in use until its acknowledgement arrives.
+func (c *Client) awaitResponse(ctx context.Context, resp *response) (ack any, err error) {
+	select {
+	case ack = <-resp.channel:
+		return ack, nil
+	case <-resp.closed:
+		err = ErrClientNotConnected
+	case <-ctx.Done():
+		err = ctx.Err()
+	}
+
+	// Prefer the acknowledgement if it arrived in the meantime
+	select {
+	case ack = <-resp.channel:
+		return ack, nil
+	default:
+		return nil, err
+	}
+}
 
+// respond completes the request that the acknowledgement belongs to, if there is any.
+func (c *Client) respond(id primitives.PrimitiveUint16, ackType packets.PacketType, ack any, codes []byte) error {
 	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(subscribe.PacketIdentifier))
-	c.mutex.Unlock()
+	defer c.mutex.Unlock()
 
-	return
+	resp, ok := c.responseChan[int(id)]
+	if !ok || resp.ackType != ackType {
+		return nil
+	}
+
+	// SPEC: The SUBACK (UNSUBACK) packet contains a list of Reason Codes, one for each Topic Filter of the request.
+	if len(codes) != resp.topics {
+		return packets.ErrControlPacketIsMalformed
+	}
+
+	delete(c.responseChan, int(id))
+	resp.channel <- ack
+	return nil
 }
 
 // Unsubscribe sends the UNSUBSCRIBE control packet to the server with the specified topic filters. Any event channels
@@ -621,7 +683,9 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	c.mutex.Lock()
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
 
 	if !c.isConnected.Load() {
 		return ErrClientNotConnected
@@ -644,6 +708,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+	c.mutex.Lock()
 	id, err := c.newPacketIdentifier()
 	if err != nil {
 		c.mutex.Unlock()
@@ -657,30 +722,28 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		//UserProperties:         nil,
 	}
 
-	// Create channel to receive the response on
-	respChan := make(chan any, 1)
-	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
-
-	// Send the UNSUBSCRIBE control packet
-	if err = c.send(unsubscribe); err != nil {
+	resp, err := c.request(unsubscribe, unsubscribe.PacketIdentifier, packets.UNSUBACK, len(topics))
+	c.mutex.Unlock()
+	if err != nil {
 		return err
 	}
 
-	c.mutex.Unlock()
+	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case <-respChan:
-		// Close any event channels bound to the topics
-		for _, topic := range topics {
-			c.unbindTopic(topic)
-		}
+	ack, err := c.awaitResponse(ctx, resp)
+	if err != nil {
+		return err
 	}
 
-	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(unsubscribe.PacketIdentifier))
-	c.mutex.Unlock()
+	// Close any event channels bound to the topics
+	for i, code := range ack.(*packets.Unsuback).ReasonCodes {
+		if code < 0x80 {
+			c.unbindTopic(topics[i])
+		} else if err == nil {
+			err = ReasonCode(code)
+		}
+	}
 
 	return
 }
@@ -1218,8 +1281,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
-		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
-			respChan <- suback
+		if err = c.respond(suback.PacketIdentifier, packets.SUBACK, suback, suback.ReasonCodes); err != nil {
+			return
 		}
 
 		c.signal(packets.SUBACK, suback)
@@ -1230,8 +1293,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
-		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
-			respChan <- unsuback
+		if err = c.respond(unsuback.PacketIdentifier, packets.UNSUBACK, unsuback, unsuback.ReasonCodes); err != nil {
+			return
 		}
 
 		c.signal(packets.UNSUBACK, unsuback)
-- 
2.43.0


From ff90e0c0d55adb9bf06279cf26825dcb25c6dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 30/37] fix: read inbound control packets exactly once, within
 their declared length, and notice the end of the connection

---
 mqtt/client.go | 113 +++++++++++++++++++++++++++++--------------------
 1 file changed, 68 insertions(+), 45 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index acffa5a..301cd5d 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -906,23 +906,12 @@ func (c *Client) acquireSendQuota(ctx context.Context) error {
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	puback := &packets.Puback{
 		PacketIdentifier: publish.PacketIdentifier,
 	}
@@ -944,23 +933,12 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	pubrec := &packets.Pubrec{
 		Puback: packets.Puback{
 			PacketIdentifier: publish.PacketIdentifier,
@@ -1034,13 +1012,13 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
-	c.connMutex.Lock()
-	defer c.connMutex.Unlock()
-
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
@@ -1075,29 +1053,34 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// Attempt to receive a control packet header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	if _, err = header.Header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
 		// Some other error occurred. Return it
+		c.connectionLost()
 		return
 	}
 
 	if !deadline.IsZero() {
 		// Extend I/O deadline
 		if err = c.conn.SetDeadline(time.Now().Add(time.Second * 30)); err != nil {
+			c.connectionLost()
 			return
 		}
-	} else {
-		// Unset any deadline
-		c.conn.SetDeadline(time.Time{})
+	}
+
+	// Receive the rest of the control packet header
+	if _, err = header.Remaining.ReadFrom(c.conn); err != nil {
+		c.connectionLost()
+		return
 	}
 
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
 		publish := &packets.Publish{Header: header}
-		if _, err = publish.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, publish); err != nil {
 			return
 		}
 
@@ -1121,11 +1104,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(ctx, publish); err != nil {
+			if err = c.sendPuback(publish); err != nil {
 				return err
 			}
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(ctx, publish); err != nil {
+			if err = c.sendPubrec(publish); err != nil {
 				return err
 			}
 		}
@@ -1147,7 +1130,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signalPublish(publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
-		if _, err = puback.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, puback); err != nil {
 			return err
 		}
 
@@ -1169,7 +1152,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
-		if _, err = pubrec.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, pubrec); err != nil {
 			return err
 		}
 
@@ -1219,7 +1202,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
-		if _, err = pubrel.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, pubrel); err != nil {
 			return err
 		}
 
@@ -1254,7 +1237,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
-		if _, err = pubcomp.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, pubcomp); err != nil {
 			return err
 		}
 
@@ -1276,7 +1259,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBCOMP, pubcomp)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
-		if _, err = suback.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, suback); err != nil {
 			return
 		}
 
@@ -1288,7 +1271,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
-		if _, err = unsuback.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, unsuback); err != nil {
 			return
 		}
 
@@ -1300,25 +1283,30 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
-		if _, err = disconnect.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, disconnect); err != nil {
 			return
 		}
 		// Close the connection
+		c.setDisconnected()
 		if err = c.conn.Close(); err != nil {
 			return
 		}
 		c.signal(packets.DISCONNECT, disconnect)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
-		if _, err = auth.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, auth); err != nil {
 			return
 		}
 		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
+		if header.Remaining != 0 {
+			return c.discard(header, packets.ErrControlPacketIsMalformed)
+		}
+
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 	default:
-		return ErrUnexpectedPacketTypeReceived
+		return c.discard(header, ErrUnexpectedPacketTypeReceived)
 	}
 
 	// TODO: Process control packet
@@ -1326,6 +1314,42 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	return nil
 }
 
+// receive reads the remainder of the control packet. It never reads beyond the end of the control packet and fails if
+// the control packet does not have exactly the length specified by its header.
+func (c *Client) receive(header packets.FixedHeader, packet io.ReaderFrom) (err error) {
+	body := &io.LimitedReader{R: c.conn, N: int64(header.Remaining)}
+	_, err = packet.ReadFrom(body)
+	if body.N == 0 && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)) {
+		// The control packet is longer than what the header says
+		return packets.ErrControlPacketIsMalformed
+	} else if err == nil && body.N > 0 {
+		// The control packet is shorter than what the header says
+		err = packets.ErrControlPacketIsMalformed
+	}
+
+	if err != nil {
+		// Continue with the next control packet
+		header.Remaining = primitives.VariableByteInt(body.N)
+		return c.discard(header, err)
+	}
+	return
+}
+
+// discard skips the remainder of the control packet and returns the specified error.
+func (c *Client) discard(header packets.FixedHeader, err error) error {
+	if _, copyErr := io.CopyN(io.Discard, c.conn, int64(header.Remaining)); copyErr != nil {
+		// The next control packet cannot be found
+		c.connectionLost()
+	}
+	return err
+}
+
+// connectionLost closes the network connection after a failure that makes it unusable.
+func (c *Client) connectionLost() {
+	c.setDisconnected()
+	c.conn.Close()
+}
+
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
 func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
@@ -1410,8 +1434,7 @@ func (c *Client) trySend(w io.WriterTo) (sent bool, err error) {
 	if n, err = c.conn.Write(buf.Bytes()); err != nil {
 		if n > 0 {
 			// The server received an incomplete control packet. Nothing can be sent after it.
-			c.setDisconnected()
-			c.conn.Close()
+			c.connectionLost()
 		}
 		return n > 0, err
 	}
-- 
2.43.0


From fb4532cc09ae891d29f5b489e1a926c338f088f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 31/37] fix: exceeding the Receive Maximum ends the connection
 instead of deadlocking or being acknowledged

---
 mqtt/client.go | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 301cd5d..7fc2518 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -458,38 +458,20 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.setDisconnected()
 	if err = c.conn.Close(); err != nil {
 		return
 	}
 
-	c.setDisconnected()
-
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect)
 
 	return nil
 }
 
-func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if !c.isConnected.Load() {
-		return ErrClientNotConnected
-	}
-
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
+// disconnectWithReason sends the DISCONNECT packet with the specified reason to the server and closes the network
+// connection. The connection mutex must be held.
+func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err error) {
 	disconnect := &packets.Disconnect{
 		ReasonCode: reason,
 	}
@@ -504,18 +486,17 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 
 	// Send the DISCONNECT packet to the server
 	if err = c.send(disconnect); err != nil {
+		c.connectionLost()
 		return err
 	}
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.setDisconnected()
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
-	c.setDisconnected()
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect)
@@ -1092,10 +1073,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
-			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
-				c.mutex.Unlock()
-				return err
+			err = c.disconnectWithReason(0x93)
+			c.mutex.Unlock()
+			if err == nil {
+				err = ReasonCode(0x93)
 			}
+			return err
 		} else if publish.QoS > 0 {
 			// Decrement the receive quota counter
 			c.receiveQuota--
-- 
2.43.0


From 92fc9aefd9354b7ffbdddf53ac942e70d2fd6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 32/37] fix: keep a PUBREC for open inbound QoS 2 exchanges
 only and do not deliver redelivered messages twice

---
 mqtt/client.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 7fc2518..1a61576 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -912,6 +912,22 @@ func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 	return
 }
 
+// isReceived returns true if the storage holds the PUBREC control packet of an incoming publish (QoS 2) with the packet
+// identifier that was not released by the server yet. The client mutex must be held.
+func (c *Client) isReceived(id primitives.PrimitiveUint16) bool {
+	if _, ok := c.publishing[id]; ok {
+		// The identifier belongs to a publish sent by this client
+		return false
+	}
+
+	packet, err := c.storage.Get(uint16(id))
+	if err != nil {
+		return false
+	}
+	_, ok := packet.(*packets.Pubrec)
+	return ok
+}
+
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
 func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
@@ -1098,19 +1114,31 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
+		// SPEC: Until it has received the corresponding PUBREL packet, the receiver MUST acknowledge any subsequent
+		//       PUBLISH packet with the same Packet Identifier by sending a PUBREC. It MUST NOT cause duplicate messages
+		//       to be delivered to any onward recipients in this case [MQTT-4.3.3-10].
+		c.mutex.Lock()
+		if publish.QoS == packets.QoS2 && c.storage != nil {
+			if c.isReceived(publish.PacketIdentifier) {
+				// Already delivered
+				c.mutex.Unlock()
+				return nil
+			}
+
 			pubrec := &packets.Pubrec{
 				Puback: packets.Puback{
 					PacketIdentifier: publish.PacketIdentifier,
 				},
 			}
-			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
+			err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
 		}
-		c.mutex.RUnlock()
+		c.mutex.Unlock()
 
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
 		c.signalPublish(publish)
+		if err != nil && !errors.Is(err, storage.ErrDuplicateEntry) {
+			return err
+		}
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if err = c.receive(header, puback); err != nil {
@@ -1191,7 +1219,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
-		if c.storage != nil {
+		if c.storage != nil && c.isReceived(pubrel.PacketIdentifier) {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
 				c.mutex.Unlock()
-- 
2.43.0


From 274f2982a24328b9309d66dd0587127d99f7037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 33/37] fix: guard the storage and the receive quota by the
 client mutex

---
 mqtt/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 1a61576..b36d6a6 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -118,8 +118,8 @@ func NewClient(conn net.Conn) *Client {
 // QoS 1 and QoS 2. No persistence will take place if no storage implementation is set which cause message delivery
 // retry to be effectively disabled. No storage implementation is set by default.
 func (c *Client) SetStorage(storage storage.Storage) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.storage = storage
 }
@@ -1240,9 +1240,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Increment receive quota counter
+		c.mutex.Lock()
 		if c.receiveQuota < c.clientReceiveMaximum {
 			c.receiveQuota++
 		}
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel)
 	case packets.PUBCOMP:
-- 
2.43.0


From 56349237f3f50248430dacdb8c4e9703268acd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 34/37] fix: Connect returns when its context is canceled

---
 mqtt/client.go | 67 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index b36d6a6..4829826 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -292,29 +292,20 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
-	// Send connect packet
-	if err = c.send(packet); err != nil {
-		return err
-	}
-
-	// Receive response header
-	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); err != nil {
-		return err
-	}
-
-	// Response must be CONNACK
-	if header.GetType() != packets.CONNACK {
-		return ErrUnexpectedPacketTypeReceived
-	}
-
-	// Create the Connack packet
-	connack := &packets.Connack{
-		Header: header,
-	}
-
-	// Receive the CONNACK response
-	if _, err = connack.ReadFrom(c.conn); err != nil {
+	// Interrupt the I/O below when the context is canceled
+	stop, stopped := make(chan struct{}), make(chan struct{})
+	go func() {
+		defer close(stopped)
+		select {
+		case <-ctx.Done():
+			c.conn.SetDeadline(time.Unix(1, 0))
+		case <-stop:
+		}
+	}()
+	connack, err := c.handshake(packet)
+	close(stop)
+	<-stopped
+	if err != nil {
 		return err
 	}
 
@@ -385,6 +376,36 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	return
 }
 
+// handshake sends the CONNECT packet and receives the CONNACK packet.
+func (c *Client) handshake(packet *packets.Connect) (connack *packets.Connack, err error) {
+	// Send connect packet
+	if err = c.send(packet); err != nil {
+		return nil, err
+	}
+
+	// Receive response header
+	header := packets.FixedHeader{}
+	if _, err = header.ReadFrom(c.conn); err != nil {
+		return nil, err
+	}
+
+	// Response must be CONNACK
+	if header.GetType() != packets.CONNACK {
+		return nil, ErrUnexpectedPacketTypeReceived
+	}
+
+	// Create the Connack packet
+	connack = &packets.Connack{
+		Header: header,
+	}
+
+	// Receive the CONNACK response
+	if err = c.receive(header, connack); err != nil {
+		return nil, err
+	}
+	return connack, nil
+}
+
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
-- 
2.43.0


From 281440d6c52d25f648bc85fdab017ccb3e0591f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 35/37] fix: topic filters match exactly the topics MQTT says
 they match

---
 mqtt/client.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4829826..8e36c14 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1389,6 +1389,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
 	var filterPos int
 	var topicPos int
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
+	//       beginning with a $ character [MQTT-4.7.2-1].
+	if len(topic) > 0 && topic[0] == '$' && len(filter) > 0 && (filter[0] == '#' || filter[0] == '+') {
+		return false
+	}
+
 	for filterPos < len(filter) {
 		if filter[filterPos] == '#' {
 			// Encountered multi-level wildcard.
@@ -1420,17 +1427,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
-			// The length of the filter exceeded the length of the topic. No way these can match.
-			return false
+		} else if topicPos >= len(topic) {
+			// No levels left in the topic. Only the multi-level wildcard following the last level can still match.
+			// SPEC: The multi-level wildcard represents the parent and any number of child levels.
+			return filter[filterPos:] == "/#"
 		} else if filter[filterPos] != topic[topicPos] {
 			return false
 		}
@@ -1440,7 +1443,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From 8c6047d29bdc67aec57845085f30d8077c6b3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 36/37] fix: a server keep alive of zero turns the keep alive
 off

The CONNACK's Server Keep Alive replaces the client's interval whenever it is present, also when it is zero.
---
 mqtt/client.go          | 4 ++--
 mqtt/packets/connack.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 8e36c14..8a8a0b5 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -327,12 +327,12 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	defer c.mutex.Unlock()
 
 	// Handle server keep alive specification
-	if connack.ServerKeepAlive > 0 {
+	if connack.HasServerKeepAlive {
 		// Use the keep alive interval returned by the server
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
 		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
-	} else if packet.KeepAlive > 0 {
+	} else {
 		// Use the keep alive interval defined in the CONNECT packet
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
 	}
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 9d01610..8396c68 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -36,6 +36,9 @@ type Connack struct {
 
 	SessionPresent bool
 
+	// HasServerKeepAlive is true if the ServerKeepAlive property is present. Its value can be zero.
+	HasServerKeepAlive bool
+
 	/* Properties */
 	SessionExpiryInterval   primitives.PrimitiveUint32
 	ReceiveMaximum          primitives.PrimitiveUint16
@@ -169,6 +172,7 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.ServerKeepAlive.ReadFrom(r); err != nil {
 				return 0, err
 			}
+			c.HasServerKeepAlive = true
 		case 0x1A: // Response Information
 			if count, err = c.ResponseInformation.ReadFrom(r); err != nil {
 				return 0, err
-- 
2.43.0


From c3886f821c2775033b9aa65bf564911ae66b36e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 37/37] fix: a storage that fails to look up a received publish
 makes the poll fail

A lookup error other than 'no such entry' was taken for 'not received yet'.
---
 mqtt/client.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 8a8a0b5..f1e1b58 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -935,18 +935,20 @@ func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 
 // isReceived returns true if the storage holds the PUBREC control packet of an incoming publish (QoS 2) with the packet
 // identifier that was not released by the server yet. The client mutex must be held.
-func (c *Client) isReceived(id primitives.PrimitiveUint16) bool {
+func (c *Client) isReceived(id primitives.PrimitiveUint16) (bool, error) {
 	if _, ok := c.publishing[id]; ok {
 		// The identifier belongs to a publish sent by this client
-		return false
+		return false, nil
 	}
 
 	packet, err := c.storage.Get(uint16(id))
-	if err != nil {
-		return false
+	if errors.Is(err, storage.ErrNoEntry) {
+		return false, nil
+	} else if err != nil {
+		return false, err
 	}
 	_, ok := packet.(*packets.Pubrec)
-	return ok
+	return ok, nil
 }
 
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
@@ -1140,7 +1142,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		//       to be delivered to any onward recipients in this case [MQTT-4.3.3-10].
 		c.mutex.Lock()
 		if publish.QoS == packets.QoS2 && c.storage != nil {
-			if c.isReceived(publish.PacketIdentifier) {
+			var received bool
+			if received, err = c.isReceived(publish.PacketIdentifier); received {
 				// Already delivered
 				c.mutex.Unlock()
 				return nil
@@ -1151,7 +1154,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 					PacketIdentifier: publish.PacketIdentifier,
 				},
 			}
-			err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
+			if err == nil {
+				err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
+			}
 		}
 		c.mutex.Unlock()
 
@@ -1240,9 +1245,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
-		if c.storage != nil && c.isReceived(pubrel.PacketIdentifier) {
-			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
+		if c.storage != nil {
+			var received bool
+			if received, err = c.isReceived(pubrel.PacketIdentifier); received {
+				// Discard original PUBREC control packet from persistent storage
+				err = c.storage.Drop(pubrel.PacketIdentifier.Value())
+			}
+			if err != nil && !errors.Is(err, storage.ErrNoEntry) {
 				c.mutex.Unlock()
 				return err
 			}
-- 
2.43.0

