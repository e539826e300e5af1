From 850a4bf4c91764cd7ea51f9278d22970ed0bbc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:45 +0000
Subject: [PATCH 01/35] fix: reject a frame whose content is a single byte
 instead of panicking

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7743151..336da64 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -71,7 +71,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 		return errors.ErrInvalidMessage
 	}
 	data = data[1 : len(data)-1]
-	if len(data) == 0 {
+	if len(data) < 2 {
 		return errors.ErrInvalidMessage
 	}
 
-- 
2.43.0


From 6bca65925ac257cd67739d31e8095a66b8893d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:45 +0000
Subject: [PATCH 02/35] fix: a body of 65536 bytes or more no longer passes for
 a short one

---
 protocol/message.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 336da64..5a37cfe 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -45,6 +45,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 
 	// 编码消息头
 	message.Header.MsgID = message.Body.MsgID()
+	if len(body) > 0x3ff {
+		return nil, errors.ErrBodyTooLong
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
@@ -140,7 +143,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
-	if uint16(len(buffer)) != header.Property.GetBodySize() {
+	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
 			"expect": header.Property.GetBodySize(),
-- 
2.43.0


From 6106186b1e4a667eac5753afcd6f8598e70a610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:45 +0000
Subject: [PATCH 03/35] fix: encode a message without body instead of panicking

---
 protocol/message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 5a37cfe..1eba033 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -44,7 +44,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	checkSum, count = message.computeChecksum(body, checkSum, count)
 
 	// 编码消息头
-	message.Header.MsgID = message.Body.MsgID()
+	if message.Body != nil {
+		message.Header.MsgID = message.Body.MsgID()
+	}
 	if len(body) > 0x3ff {
 		return nil, errors.ErrBodyTooLong
 	}
-- 
2.43.0


From 6c306693019c0606ae9ffb59f3473957ae8fad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:56 +0000
Subject: [PATCH 04/35] fix: keep leading zeros when decoding BCD times and the
 terminal number

Terminal number 0, the years 2000 to 2009 and CAN receive times before
01:00 could be encoded but not decoded.
---
 protocol/header.go  | 2 +-
 protocol/helpers.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/header.go b/protocol/header.go
index 692d3f4..1b0ba56 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -71,7 +71,7 @@ func (header *Header) Decode(data []byte) error {
 	if err != nil {
 		return errors.ErrInvalidHeader
 	}
-	iccID, err := strconv.ParseUint(bcdToString(temp), 10, 64)
+	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
 	if err != nil {
 		return err
 	}
diff --git a/protocol/helpers.go b/protocol/helpers.go
index 2c463f1..a40a733 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -90,7 +90,7 @@ func stringToBCD(s string, size ...int) []byte {
 
 // BCD转字符串
 func bcdToString(data []byte, ignorePadding ...bool) string {
-	for {
+	for len(ignorePadding) == 0 || !ignorePadding[0] {
 		if len(data) == 0 {
 			return ""
 		}
@@ -129,7 +129,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	t, err := time.ParseInLocation(
-		"20060102150405", "20"+bcdToString(bcd), time.Local)
+		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From 5ab4a0899e43e5436e48c13eabbc3c7e52c7f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:06 +0000
Subject: [PATCH 05/35] fix: a decoded location extra keeps its data, so that
 it can be encoded again

---
 protocol/extra/0x01.go | 1 +
 protocol/extra/0x02.go | 1 +
 protocol/extra/0x03.go | 1 +
 protocol/extra/0x04.go | 1 +
 protocol/extra/0x11.go | 2 ++
 protocol/extra/0x12.go | 1 +
 protocol/extra/0x13.go | 1 +
 protocol/extra/0x25.go | 1 +
 protocol/extra/0x2a.go | 1 +
 protocol/extra/0x2b.go | 1 +
 protocol/extra/0x30.go | 1 +
 protocol/extra/0x31.go | 1 +
 12 files changed, 13 insertions(+)

diff --git a/protocol/extra/0x01.go b/protocol/extra/0x01.go
index fd4922b..f4921fc 100644
--- a/protocol/extra/0x01.go
+++ b/protocol/extra/0x01.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x01) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x02.go b/protocol/extra/0x02.go
index 479c464..9702b2c 100644
--- a/protocol/extra/0x02.go
+++ b/protocol/extra/0x02.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x02) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x03.go b/protocol/extra/0x03.go
index d1d862e..8cc30f4 100644
--- a/protocol/extra/0x03.go
+++ b/protocol/extra/0x03.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x03) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x04.go b/protocol/extra/0x04.go
index 219fe5b..c3123be 100644
--- a/protocol/extra/0x04.go
+++ b/protocol/extra/0x04.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x04) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x11.go b/protocol/extra/0x11.go
index 9b8cb9d..6361e0d 100644
--- a/protocol/extra/0x11.go
+++ b/protocol/extra/0x11.go
@@ -52,6 +52,7 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	extra.value.AreaID = nil
 	extra.value.Type = data[0]
 	if extra.value.Type == 0 {
+		extra.serialized = append([]byte(nil), data[:1]...)
 		return 1, nil
 	}
 
@@ -60,5 +61,6 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	}
 	areaID := binary.BigEndian.Uint32(data[1:])
 	extra.value.AreaID = &areaID
+	extra.serialized = append([]byte(nil), data[:5]...)
 	return 5, nil
 }
diff --git a/protocol/extra/0x12.go b/protocol/extra/0x12.go
index fd823d7..23a8b95 100644
--- a/protocol/extra/0x12.go
+++ b/protocol/extra/0x12.go
@@ -56,5 +56,6 @@ func (extra *Extra_0x12) Decode(data []byte) (int, error) {
 	extra.value.Type = data[0]
 	extra.value.AreaID = binary.BigEndian.Uint32(data[1:5])
 	extra.value.Direction = data[5]
+	extra.serialized = append([]byte(nil), data[:6]...)
 	return 6, nil
 }
diff --git a/protocol/extra/0x13.go b/protocol/extra/0x13.go
index 507ddd8..39d8a8c 100644
--- a/protocol/extra/0x13.go
+++ b/protocol/extra/0x13.go
@@ -57,5 +57,6 @@ func (extra *Extra_0x13) Decode(data []byte) (int, error) {
 	extra.value.RoadID = binary.BigEndian.Uint32(data[:4])
 	extra.value.Duration = binary.BigEndian.Uint16(data[4:6])
 	extra.value.Result = data[6]
+	extra.serialized = append([]byte(nil), data[:7]...)
 	return 7, nil
 }
diff --git a/protocol/extra/0x25.go b/protocol/extra/0x25.go
index ff53a52..2b85477 100644
--- a/protocol/extra/0x25.go
+++ b/protocol/extra/0x25.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x25) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x2a.go b/protocol/extra/0x2a.go
index c7fd0c1..345010f 100644
--- a/protocol/extra/0x2a.go
+++ b/protocol/extra/0x2a.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2A) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x2b.go b/protocol/extra/0x2b.go
index 1b49621..6c56444 100644
--- a/protocol/extra/0x2b.go
+++ b/protocol/extra/0x2b.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2B) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x30.go b/protocol/extra/0x30.go
index cfdd4f5..56122e9 100644
--- a/protocol/extra/0x30.go
+++ b/protocol/extra/0x30.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x30) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
diff --git a/protocol/extra/0x31.go b/protocol/extra/0x31.go
index d43f67c..2bc0187 100644
--- a/protocol/extra/0x31.go
+++ b/protocol/extra/0x31.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x31) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
-- 
2.43.0


From 9b5a772760f142c84e9224b192f966e3022747a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:30 +0000
Subject: [PATCH 06/35] fix: accept the empty lists that encoding produces
 (0x0104, 0x8103, 0x8600, 0x8602, 0x8604)

---
 protocol/t808_0x0104.go | 2 +-
 protocol/t808_0x8103.go | 2 +-
 protocol/t808_0x8600.go | 2 +-
 protocol/t808_0x8602.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index edad69e..bcc3aa8 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -36,7 +36,7 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0104) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 308671c..a7802b9 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -31,7 +31,7 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8103) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index dbe09e3..9f460b6 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -148,7 +148,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8600) Decode(data []byte) (int, error) {
-	if len(data) < 20 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a6daa5..9a0bd30 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -113,7 +113,7 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8602) Decode(data []byte) (int, error) {
-	if len(data) < 24 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 80400f5..109a040 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -94,7 +94,7 @@ func (entity *T808_0x8604) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8604) Decode(data []byte) (int, error) {
-	if len(data) < 16 {
+	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
-- 
2.43.0


From 1dd58b28ffe1d717b7222d80cd2b141d54e89c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:48 +0000
Subject: [PATCH 07/35] fix: refuse lists and texts too long for their one-byte
 count or length field

The count or length wrapped silently and the frame decoded to something else.
---
 protocol/bufio.go       |  9 +++++++++
 protocol/t808_0x0104.go |  8 ++++++--
 protocol/t808_0x0107.go |  8 ++++++--
 protocol/t808_0x0200.go |  3 +++
 protocol/t808_0x0702.go |  8 ++++++--
 protocol/t808_0x8003.go |  4 +++-
 protocol/t808_0x8103.go |  8 ++++++--
 protocol/t808_0x8106.go |  4 +++-
 protocol/t808_0x8108.go |  4 +++-
 protocol/t808_0x8301.go |  8 ++++++--
 protocol/t808_0x8302.go |  8 ++++++--
 protocol/t808_0x8303.go |  4 +++-
 protocol/t808_0x8401.go | 12 +++++++++---
 protocol/t808_0x8600.go |  4 +++-
 protocol/t808_0x8601.go |  4 +++-
 protocol/t808_0x8602.go |  4 +++-
 protocol/t808_0x8603.go |  4 +++-
 protocol/t808_0x8605.go |  4 +++-
 protocol/t808_0x8607.go |  4 +++-
 protocol/t808_0x8800.go |  4 +++-
 20 files changed, 90 insertions(+), 26 deletions(-)

diff --git a/protocol/bufio.go b/protocol/bufio.go
index 8c93161..d4d7247 100644
--- a/protocol/bufio.go
+++ b/protocol/bufio.go
@@ -45,6 +45,15 @@ func (writer *Writer) WriteByte(b byte) *Writer {
 	return writer
 }
 
+// 写入单字节的长度或数量
+func (writer *Writer) WriteSize(n int) error {
+	if n > 0xff {
+		return ErrBodyTooLong
+	}
+	writer.WriteByte(byte(n))
+	return nil
+}
+
 func (writer *Writer) WriteUint16(n uint16) *Writer {
 	var buf [2]byte
 	binary.BigEndian.PutUint16(buf[:], n)
diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index bcc3aa8..c349272 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -19,7 +19,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.ReplyMsgSerialNo)
 
 	// 写入参数个数
-	writer.WriteByte(byte(len(entity.Params)))
+	if err := writer.WriteSize(len(entity.Params)); err != nil {
+		return nil, err
+	}
 
 	// 写入参数列表
 	for _, param := range entity.Params {
@@ -27,7 +29,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
-		writer.WriteByte(byte(len(param.serialized)))
+		if err := writer.WriteSize(len(param.serialized)); err != nil {
+			return nil, err
+		}
 
 		// 写入参数数据
 		writer.Write(param.serialized)
diff --git a/protocol/t808_0x0107.go b/protocol/t808_0x0107.go
index 93a1e0d..b489431 100644
--- a/protocol/t808_0x0107.go
+++ b/protocol/t808_0x0107.go
@@ -52,12 +52,16 @@ func (entity *T808_0x0107) Encode() ([]byte, error) {
 
 	// 写入终端硬件版本
 	hardwareVersion := []byte(entity.HardwareVersion)
-	writer.WriteByte(byte(len(hardwareVersion)))
+	if err := writer.WriteSize(len(hardwareVersion)); err != nil {
+		return nil, err
+	}
 	writer.Write(hardwareVersion)
 
 	// 写入终端固件版本号
 	softwareVersion := []byte(entity.SoftwareVersion)
-	writer.WriteByte(byte(len(softwareVersion)))
+	if err := writer.WriteSize(len(softwareVersion)); err != nil {
+		return nil, err
+	}
 	writer.Write(softwareVersion)
 
 	// 写入GNSS模块属性
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 0b8d433..b78355f 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -146,6 +146,9 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 			continue
 		}
 		data := ext.Data()
+		if len(data) > 0xff {
+			return nil, errors.ErrInvalidExtraLength
+		}
 		full := make([]byte, len(data)+2)
 		full[0], full[1] = ext.ID(), byte(len(data))
 		copy(full[2:], data)
diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 2c0de10..94e9e85 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -57,7 +57,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	writer.WriteByte(byte(len(driverName)))
+	if err := writer.WriteSize(len(driverName)); err != nil {
+		return nil, err
+	}
 	writer.Write(driverName)
 
 	// 写入从业资格编码
@@ -76,7 +78,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	writer.WriteByte(byte(len(companyName)))
+	if err := writer.WriteSize(len(companyName)); err != nil {
+		return nil, err
+	}
 	writer.Write(companyName)
 
 	// 写入证件有效期
diff --git a/protocol/t808_0x8003.go b/protocol/t808_0x8003.go
index 0255a2a..1985a02 100644
--- a/protocol/t808_0x8003.go
+++ b/protocol/t808_0x8003.go
@@ -19,7 +19,9 @@ func (entity *T808_0x8003) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.MsgSerialNo)
 
 	// 写入重传包总数
-	writer.WriteByte(byte(len(entity.PacketIDs)))
+	if err := writer.WriteSize(len(entity.PacketIDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入重传包 ID 列表
 	for _, id := range entity.PacketIDs {
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index a7802b9..e9f1266 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -14,7 +14,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入参数数量
-	writer.WriteByte(byte(len(entity.Params)))
+	if err := writer.WriteSize(len(entity.Params)); err != nil {
+		return nil, err
+	}
 
 	// 写入参数列表
 	for _, param := range entity.Params {
@@ -22,7 +24,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
-		writer.WriteByte(byte(len(param.serialized)))
+		if err := writer.WriteSize(len(param.serialized)); err != nil {
+			return nil, err
+		}
 
 		// 写入参数数据
 		writer.Write(param.serialized)
diff --git a/protocol/t808_0x8106.go b/protocol/t808_0x8106.go
index 4d434fe..93a5d12 100644
--- a/protocol/t808_0x8106.go
+++ b/protocol/t808_0x8106.go
@@ -12,7 +12,9 @@ func (entity *T808_0x8106) MsgID() MsgID {
 
 func (entity *T808_0x8106) Encode() ([]byte, error) {
 	writer := NewWriter()
-	writer.WriteByte(byte(len(entity.Params)))
+	if err := writer.WriteSize(len(entity.Params)); err != nil {
+		return nil, err
+	}
 	for _, param := range entity.Params {
 		writer.WriteUint32(param)
 	}
diff --git a/protocol/t808_0x8108.go b/protocol/t808_0x8108.go
index 0c0a489..dc847a6 100644
--- a/protocol/t808_0x8108.go
+++ b/protocol/t808_0x8108.go
@@ -44,7 +44,9 @@ func (entity *T808_0x8108) Encode() ([]byte, error) {
 	}
 
 	// 写入版本长度
-	writer.WriteByte(byte(len(version)))
+	if err := writer.WriteSize(len(version)); err != nil {
+		return nil, err
+	}
 
 	// 写入版本信息
 	writer.Write(version)
diff --git a/protocol/t808_0x8301.go b/protocol/t808_0x8301.go
index db45e19..e9d5d51 100644
--- a/protocol/t808_0x8301.go
+++ b/protocol/t808_0x8301.go
@@ -34,7 +34,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 	writer.WriteByte(entity.Type)
 
 	// 写入事件数量
-	writer.WriteByte(byte(len(entity.Events)))
+	if err := writer.WriteSize(len(entity.Events)); err != nil {
+		return nil, err
+	}
 
 	// 写入事件列表
 	for _, event := range entity.Events {
@@ -48,7 +50,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(content)))
+		if err := writer.WriteSize(len(content)); err != nil {
+			return nil, err
+		}
 
 		// 写入事件内容
 		writer.Write(content)
diff --git a/protocol/t808_0x8302.go b/protocol/t808_0x8302.go
index ed47e2a..e252b75 100644
--- a/protocol/t808_0x8302.go
+++ b/protocol/t808_0x8302.go
@@ -42,7 +42,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	writer.WriteByte(byte(len(question)))
+	if err := writer.WriteSize(len(question)); err != nil {
+		return nil, err
+	}
 
 	// 写入问题内容
 	writer.Write(question)
@@ -59,7 +61,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(content)))
+		if err := writer.WriteSize(len(content)); err != nil {
+			return nil, err
+		}
 
 		// 写入答案内容
 		writer.Write(content)
diff --git a/protocol/t808_0x8303.go b/protocol/t808_0x8303.go
index b378e50..2a3b1a5 100644
--- a/protocol/t808_0x8303.go
+++ b/protocol/t808_0x8303.go
@@ -46,7 +46,9 @@ func (entity *T808_0x8303) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入信息项总数
-	writer.WriteByte(byte(len(entity.Items)))
+	if err := writer.WriteSize(len(entity.Items)); err != nil {
+		return nil, err
+	}
 
 	// 写入信息项列表
 	for _, item := range entity.Items {
diff --git a/protocol/t808_0x8401.go b/protocol/t808_0x8401.go
index a1f72b9..4d8918a 100644
--- a/protocol/t808_0x8401.go
+++ b/protocol/t808_0x8401.go
@@ -62,7 +62,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入联系人总数
-	writer.WriteByte(byte(len(entity.Contacts)))
+	if err := writer.WriteSize(len(entity.Contacts)); err != nil {
+		return nil, err
+	}
 
 	// 写入联系人列表
 	for _, contact := range entity.Contacts {
@@ -76,7 +78,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(number)))
+		if err := writer.WriteSize(len(number)); err != nil {
+			return nil, err
+		}
 
 		// 写入电话号码
 		writer.Write(number)
@@ -88,7 +92,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(contact)))
+		if err := writer.WriteSize(len(contact)); err != nil {
+			return nil, err
+		}
 
 		// 写入联系人
 		writer.Write(contact)
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index 9f460b6..6e65ffd 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -95,7 +95,9 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Action))
 
 	// 写入区域总数
-	writer.WriteByte(byte(len(entity.Items)))
+	if err := writer.WriteSize(len(entity.Items)); err != nil {
+		return nil, err
+	}
 
 	// 写入区域信息
 	for idx := range entity.Items {
diff --git a/protocol/t808_0x8601.go b/protocol/t808_0x8601.go
index ea023ee..258b483 100644
--- a/protocol/t808_0x8601.go
+++ b/protocol/t808_0x8601.go
@@ -14,7 +14,9 @@ func (entity *T808_0x8601) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入ID总数
-	writer.WriteByte(byte(len(entity.IDs)))
+	if err := writer.WriteSize(len(entity.IDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入ID列表
 	for _, id := range entity.IDs {
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a0bd30..d4a653e 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -49,7 +49,9 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Action))
 
 	// 写入区域总数
-	writer.WriteByte(byte(len(entity.Items)))
+	if err := writer.WriteSize(len(entity.Items)); err != nil {
+		return nil, err
+	}
 
 	// 写入区域信息
 	for idx := range entity.Items {
diff --git a/protocol/t808_0x8603.go b/protocol/t808_0x8603.go
index b109af1..77c6b51 100644
--- a/protocol/t808_0x8603.go
+++ b/protocol/t808_0x8603.go
@@ -14,7 +14,9 @@ func (entity *T808_0x8603) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入ID总数
-	writer.WriteByte(byte(len(entity.IDs)))
+	if err := writer.WriteSize(len(entity.IDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入ID列表
 	for _, id := range entity.IDs {
diff --git a/protocol/t808_0x8605.go b/protocol/t808_0x8605.go
index 78498ac..8b370e8 100644
--- a/protocol/t808_0x8605.go
+++ b/protocol/t808_0x8605.go
@@ -14,7 +14,9 @@ func (entity *T808_0x8605) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入ID总数
-	writer.WriteByte(byte(len(entity.IDs)))
+	if err := writer.WriteSize(len(entity.IDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入ID列表
 	for _, id := range entity.IDs {
diff --git a/protocol/t808_0x8607.go b/protocol/t808_0x8607.go
index 4e61506..9dc333c 100644
--- a/protocol/t808_0x8607.go
+++ b/protocol/t808_0x8607.go
@@ -14,7 +14,9 @@ func (entity *T808_0x8607) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入路线数
-	writer.WriteByte(byte(len(entity.IDs)))
+	if err := writer.WriteSize(len(entity.IDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入路线ID列表
 	for _, id := range entity.IDs {
diff --git a/protocol/t808_0x8800.go b/protocol/t808_0x8800.go
index 6a5f5de..3e5e3c1 100644
--- a/protocol/t808_0x8800.go
+++ b/protocol/t808_0x8800.go
@@ -23,7 +23,9 @@ func (entity *T808_0x8800) Encode() ([]byte, error) {
 	}
 
 	// 写入重传消息数
-	writer.WriteByte(byte(len(entity.RetryIDs)))
+	if err := writer.WriteSize(len(entity.RetryIDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入重传消息ID
 	for _, id := range entity.RetryIDs {
-- 
2.43.0


From 9d1916095ce3eae6f7c9102607cf859515df8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 08/35] fix: report corrupt compressed data (0x0901) instead of
 delivering a part of it

---
 protocol/t808_0x0901.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 81dd7e6..4648008 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -63,7 +63,7 @@ func (entity *T808_0x0901) Decode(data []byte) (int, error) {
 	for {
 		n, err := gzipReader.Read(temp[:])
 		if err != nil && err != io.EOF {
-			break
+			return 0, err
 		}
 
 		if n > 0 {
-- 
2.43.0


From f2a37d4c5623529bbcb3a3e7c0808b40db8f7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 09/35] fix: refuse a public key too small for OAEP instead of
 panicking

The key comes from the terminal (0x0A00).
---
 protocol/helpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index a40a733..1dc03b4 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -13,7 +13,11 @@ import (
 // 使用RSA-OAEP加密
 func EncryptOAEP(hash hash.Hash, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
 	buffer := bytes.NewBuffer(nil)
-	chunks := bytesSplit(msg, pub.Size()-2*hash.Size()-2)
+	limit := pub.Size() - 2*hash.Size() - 2
+	if limit <= 0 {
+		return nil, rsa.ErrMessageTooLong
+	}
+	chunks := bytesSplit(msg, limit)
 	for _, chunk := range chunks {
 		ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pub, chunk, label)
 		if err != nil {
-- 
2.43.0


From 0e7020e3cd05557dad07bd66e8e9b3a1e8dbe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 10/35] fix: do not allocate for an item count that the peer
 merely claims

---
 protocol/t808_0x0704.go | 2 +-
 protocol/t808_0x0705.go | 2 +-
 protocol/t808_0x0802.go | 2 +-
 protocol/t808_0x0805.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0704.go b/protocol/t808_0x0704.go
index 91f1a05..aca03b2 100644
--- a/protocol/t808_0x0704.go
+++ b/protocol/t808_0x0704.go
@@ -53,7 +53,7 @@ func (entity *T808_0x0704) Decode(data []byte) (int, error) {
 	}
 
 	// 写入位置汇报数据项
-	entity.Items = make([]T808_0x0200, 0, count)
+	entity.Items = make([]T808_0x0200, 0)
 	for i := 0; i < int(count); i++ {
 		size, err := reader.ReadUint16()
 		if err != nil {
diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 0bea529..26f713d 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -85,7 +85,7 @@ func (entity *T808_0x0705) Decode(data []byte) (int, error) {
 		time.Duration(millisecond)*time.Millisecond
 
 	// 读取CAN总线数据项
-	entity.Items = make([]T808_0x0705_CAN, 0, count)
+	entity.Items = make([]T808_0x0705_CAN, 0)
 	for i := 0; i < int(count); i++ {
 		id, err := reader.Read(4)
 		if err != nil {
diff --git a/protocol/t808_0x0802.go b/protocol/t808_0x0802.go
index 3e53cb6..29aa721 100644
--- a/protocol/t808_0x0802.go
+++ b/protocol/t808_0x0802.go
@@ -81,7 +81,7 @@ func (entity *T808_0x0802) Decode(data []byte) (int, error) {
 	}
 
 	// 读取多媒体检索项
-	entity.Items = make([]T808_0x0802_Item, 0, count)
+	entity.Items = make([]T808_0x0802_Item, 0)
 	for i := 0; i < int(count); i++ {
 		var item T808_0x0802_Item
 
diff --git a/protocol/t808_0x0805.go b/protocol/t808_0x0805.go
index 4543f99..223f85d 100644
--- a/protocol/t808_0x0805.go
+++ b/protocol/t808_0x0805.go
@@ -73,7 +73,7 @@ func (entity *T808_0x0805) Decode(data []byte) (int, error) {
 	}
 
 	// 读取媒体ID列表
-	entity.MediaIDs = make([]uint32, 0, count)
+	entity.MediaIDs = make([]uint32, 0)
 	for i := 0; i < int(count); i++ {
 		id, err := reader.ReadUint32()
 		if err != nil {
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 109a040..e9f9954 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -145,7 +145,7 @@ func (entity *T808_0x8604) Decode(data []byte) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	entity.Vertexes = make([]Vertex, 0, int(vertexes))
+	entity.Vertexes = make([]Vertex, 0)
 
 	// 读取顶点列表
 	for j := 0; j < int(vertexes); j++ {
-- 
2.43.0


From 995214cbef444020d325290240bbf25c99ffb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 11/35] fix: refuse a header that cannot be represented

A terminal number of more than 12 digits was cut, and a fragment flag
without fragment info panicked.
---
 protocol/header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/header.go b/protocol/header.go
index 1b0ba56..1fdda52 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -34,6 +34,9 @@ func (header *Header) Encode() ([]byte, error) {
 	writer.WriteUint16(uint16(header.Property))
 
 	// 写入终端号码
+	if header.IccID > 999999999999 {
+		return nil, errors.ErrInvalidHeader
+	}
 	writer.Write(stringToBCD(strconv.FormatUint(header.IccID, 10), 6))
 
 	// 写入消息流水号
@@ -41,6 +44,9 @@ func (header *Header) Encode() ([]byte, error) {
 
 	// 写入分包信息
 	if header.Property.IsEnablePacket() {
+		if header.Packet == nil {
+			return nil, errors.ErrInvalidHeader
+		}
 		writer.WriteUint16(header.Packet.Sum)
 		writer.WriteUint16(header.Packet.Seq)
 	}
-- 
2.43.0


From 6cbee2b57b2f17c0e5c602697d0967a2d324f044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 12/35] fix: accept registered message and extra types that are
 not pointers

reflect.Value.IsNil panics on them, which took down the server.
---
 protocol/message.go     | 2 +-
 protocol/t808_0x0200.go | 2 +-
 session_handler.go      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/message.go b/protocol/message.go
index 1eba033..e7d1f8c 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -23,7 +23,7 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	var err error
 	var body []byte
 	checkSum := byte(0x00)
-	if message.Body != nil && !reflect.ValueOf(message.Body).IsNil() {
+	if v := reflect.ValueOf(message.Body); message.Body != nil && (v.Kind() != reflect.Ptr || !v.IsNil()) {
 		body, err = message.Body.Encode()
 		if err != nil {
 			return nil, err
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index b78355f..59ce4af 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -142,7 +142,7 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 	// 写入附加信息
 	for i := 0; i < len(entity.Extras); i++ {
 		ext := entity.Extras[i]
-		if ext == nil || reflect.ValueOf(ext).IsNil() {
+		if v := reflect.ValueOf(ext); ext == nil || v.Kind() == reflect.Ptr && v.IsNil() {
 			continue
 		}
 		data := ext.Data()
diff --git a/session_handler.go b/session_handler.go
index 9161c84..0597572 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -41,7 +41,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		// 分发消息
 		message := msg.(protocol.Message)
-		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
+		if v := reflect.ValueOf(message.Body); message.Body == nil || v.Kind() == reflect.Ptr && v.IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
 		}
-- 
2.43.0


From 3ade5e2aea92f3e5bf7e5ef1ae9bb1b4a7c2a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:22 +0000
Subject: [PATCH 13/35] fix: re-arming a countdown key is atomic

Concurrent updates of one key left an element in the queue that could not
be removed any more and fired although the key was disarmed.
---
 timer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/timer.go b/timer.go
index b815b81..7c0f997 100644
--- a/timer.go
+++ b/timer.go
@@ -85,14 +85,14 @@ func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
 
 // 更新时间
 func (timer *CountdownTimer) Update(key string) {
+	timer.mutex.Lock()
+	defer timer.mutex.Unlock()
+	timer.remove(key)
+
 	e := element{
 		Key:    key,
 		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
 	}
-	timer.Remove(key)
-
-	timer.mutex.Lock()
-	defer timer.mutex.Unlock()
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
 }
@@ -101,7 +101,10 @@ func (timer *CountdownTimer) Update(key string) {
 func (timer *CountdownTimer) Remove(key string) {
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	timer.remove(key)
+}
 
+func (timer *CountdownTimer) remove(key string) {
 	element, ok := timer.mapper[key]
 	if !ok {
 		return
-- 
2.43.0


From 6c5fc46e45a85305b33b99fb837d9944ccae8ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:22 +0000
Subject: [PATCH 14/35] fix: data race on the public key of a session

---
 protocol.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 27305fb..31c2f74 100644
--- a/protocol.go
+++ b/protocol.go
@@ -10,6 +10,7 @@ import (
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"sync"
 )
 
 type Protocol struct {
@@ -33,6 +34,7 @@ type ProtocolCodec struct {
 	w               io.Writer
 	r               io.Reader
 	closer          io.Closer
+	keyMutex        sync.RWMutex
 	publicKey       *rsa.PublicKey
 	privateKey      *rsa.PrivateKey
 	bufferReceiving *bytes.Buffer
@@ -40,11 +42,15 @@ type ProtocolCodec struct {
 
 // 获取RSA公钥
 func (codec *ProtocolCodec) GetPublicKey() *rsa.PublicKey {
+	codec.keyMutex.RLock()
+	defer codec.keyMutex.RUnlock()
 	return codec.publicKey
 }
 
 // 设置RSA公钥
 func (codec *ProtocolCodec) SetPublicKey(publicKey *rsa.PublicKey) {
+	codec.keyMutex.Lock()
+	defer codec.keyMutex.Unlock()
 	codec.publicKey = publicKey
 }
 
@@ -68,10 +74,11 @@ func (codec *ProtocolCodec) Send(msg interface{}) error {
 
 	var err error
 	var data []byte
-	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
+	publicKey := codec.GetPublicKey()
+	if publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
 		data, err = message.Encode()
 	} else {
-		data, err = message.Encode(codec.publicKey)
+		data, err = message.Encode(publicKey)
 	}
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From c10a6dcf6686ea8bb5c498e3d59ae0118b10521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:23 +0000
Subject: [PATCH 15/35] fix: running and stopping a server concurrently

Run and Stop accessed the running server without synchronisation; Stop
during Run could also make Run dereference nil.
---
 server.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index c2d58eb..4be50d1 100644
--- a/server.go
+++ b/server.go
@@ -60,14 +60,25 @@ func NewServer(options Options) (*Server, error) {
 
 // 运行服务
 func (server *Server) Run(network string, port int) error {
+	s, err := server.listen(network, port)
+	if err != nil {
+		return err
+	}
+	return s.Serve()
+}
+
+// 开始监听
+func (server *Server) listen(network string, port int) (*link.Server, error) {
+	server.mutex.Lock()
+	defer server.mutex.Unlock()
 	if server.server != nil {
-		return errors.New("server already running")
+		return nil, errors.New("server already running")
 	}
 
 	address := fmt.Sprintf("0.0.0.0:%d", port)
 	listen, err := net.Listen(network, address)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	p := Protocol{
@@ -75,15 +86,24 @@ func (server *Server) Run(network string, port int) error {
 	}
 	server.server = link.NewServer(listen, &p, 24, server.handler)
 	log.Infof("[JT/T 808] protocol server started on %s", address)
-	return server.server.Serve()
+	return server.server, nil
 }
 
 // 停止服务
 func (server *Server) Stop() {
-	if server.server != nil {
-		server.server.Stop()
+	server.mutex.Lock()
+	s := server.server
+	server.mutex.Unlock()
+	if s == nil {
+		return
+	}
+	s.Stop()
+
+	server.mutex.Lock()
+	if server.server == s {
 		server.server = nil
 	}
+	server.mutex.Unlock()
 }
 
 // 获取Session
-- 
2.43.0


From 69b7859a3ba9e13530e24f28607ad41dc2419a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:24 +0000
Subject: [PATCH 16/35] fix: replacing the type of a built-in answer message no
 longer crashes the server

---
 session.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/session.go b/session.go
index 0cf29a1..f678397 100644
--- a/session.go
+++ b/session.go
@@ -149,31 +149,31 @@ func (session *Session) message(message *protocol.Message) {
 	}
 
 	var msgSerialNo uint16
-	switch message.Header.MsgID {
-	case protocol.MsgT808_0x0001:
+	switch body := message.Body.(type) {
+	case *protocol.T808_0x0001:
 		// 终端通用应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0104:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0104:
 		// 查询终端参数应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0104).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0201:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0201:
 		// 位置信息查询应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0201).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0302:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0302:
 		// 提问应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0302).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0500:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0500:
 		// 车辆控制应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0500).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0700:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0700:
 		// 行驶记录数据上传
-		msgSerialNo = message.Body.(*protocol.T808_0x0700).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0802:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0802:
 		// 存储多媒体数据检索应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0802).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0805:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0805:
 		// 摄像头立即拍摄命令应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0805).ReplyMsgSerialNo
+		msgSerialNo = body.ReplyMsgSerialNo
 	}
 	if msgSerialNo == 0 {
 		return
-- 
2.43.0


From 105d7c9bef41cff06c978c99f0a546790ab31434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:02 +0000
Subject: [PATCH 17/35] fix: encode a message when it is sent, not later in the
 send loop

A message that cannot be encoded was reported as sent and then closed the
session, changes to the entity after Send went out, and a broadcast encoded
the shared entity concurrently in all send loops.
---
 server.go  |  7 ++++++-
 session.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index 4be50d1..8119cbe 100644
--- a/server.go
+++ b/server.go
@@ -124,6 +124,11 @@ func (server *Server) GetPrivateKey() *rsa.PrivateKey {
 
 // 广播消息
 func (server *Server) Broadcast(entity protocol.Entity) int {
+	body, err := encodeEntity(entity)
+	if err != nil {
+		return 0
+	}
+
 	server.mutex.Lock()
 	sessions := make([]*Session, 0, len(server.sessions))
 	for _, session := range server.sessions {
@@ -133,7 +138,7 @@ func (server *Server) Broadcast(entity protocol.Entity) int {
 
 	count := 0
 	for _, session := range sessions {
-		if _, err := session.Send(entity); err == nil {
+		if _, err := session.send(body); err == nil {
 			count++
 		}
 	}
diff --git a/session.go b/session.go
index f678397..ea6d55f 100644
--- a/session.go
+++ b/session.go
@@ -5,6 +5,7 @@ import (
 	"gitee.com/coco/go808/protocol"
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
+	"reflect"
 	"runtime/debug"
 	"sync"
 	"sync/atomic"
@@ -17,6 +18,42 @@ type requestContext struct {
 	callback func(answer *protocol.Message)
 }
 
+// 已编码的消息实体
+type encodedEntity struct {
+	msgID protocol.MsgID
+	data  []byte
+}
+
+func (entity *encodedEntity) MsgID() protocol.MsgID {
+	return entity.msgID
+}
+
+func (entity *encodedEntity) Encode() ([]byte, error) {
+	return entity.data, nil
+}
+
+func (entity *encodedEntity) Decode(data []byte) (int, error) {
+	return 0, protocol.ErrMethodNotImplemented
+}
+
+// 编码消息实体
+func encodeEntity(entity protocol.Entity) (*encodedEntity, error) {
+	body := &encodedEntity{msgID: entity.MsgID()}
+	if v := reflect.ValueOf(entity); v.Kind() == reflect.Ptr && v.IsNil() {
+		return body, nil
+	}
+
+	data, err := entity.Encode()
+	if err != nil {
+		return nil, err
+	}
+	if len(data) > 0x3ff {
+		return nil, protocol.ErrBodyTooLong
+	}
+	body.data = append(body.data, data...)
+	return body, nil
+}
+
 // 终端会话
 type Session struct {
 	next    uint32
@@ -68,10 +105,19 @@ func (session *Session) SetPublicKey(publicKey *rsa.PublicKey) {
 
 // 发送消息
 func (session *Session) Send(entity protocol.Entity) (uint16, error) {
+	body, err := encodeEntity(entity)
+	if err != nil {
+		return 0, err
+	}
+	return session.send(body)
+}
+
+// 发送已编码的消息
+func (session *Session) send(body *encodedEntity) (uint16, error) {
 	message := protocol.Message{
-		Body: entity,
+		Body: body,
 		Header: protocol.Header{
-			MsgID:       entity.MsgID(),
+			MsgID:       body.MsgID(),
 			IccID:       atomic.LoadUint64(&session.iccID),
 			MsgSerialNo: session.nextID(),
 		},
-- 
2.43.0


From 3875e6638eee476eae60cad1adb2e1a328ca1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:03 +0000
Subject: [PATCH 18/35] fix: an answer always reaches the callback of its own
 request

The request was registered after it had been sent, so that a fast answer was
lost, and it stayed registered when its serial number was used again, so that
it received the answer to another message. Serial numbers are now also taken
in the order in which the messages are sent.
---
 server.go  |  2 +-
 session.go | 37 +++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/server.go b/server.go
index 8119cbe..2a8bb5c 100644
--- a/server.go
+++ b/server.go
@@ -138,7 +138,7 @@ func (server *Server) Broadcast(entity protocol.Entity) int {
 
 	count := 0
 	for _, session := range sessions {
-		if _, err := session.send(body); err == nil {
+		if _, err := session.send(body, nil); err == nil {
 			count++
 		}
 	}
diff --git a/session.go b/session.go
index ea6d55f..58b9eff 100644
--- a/session.go
+++ b/session.go
@@ -109,11 +109,14 @@ func (session *Session) Send(entity protocol.Entity) (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return session.send(body)
+	return session.send(body, nil)
 }
 
 // 发送已编码的消息
-func (session *Session) send(body *encodedEntity) (uint16, error) {
+func (session *Session) send(body *encodedEntity, cb func(answer *protocol.Message)) (uint16, error) {
+	session.mux.Lock()
+	defer session.mux.Unlock()
+
 	message := protocol.Message{
 		Body: body,
 		Header: protocol.Header{
@@ -127,6 +130,16 @@ func (session *Session) send(body *encodedEntity) (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
+
+	// 流水号循环使用，丢弃同一流水号的旧请求
+	session.takeRequestContext(message.Header.MsgSerialNo)
+	if cb != nil {
+		session.addRequestContext(requestContext{
+			msgID:    uint16(body.MsgID()),
+			serialNo: message.Header.MsgSerialNo,
+			callback: cb,
+		})
+	}
 	return message.Header.MsgSerialNo, nil
 }
 
@@ -142,19 +155,11 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
-	serialNo, err := session.Send(entity)
+	body, err := encodeEntity(entity)
 	if err != nil {
 		return 0, err
 	}
-
-	if cb != nil {
-		session.addRequestContext(requestContext{
-			msgID:    uint16(entity.MsgID()),
-			serialNo: serialNo,
-			callback: cb,
-		})
-	}
-	return serialNo, nil
+	return session.send(body, cb)
 }
 
 // 关闭连接
@@ -225,7 +230,9 @@ func (session *Session) message(message *protocol.Message) {
 		return
 	}
 
+	session.mux.Lock()
 	ctx, ok := session.takeRequestContext(msgSerialNo)
+	session.mux.Unlock()
 	if ok {
 		defer func() {
 			if err := recover(); err != nil {
@@ -238,9 +245,6 @@ func (session *Session) message(message *protocol.Message) {
 
 // 添加请求上下文
 func (session *Session) addRequestContext(ctx requestContext) {
-	session.mux.Lock()
-	defer session.mux.Unlock()
-
 	for idx, item := range session.requests {
 		if item.msgID == ctx.msgID {
 			session.requests[idx] = ctx
@@ -252,9 +256,6 @@ func (session *Session) addRequestContext(ctx requestContext) {
 
 // 取出请求上下文
 func (session *Session) takeRequestContext(msgSerialNo uint16) (requestContext, bool) {
-	session.mux.Lock()
-	defer session.mux.Unlock()
-
 	for idx, item := range session.requests {
 		if item.serialNo == msgSerialNo {
 			session.requests[idx] = session.requests[len(session.requests)-1]
-- 
2.43.0


From 87b195baf44164888cd3770495e4fb94ac21ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:03 +0000
Subject: [PATCH 19/35] fix: replies to unsupported messages and fragments
 carry the terminal's number

The number was recorded only when a message was dispatched, after those
replies had been sent.
---
 session.go         | 7 +++++--
 session_handler.go | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/session.go b/session.go
index 58b9eff..6dd9596 100644
--- a/session.go
+++ b/session.go
@@ -185,8 +185,8 @@ func (session *Session) nextID() uint16 {
 	return uint16(id)
 }
 
-// 消息接收事件
-func (session *Session) message(message *protocol.Message) {
+// 更新终端号码
+func (session *Session) updateIccID(message *protocol.Message) {
 	if message.Header.IccID > 0 {
 		old := atomic.LoadUint64(&session.iccID)
 		if old != 0 && old != message.Header.IccID {
@@ -198,7 +198,10 @@ func (session *Session) message(message *protocol.Message) {
 		}
 		atomic.StoreUint64(&session.iccID, message.Header.IccID)
 	}
+}
 
+// 消息接收事件
+func (session *Session) message(message *protocol.Message) {
 	var msgSerialNo uint16
 	switch body := message.Body.(type) {
 	case *protocol.T808_0x0001:
diff --git a/session_handler.go b/session_handler.go
index 0597572..375084f 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -41,6 +41,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		// 分发消息
 		message := msg.(protocol.Message)
+		session.updateIccID(&message)
 		if v := reflect.ValueOf(message.Body); message.Body == nil || v.Kind() == reflect.Ptr && v.IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
-- 
2.43.0


From cd3b599843fd04a41e0b34273879ed8da6833ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:04 +0000
Subject: [PATCH 20/35] fix: every received message keeps its session alive

Messages without handler, unsupported messages and fragments did not count,
so that an active terminal was disconnected.
---
 server.go          | 1 -
 session_handler.go | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 2a8bb5c..e0ff8f6 100644
--- a/server.go
+++ b/server.go
@@ -212,6 +212,5 @@ func (server *Server) dispatchMessage(session *Session, message *protocol.Messag
 			debug.PrintStack()
 		}
 	}()
-	server.timer.Update(strconv.FormatUint(session.ID(), 10))
 	handler.(MessageHandler)(session, message)
 }
diff --git a/session_handler.go b/session_handler.go
index 375084f..2577b51 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -41,6 +41,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		// 分发消息
 		message := msg.(protocol.Message)
+		handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
 		session.updateIccID(&message)
 		if v := reflect.ValueOf(message.Body); message.Body == nil || v.Kind() == reflect.Ptr && v.IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
-- 
2.43.0


From ad299ff7aa4aa3e414a1fe41d764d42c17b31252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:05 +0000
Subject: [PATCH 21/35] fix: a session closed right after accept is reported
 and forgotten

Its close callback was never called, so that it stayed registered forever.
---
 session_handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index 2577b51..9fcc82c 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"reflect"
 	"strconv"
+	"sync"
 )
 
 // Session处理
@@ -27,15 +28,21 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 	handler.server.sessions[sess.ID()] = session
 	handler.server.mutex.Unlock()
 	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
-	sess.AddCloseCallback(nil, nil, func() {
-		handler.server.handleClose(session)
-	})
+	var once sync.Once
+	handleClose := func() {
+		once.Do(func() {
+			handler.server.handleClose(session)
+		})
+	}
+	sess.AddCloseCallback(nil, nil, handleClose)
 
 	for {
 		// 接收消息
 		msg, err := sess.Receive()
 		if err != nil {
+			// 会话可能在添加回调之前已关闭
 			sess.Close()
+			handleClose()
 			break
 		}
 
-- 
2.43.0


From a11823ee63ebde13965f29a9f7b39162f152ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:38 +0000
Subject: [PATCH 22/35] fix: create the fragment directory so that an
 unprivileged process can use it

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 654713a..b73e936 100644
--- a/multipart.go
+++ b/multipart.go
@@ -96,7 +96,7 @@ func (m MultipartFile) rootDir() string {
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
 	dir := m.rootDir()
-	if err := os.MkdirAll(dir, 0644); err != nil {
+	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
 	}
 	sep := filepath.Separator
-- 
2.43.0


From 97745978041e5f8cefa62c5ce16e0cae86068101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:38 +0000
Subject: [PATCH 23/35] fix: querying or merging an upload of an unknown
 terminal no longer panics

---
 multipart.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multipart.go b/multipart.go
index b73e936..5032b9d 100644
--- a/multipart.go
+++ b/multipart.go
@@ -109,6 +109,9 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 	dir := m.rootDir()
 	id := strconv.Itoa(int(m.MsgID))
 	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
-- 
2.43.0


From 5008ca3ee9b3d096c9f2794cb9248a4e34269aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:39 +0000
Subject: [PATCH 24/35] fix: refuse fragments numbered outside 1..N and merging
 an incomplete upload

Such fragments were acknowledged and became part of the merged upload.
---
 errors/errors.go |  4 ++++
 multipart.go     | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index e969207..0e2fa6b 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -25,4 +25,8 @@ var (
 	ErrInvalidExtraLength = errors.New("invalid extra length")
 	// 消息解密失败
 	ErrDecryptMessageFailed = errors.New("decrypt message failed")
+	// 无效分包序号
+	ErrInvalidPacketSeq = errors.New("invalid packet sequence number")
+	// 分包不完整
+	ErrPacketIncomplete = errors.New("packet parts incomplete")
 )
diff --git a/multipart.go b/multipart.go
index 5032b9d..8018510 100644
--- a/multipart.go
+++ b/multipart.go
@@ -2,6 +2,7 @@ package go808
 
 import (
 	"fmt"
+	"gitee.com/coco/go808/errors"
 	"gitee.com/coco/go808/protocol"
 	"io"
 	"io/ioutil"
@@ -44,7 +45,7 @@ func (m MultipartFile) IsFull() bool {
 		delete(set, seq)
 		return nil
 	})
-	return len(set) == 0
+	return m.Sum > 0 && len(set) == 0
 }
 
 // 合并文件
@@ -68,6 +69,9 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	if err != nil {
 		return nil, err
 	}
+	if m.Sum == 0 || len(inputs) != int(m.Sum) {
+		return nil, errors.ErrPacketIncomplete
+	}
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
@@ -95,6 +99,10 @@ func (m MultipartFile) rootDir() string {
 
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
+	if seq == 0 || seq > m.Sum {
+		return errors.ErrInvalidPacketSeq
+	}
+
 	dir := m.rootDir()
 	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
-- 
2.43.0


From c0abce6df5a7c89eba46e27c275a69d02a02b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:40 +0000
Subject: [PATCH 25/35] fix: merging an upload no longer includes what an
 earlier one left behind

The result kept the tail of a longer earlier result, and the parts stayed,
so that a later upload with the same id was complete too early.
---
 multipart.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 8018510..2778528 100644
--- a/multipart.go
+++ b/multipart.go
@@ -75,7 +75,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
-	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
+	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
@@ -87,6 +87,13 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 			return nil, err
 		}
 	}
+
+	// 已合并的分包不再属于下一次上传
+	for _, part := range inputs {
+		if err = os.Remove(part.path); err != nil {
+			return nil, err
+		}
+	}
 	return os.OpenFile(full, os.O_RDONLY, 0644)
 }
 
-- 
2.43.0


From 769c3b97dd0cbbefd920d54b00f502dd76123730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:41 +0000
Subject: [PATCH 26/35] fix: parts of an abandoned upload with another part
 count are not mixed in

---
 multipart.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multipart.go b/multipart.go
index 2778528..e2c01b7 100644
--- a/multipart.go
+++ b/multipart.go
@@ -115,7 +115,7 @@ func (m MultipartFile) Write(seq uint16, data []byte) error {
 		return err
 	}
 	sep := filepath.Separator
-	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
+	name := fmt.Sprintf("%s%c%d-%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, m.Sum, seq)
 	return ioutil.WriteFile(name, data, 0644)
 }
 
@@ -136,7 +136,7 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 		}
 
 		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
-		if len(slice) != 3 || slice[0] != id {
+		if len(slice) != 4 || slice[0] != id {
 			return nil
 		}
 
@@ -145,7 +145,12 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 			return nil
 		}
 
-		seq, _ := strconv.Atoi(slice[2])
+		sum, _ := strconv.Atoi(slice[2])
+		if sum != int(m.Sum) {
+			return nil
+		}
+
+		seq, _ := strconv.Atoi(slice[3])
 		return walkFn(path, uint16(seq))
 	})
 }
-- 
2.43.0


From 2f1b4d0fb6dec9d5395b56fc6110579bde226bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:41 +0000
Subject: [PATCH 27/35] fix: deliver a fragmented upload as soon as it is
 complete

It was delivered only if the last fragment arrived last.
---
 session_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session_handler.go b/session_handler.go
index 9fcc82c..5186027 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -100,7 +100,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
-		if message.Header.Packet.Seq != message.Header.Packet.Sum || !multipartFile.IsFull() {
+		if !multipartFile.IsFull() {
 			continue
 		}
 
-- 
2.43.0


From c81a7abad092e030439a4af45bbd9623fadb5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:02 +0000
Subject: [PATCH 28/35] fix: merge an upload without opening all of its parts
 at once

An upload of more parts than the limit of open files could not be merged.
---
 multipart.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/multipart.go b/multipart.go
index e2c01b7..d05622b 100644
--- a/multipart.go
+++ b/multipart.go
@@ -15,11 +15,21 @@ import (
 
 // 分包文件
 type partFile struct {
-	f    *os.File
 	seq  uint16
 	path string
 }
 
+// 复制分包内容
+func (p partFile) copyTo(w io.Writer) error {
+	f, err := os.OpenFile(p.path, os.O_RDONLY, 0644)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	_, err = io.Copy(w, f)
+	return err
+}
+
 type partFileSlice []partFile
 
 func (p partFileSlice) Len() int           { return len(p) }
@@ -52,20 +62,9 @@ func (m MultipartFile) IsFull() bool {
 func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	inputs := make(partFileSlice, 0)
 	err := m.walkParts(func(path string, seq uint16) error {
-		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
-		if err != nil {
-			return err
-		}
-		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
+		inputs = append(inputs, partFile{seq: seq, path: path})
 		return nil
 	})
-
-	defer func() {
-		for _, item := range inputs {
-			item.f.Close()
-		}
-	}()
-
 	if err != nil {
 		return nil, err
 	}
@@ -83,7 +82,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sort.Sort(inputs)
 	for _, part := range inputs {
-		if _, err = io.Copy(w, part.f); err != nil {
+		if err = part.copyTo(w); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 43d63064ac46c4160a221882f5d9eb478c3a1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:36 +0000
Subject: [PATCH 29/35] fix: connections of one terminal may upload at the same
 time

---
 server.go          | 3 +++
 session_handler.go | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/server.go b/server.go
index e0ff8f6..112f7c0 100644
--- a/server.go
+++ b/server.go
@@ -31,6 +31,9 @@ type Server struct {
 	mutex    sync.Mutex
 	sessions map[uint64]*Session
 
+	// 分包的写入与合并，同一终端可能有多个连接
+	packetMutex sync.Mutex
+
 	closeHandler    func(*Session)
 	messageHandlers sync.Map
 }
diff --git a/session_handler.go b/session_handler.go
index 5186027..da4ee7f 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -87,7 +87,9 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			continue
 		}
 
+		handler.server.packetMutex.Lock()
 		err = multipartFile.Write(message.Header.Packet.Seq, buf)
+		handler.server.packetMutex.Unlock()
 		if err != nil {
 			log.WithFields(log.Fields{
 				"iccid":  message.Header.IccID,
@@ -100,11 +102,14 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
+		handler.server.packetMutex.Lock()
 		if !multipartFile.IsFull() {
+			handler.server.packetMutex.Unlock()
 			continue
 		}
 
 		reader, err := multipartFile.Merge()
+		handler.server.packetMutex.Unlock()
 		if err != nil {
 			log.WithFields(log.Fields{
 				"iccid":  message.Header.IccID,
-- 
2.43.0


From 544f47d3a5a6f21cece0b39a296f5d8e0677825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:11 +0000
Subject: [PATCH 30/35] fix: never send a plain body marked as encrypted

---
 errors/errors.go    | 2 ++
 protocol/message.go | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/errors/errors.go b/errors/errors.go
index 0e2fa6b..7d9e920 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -23,6 +23,8 @@ var (
 	ErrTypeNotRegistered = errors.New("entity not registered")
 	// 附加信息长度错误
 	ErrInvalidExtraLength = errors.New("invalid extra length")
+	// 消息加密失败
+	ErrEncryptMessageFailed = errors.New("encrypt message failed")
 	// 消息解密失败
 	ErrDecryptMessageFailed = errors.New("decrypt message failed")
 	// 无效分包序号
diff --git a/protocol/message.go b/protocol/message.go
index e7d1f8c..07b2ffe 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -39,6 +39,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 				}).Warn("[JT/T808] encrypt body failed")
 				return nil, err
 			}
+		} else if message.Header.Property.IsEnableEncrypt() && len(body) > 0 {
+			// 没有公钥时不能把明文标记为密文
+			return nil, errors.ErrEncryptMessageFailed
 		}
 	}
 	checkSum, count = message.computeChecksum(body, checkSum, count)
-- 
2.43.0


From 199104371ce358abd2a19851b86a4f2f0412b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 31/35] fix: reject a frame that ends in an unfinished escape
 sequence

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 07b2ffe..91f9135 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -86,6 +86,9 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	// 获取校验和
 	sum := data[len(data)-1]
 	if data[len(data)-2] != EscapeByte {
+		if sum == EscapeByte {
+			return errors.ErrInvalidMessage
+		}
 		data = data[:len(data)-1]
 	} else {
 		if (data[len(data)-1]) == EscapeByteSufix1 {
-- 
2.43.0


From a5403bbf2f25b620cce991aed258cf2ba5b14784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 32/35] fix: a message decoded into again does not keep the
 previous body

---
 protocol/message.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/message.go b/protocol/message.go
index 91f9135..a3f37d8 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -151,6 +151,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
+	message.Body = nil
 	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
-- 
2.43.0


From 8bd784b2d1986f1b5b19109956b4877a362053f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:17 +0000
Subject: [PATCH 33/35] fix: a merged upload that is still being read is not
 overwritten by the next one

---
 multipart.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multipart.go b/multipart.go
index d05622b..e7c60c7 100644
--- a/multipart.go
+++ b/multipart.go
@@ -74,6 +74,10 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
+	// 之前合并的内容可能仍在被读取，不能覆盖原文件
+	if err = os.Remove(full); err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
 	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fd5bad064b6e0111b2b3da6181303434c139c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 34/35] fix: a part whose writing failed or was interrupted
 counted as received

---
 multipart.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index e7c60c7..d08591a 100644
--- a/multipart.go
+++ b/multipart.go
@@ -119,7 +119,17 @@ func (m MultipartFile) Write(seq uint16, data []byte) error {
 	}
 	sep := filepath.Separator
 	name := fmt.Sprintf("%s%c%d-%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, m.Sum, seq)
-	return ioutil.WriteFile(name, data, 0644)
+
+	// 先写入临时文件，写入失败或中断时不影响已有分包
+	temp := name + ".tmp"
+	err := ioutil.WriteFile(temp, data, 0644)
+	if err == nil {
+		err = os.Rename(temp, name)
+	}
+	if err != nil {
+		os.Remove(temp)
+	}
+	return err
 }
 
 // 遍历分包文件
-- 
2.43.0


From a4df897a01410fd6532508c13d18251d89a3ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:13 +0000
Subject: [PATCH 35/35] fix: a countdown period too long to be added to the
 current time expired at once

---
 timer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timer.go b/timer.go
index 7c0f997..577f885 100644
--- a/timer.go
+++ b/timer.go
@@ -2,6 +2,7 @@ package go808
 
 import (
 	"container/heap"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -89,9 +90,15 @@ func (timer *CountdownTimer) Update(key string) {
 	defer timer.mutex.Unlock()
 	timer.remove(key)
 
+	now := time.Now().Unix()
+	expire := now + atomic.LoadInt64(&timer.seconds)
+	if expire < now {
+		// 时间过长，永不过期
+		expire = math.MaxInt64
+	}
 	e := element{
 		Key:    key,
-		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
+		Expire: expire,
 	}
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
-- 
2.43.0

