From 89c5fa7b25dc854bebdd46ea9f9c4e7b081e0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 01/26] fix: wrap PES timestamps modulo 2^33

Timestamps above 33 bits were reduced by 2^33-1 and came out one tick off.
---
 container/ts/table/pes.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..11d228e 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -65,9 +65,8 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 // 33位时间戳编码成40位时间戳
 func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
+	// 时间戳共33位, 超出则回绕
+	ts &= 0x1ffffffff
 
 	var u33 [5]byte
 
-- 
2.43.0


From 339f8e02210dee2e3d845237120da7eacbc2b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 02/26] fix: mark PES timestamps with the prefixes of ISO/IEC
 13818-1

With both timestamps present the PTS carried the prefix of a lone PTS and
the DTS that of a PTS followed by a DTS.
---
 container/ts/table/pes.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 11d228e..22e46ad 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -37,15 +37,20 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 		return 0
 	}
 
-	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
-	copy(pe.PesHeader[9:], ptsB5[:])
-	if mt == packet.PktVideo && pts != dts {
+	// pts和dts不同时, 两者均需要写入
+	hasDts := mt == packet.PktVideo && pts != dts
+	if hasDts {
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
+	}
+
+	// pts, 前缀为'0010'(仅有pts)或'0011'(同时有dts)
+	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
+	copy(pe.PesHeader[9:], ptsB5[:])
 
-		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+	// dts, 前缀为'0001'
+	if hasDts {
+		dtsB5 := pe.encodeTs(0x40, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
 
-- 
2.43.0


From 9adb894e699fc2c45ed19d4aca0310f122ba7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 03/26] fix: do not stuff a key frame packet that is already
 full

A key frame whose PES packet is 176 to 183 bytes long does not fit behind
the PCR; the number of stuffing bytes wrapped around and Mux panicked.
---
 container/ts/muxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..9c0317b 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -121,7 +121,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From 967f1bdd9af869a95b1768b0f8cc9215bb98bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 04/26] fix: convert millisecond timestamps without 32-bit
 overflow

The multiplication by 90 wrapped around after 13 hours.
---
 container/ts/mixer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..29b64fb 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -167,11 +167,11 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		m.pts = m.dts + int64(avcTs)*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From c00e43b74dd64b091bfa2b5e718e776f4ad66ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 05/26] fix: read the FLV composition time as a signed 24-bit
 value

---
 container/flv/tag.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..dee5012 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -131,9 +131,8 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		tag.media.avcType = b[1]
 
 		// [3:5] 时间戳
-		for i := 2; i < 5; i++ {
-			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
-		}
+		// SI24, 带符号
+		tag.media.compositionTime = int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8
 		n += 4
 	}
 
-- 
2.43.0


From 9c50748af73e10cf6cd56d0c92867bb38e313269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 06/26] fix: forget the previous tag when a Tag parses another
 header

---
 container/flv/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index dee5012..4c1ce9f 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -234,6 +234,9 @@ func (tag *Tag) CompositionTime() int32 {
 
 // ParseMediaTagHeader [音视频]解析视频, 音频中的头部数据, 将数据填充到 Tag.mediat; b是Tag Data
 func (tag *Tag) ParseMediaTagHeader(b []byte, mediaType int) (int, error) {
+	// 清除上一次解析的结果
+	tag.media = mediaTag{}
+
 	// 根据媒体类型做不同解析，这里是解析器封装，错误直接透传
 	switch mediaType {
 	case packet.PktVideo:
-- 
2.43.0


From ebde0f43cab2617c1c5355ec13af5d436d8b8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 07/26] fix: keep the AAC configuration when a new one is
 refused

---
 parser/aac/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..98fb369 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,19 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
-	// 填充数据
-	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
-	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
+	sampleRateIndex := ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
 
 	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
+	if sampleRateIndex == 0xf {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// 填充数据
+	p.gotSpecific = true
+	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.sampleRateIndex = sampleRateIndex /* [0:3]音频采样率索引值 */
+	p.cfgInfo.channel = (src[1] >> 3) & 0x0f    /* [0:3]音频输出声道 */
+
 	return nil
 }
 
-- 
2.43.0


From 4ee34b3ab39ae633a9e16f3efc1095c8c8bb2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 08/26] fix: replace the H.264 parameter sets with those of the
 latest sequence header

---
 parser/h264/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..15a5f5f 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -85,10 +85,10 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete pps data")
 	}
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:(3+seq.ppsLen)]...)
 
 	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
+	p.specificInfo = append(p.specificInfo[:0], sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
 
 	return nil
-- 
2.43.0


From ad2abaf8cb76a8dcf7950db49473ce8ab0981a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 09/26] fix: report the default AAC sample rate until a
 configuration is known

---
 parser/aac/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 98fb369..18994e4 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -45,7 +45,7 @@ func (p *Parser) Parse(b []byte, types uint8, w io.Writer) error {
 func (p *Parser) SampleRate() int {
 	rate := 44100
 
-	if int(p.cfgInfo.sampleRateIndex) < len(aacRates) {
+	if p.gotSpecific && int(p.cfgInfo.sampleRateIndex) < len(aacRates) {
 		rate = aacRates[p.cfgInfo.sampleRateIndex]
 	}
 
-- 
2.43.0


From f8beaec690cfe86c3e3a7335814d74501829250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 10/26] fix: hold at most 1024 packets in a group of pictures

---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From 96eed828a0ca4cfdcd01add043f557d7bfb69b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 11/26] fix: read AMF strings and byte arrays in full however
 the reader splits them

---
 amf/amf3.go   | 6 ++----
 amf/helper.go | 6 +-----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..091191a 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -437,8 +437,7 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 	}
 
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -478,8 +477,7 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 	}
 
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..5bbeab6 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -63,15 +63,11 @@ func readByte(r io.Reader) (byte, error) {
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
 	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
+	_, err := io.ReadFull(r, bytes)
 	if err != nil {
 		return bytes, err
 	}
 
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
-	}
-
 	return bytes, nil
 }
 
-- 
2.43.0


From 8c908526fa0cda1b2ac16149a9abc532e9629e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 12/26] fix: refuse an AMF0 reference just past the table

---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..4dccb4f 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -182,7 +182,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From ffc3f204c7b77c84efcf0874a3a53545cec74eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 13/26] fix: write AMF0 dates without a number marker

---
 amf/amf0.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 4dccb4f..bcb22a0 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -605,12 +605,11 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
-- 
2.43.0


From b1836252ef21bca77a0d9001bfd4a31132cc94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 14/26] fix: refuse AMF0 keys and type names that do not fit
 their length field

---
 amf/amf0.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index bcb22a0..9dfcc67 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -491,6 +491,10 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 	var n int
 	var err error
 
+	if len(val) > 65535 {
+		return 0, fmt.Errorf("string is too long(expected <= 65535, got %d)", len(val))
+	}
+
 	if encodeMarker {
 		err = writeByte(w, stringMarkerOnAMF0)
 		if err != nil {
-- 
2.43.0


From 5ad2d99a0f002e84fa55e0da23e9d96feaf41f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 15/26] fix: report the write error of AMF3 switches and XML
 documents

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 9dfcc67..dd6f2f2 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -357,7 +357,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -372,7 +372,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From c3681b822ac6841cb809350b599c66f03b3be4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 16/26] fix: encode negative AMF3 integers as doubles

---
 amf/amf3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 091191a..658c565 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -565,13 +565,13 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
+		if v.Int() >= 0 && v.Int() <= 536870911 {
 			return ed.encodeInteger(w, uint32(v.Int()))
 		}
 
 		return ed.encodeDouble(w, float64(v.Int()))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
-		if v.Uint() < 536870911 {
+		if v.Uint() <= 536870911 {
 			return ed.encodeInteger(w, uint32(v.Uint()))
 		}
 
-- 
2.43.0


From 3400e4dc85fee09d2c02aa762d5b4c137d1f8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 17/26] fix: recognise externalizable and dynamic AMF3 objects

---
 amf/amf3.go          | 4 ++--
 amf/amf3_external.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 658c565..d4ca02a 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -299,10 +299,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From 82a97b90a5eff4d0431169db9109d2a2458ca4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 18/26] fix: remove exactly the encoded metadata header

---
 amf/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..5abfd16 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,7 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From 984bbbf5d76f6f369245c13ce6d5894747042d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 19/26] fix: report a stream that ends inside an AMF value

---
 amf/amf0.go | 13 +++++++++++++
 amf/amf3.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index dd6f2f2..e4c59e7 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -49,6 +49,19 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	v, err := ed.decodeValue(marker, r)
+	if err == io.EOF {
+		// 数据在值的中间结束
+		err = io.ErrUnexpectedEOF
+	}
+
+	return v, err
+}
+
+// decodeValue 解析marker之后的数据
+func (ed *EnDecAMF0) decodeValue(marker byte, r io.Reader) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
diff --git a/amf/amf3.go b/amf/amf3.go
index d4ca02a..39e7b6c 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -76,6 +76,19 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	v, err := ed.decodeValue(marker, r)
+	if err == io.EOF {
+		// 数据在值的中间结束
+		err = io.ErrUnexpectedEOF
+	}
+
+	return v, err
+}
+
+// decodeValue 解析marker之后的数据
+func (ed *EnDecAMF3) decodeValue(marker byte, r io.Reader) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
-- 
2.43.0


From fc1e3107d67157536ded0b111c09ba02b7ecbe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 20/26] fix: refuse an empty key in an AMF0 object, which is
 its end marker

---
 amf/amf0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index e4c59e7..37366dd 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -546,6 +546,11 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 
 	var m = 0
 	for k, v := range val {
+		// 空字符串是结束符, 不能作为key
+		if k == "" {
+			return 0, fmt.Errorf("empty object key")
+		}
+
 		// 数组key
 		m, err = ed.encodeString(w, k, false)
 		if err != nil {
-- 
2.43.0


From b672ac7adffe2a52e24b27e39ce39c576b49dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 21/26] fix: add the metadata header in the encoding of the
 data

---
 amf/metadata.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 5abfd16..44ecbbf 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -17,6 +17,9 @@ const (
 // setFrameFrame AMF的"SetDataFrame"指令对应的AMF编码
 var setFrameFrame []byte
 
+// setFrameFrameOnAMF3 AMF的"SetDataFrame"指令对应的AMF3编码
+var setFrameFrameOnAMF3 []byte
+
 func init() {
 	w := bytes.NewBuffer(nil)
 
@@ -28,6 +31,17 @@ func init() {
 
 	// SetDataFrame对应的AMF0编码
 	setFrameFrame = w.Bytes()
+
+	w = bytes.NewBuffer(nil)
+
+	// 将"SetDataFrame"指令所对应的数据封装成AMF3格式, 写到w中
+	_, err = NewEnDecAMF3().Encode(w, SetDataFrame)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	// SetDataFrame对应的AMF3编码
+	setFrameFrameOnAMF3 = w.Bytes()
 }
 
 // AddMetaHeader 在字节序列前加入metadata的头, 用于rtmp传输
@@ -47,10 +61,15 @@ func AddMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv != SetDataFrame {
-		tmpLen := len(setFrameFrame)
+		// 头与数据使用同一种编码
+		header := setFrameFrame
+		if _, isAMF3 := d.(*EnDecAMF3); isAMF3 {
+			header = setFrameFrameOnAMF3
+		}
+		tmpLen := len(header)
 
 		b := make([]byte, tmpLen+len(p))
-		copy(b, setFrameFrame)
+		copy(b, header)
 		copy(b[tmpLen:], p)
 
 		p = b
-- 
2.43.0


From 51d12d9fa87bc166f20db008f355e71bbea9c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 22/26] fix: keep the saved metadata when new metadata cannot
 be encoded

---
 container/flv/mixer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..9c89901 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,13 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	m.cache.metadata.Reset()
+
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
-- 
2.43.0


From 4a0d9e91028bc45ac083850b2587be7bcd0c917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 23/26] fix: accept an empty or half-quoted SIP argument value

---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..74f9beb 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From 6c7955c0e1d049803bfb9c79c770a48f9abda704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 24/26] fix: ignore a SIP continuation line without a header

---
 sips/sips.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..497c3f6 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -200,8 +200,14 @@ func (s *SIP) ParseHeader(header []byte) {
 	// multiline headers must begin by SP or TAB
 	if header[0] == '\t' || header[0] == ' ' {
 
+		// Ignore a following line without a header in front of it
+		last := s.Headers[s.lastHeaderParsed]
+		if len(last) == 0 {
+			return
+		}
+
 		header = bytes.TrimSpace(header)
-		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
+		last[len(last)-1] += fmt.Sprintf(" %s", string(header))
 		return
 	}
 
-- 
2.43.0


From 0efec8ea893ac88430ada502309f90ea3e97ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 25/26] fix: read exactly Content-Length bytes as the SIP body

---
 sips/sips.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 497c3f6..3f7df63 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -65,7 +65,7 @@ func (s *SIP) fillHeader() {
 	s.Via = s.Headers.GetSIPVia()
 }
 
-func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
+func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 
 	var body []byte
 
@@ -73,12 +73,14 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	size -= supplement
 
 	for size > 0 {
 
-		// read one block
+		// read one block, but nothing behind the body
 		buf := make([]byte, 4*1024)
+		if size < len(buf) {
+			buf = buf[:size]
+		}
 
 		n, err := r.Read(buf)
 		if err != nil {
@@ -160,7 +162,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	// header fields and body.  Any Content-Length greater than or equal to
 	// zero is a valid value.  If no body is present in a message, then the
 	// Content-Length header field value MUST be set to zero.
-	body, err := s.fillBody(r, len(buffer)-offset)
+	body, err := s.fillBody(r)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 493a792d93afb012f73ee6fd00bb8549eece4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 26/26] fix: find SIP headers under their compact names

---
 sips/header.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..ae49961 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -49,15 +49,13 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 // the specified name.
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
-	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
-	return h
+	return make([]string, 0)
 }
 
 // GetFirstHeader will return the first header with
@@ -65,12 +63,11 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName][0]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact][0]
 	}
 	return ""
 }
-- 
2.43.0

