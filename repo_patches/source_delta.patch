From 7fdd00fafda28b7652c1eb55c426fac18ba70fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 01/75] fix: encode the length of a double as 8 octets

---
 encoding/appdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..e71395e 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -93,7 +93,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
-- 
2.43.0


From 948d0675e5c707c59335ce1ce538224805af0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 02/75] fix: report a non-unsigned value for a binary point
 instead of panicking

---
 encoding/appdata.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index e71395e..53dac20 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -74,7 +74,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
-- 
2.43.0


From b985069194cc09bba44e59214d5db5443b7b98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 03/75] fix: encode signed integers in two's complement of the
 right length

---
 encoding/appdata.go |  5 ++---
 encoding/encoder.go | 13 +++++++++++++
 encoding/general.go | 12 ++++++++++++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 53dac20..8f7849b 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -105,10 +105,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..6b4d387 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -156,6 +156,19 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+func (e *Encoder) signed(value int32) {
+	switch signedLength(value) {
+	case size8:
+		e.write(int8(value))
+	case size16:
+		e.write(int16(value))
+	case size24:
+		e.unsigned24(uint32(value))
+	default:
+		e.write(value)
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..4f9cfab 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -14,6 +14,18 @@ func valueLength(value uint32) int {
 	return size32
 }
 
+// signedLength calculates how many octets the two's complement value needs, as per 20.2.5
+func signedLength(value int32) int {
+	if value >= -0x80 && value < 0x80 {
+		return size8
+	} else if value >= -0x8000 && value < 0x8000 {
+		return size16
+	} else if value >= -0x800000 && value < 0x800000 {
+		return size24
+	}
+	return size32
+}
+
 /* from clause 20.2.1.3.2 Constructed Data */
 /* true if the tag is an opening tag */
 func isOpeningTag(x uint8) bool {
-- 
2.43.0


From 3d92c828f9b8d7a9cfbcdcdefd7863f31f010c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 04/75] fix: sign-extend three-octet signed integers

---
 encoding/decoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..9705c33 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -149,13 +149,14 @@ func (d *Decoder) unsigned(length int) uint32 {
 }
 
 func (d *Decoder) signed24() int32 {
-	var a, b, c int8
+	var a int8
+	var b, c uint8
 	d.decode(&a)
 	d.decode(&b)
 	d.decode(&c)
 
 	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
+	x = int32(a) << 16 // a carries the sign
 	x |= int32((int32(b) << 8) & 0x0000ff00)
 	x |= int32(int32(c) & 0x000000ff)
 	return x
-- 
2.43.0


From d485989fffa1df660ebe475269e1f149a5f5ea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 05/75] fix: decode years as years since 1900 and keep an
 unspecified year

---
 encoding/date.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..566c1a8 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -3,9 +3,9 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 // epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
+// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1900
 // limit
-const epochYear = 1990
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
@@ -55,7 +55,7 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
-	if dt.Year != btypes.UnspecifiedTime {
+	if data[0] != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
 	} else {
 		dt.Year = int(data[0])
-- 
2.43.0


From 2764a3b81dc9e5c76233645aad05fd753158a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 06/75] fix: report lengths that do not fit the type or the
 data instead of panicking or allocating

---
 encoding/date.go            | 16 +++++++-------
 encoding/decoder.go         | 42 +++++++++++++++++++++++++++++++++----
 encoding/npdu.go            |  4 +---
 encoding/readmultipleack.go |  6 ++----
 encoding/string.go          |  9 ++++----
 5 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 566c1a8..b64245d 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -43,17 +43,14 @@ func (e *Encoder) date(dt btypes.Date) {
 }
 
 func (d *Decoder) date(dt *btypes.Date, length int) {
-	if length <= 0 {
+	if length != int(dateLen) {
+		d.badLength("date", length)
 		return
 	}
-	data := make([]byte, length)
-	_, d.err = d.Read(data)
+	data := d.octets(length)
 	if d.err != nil {
 		return
 	}
-	if len(data) < 4 {
-		return
-	}
 
 	if data[0] != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
@@ -75,11 +72,12 @@ func (e *Encoder) time(t btypes.Time) {
 	e.write(uint8(t.Millisecond / 10))
 }
 func (d *Decoder) time(t *btypes.Time, length int) {
-	if length <= 0 {
+	if length != int(timeLen) {
+		d.badLength("time", length)
 		return
 	}
-	data := make([]byte, length)
-	if _, d.err = d.Read(data); d.err != nil {
+	data := d.octets(length)
+	if d.err != nil {
 		return
 	}
 
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 9705c33..3c54054 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,6 +3,9 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
+	"io"
+
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -39,10 +42,25 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	d.octets(int(n))
 	return d.err
 }
 
+// octets reads exactly n octets. A length that exceeds the data is an error
+// and nothing is allocated for it.
+func (d *Decoder) octets(n int) []byte {
+	if d.err != nil {
+		return nil
+	}
+	if n < 0 || n > d.len() {
+		d.err = io.ErrUnexpectedEOF
+		return nil
+	}
+	data := make([]byte, n)
+	d.decode(data)
+	return data
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -144,10 +162,18 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
+		d.badLength("unsigned", length)
 		return 0
 	}
 }
 
+// badLength records that a value of the given type cannot have this length
+func (d *Decoder) badLength(typ string, length int) {
+	if d.err == nil {
+		d.err = fmt.Errorf("invalid length %d of %s", length, typ)
+	}
+}
+
 func (d *Decoder) signed24() int32 {
 	var a int8
 	var b, c uint8
@@ -179,16 +205,24 @@ func (d *Decoder) signed(length int) int32 {
 		d.decode(&val)
 		return val
 	default:
+		d.badLength("signed", length)
 		return 0
 	}
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
-	if length <= 0 {
+	if length <= 0 || length-1 > btypes.MaxBitStringBytes {
+		d.badLength("bit string", length)
+		return nil
+	}
+	data := d.octets(length)
+	if d.err != nil {
+		return nil
+	}
+	if length == 1 && data[0] != 0 {
+		d.err = fmt.Errorf("empty bit string with %d unused bits", data[0])
 		return nil
 	}
-	data := make([]uint8, length)
-	d.decode(data)
 	//refer to  https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacdcode.c#L672
 	bs := btypes.NewBitString(length - 1)
 	/* the lower 3 bits of the first byte contains the unused bits in the remain bytes and the remain bytes contain the bit masks*/
diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..3f1df9d 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -66,9 +66,7 @@ func (d *Decoder) Address(a *btypes.Address) {
 	d.decode(&a.Net) //decode the network address
 	d.decode(&a.Len)
 	// Make space for address
-	a.Adr = make([]uint8, a.Len) //decode the device hardware mac addr
-	d.decode(a.Adr)
-
+	a.Adr = d.octets(int(a.Len)) //decode the device hardware mac addr
 }
 
 type RouterToNetworkList struct {
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..e5daef9 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -184,10 +184,8 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
 								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
+								if err := d.Skip(lenValue); err != nil {
+									return err
 								}
 							} else {
 								data, err := d.AppDataOfTag(tag, int(lenValue))
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..da16ddf 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -38,8 +38,10 @@ func (d *Decoder) string(s *string, len int) error {
 	default:
 		return fmt.Errorf("unsupported string format %d", t)
 	}
-	b := make([]byte, len)
-	d.decode(b)
+	b := d.octets(len)
+	if d.err != nil {
+		return d.err
+	}
 
 	if t == characterUCS2 {
 		out, err := decodeUCS2(string(b))
@@ -58,6 +60,5 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
-	*b = make([]byte, len)
-	d.decode(b)
+	*b = d.octets(len)
 }
-- 
2.43.0


From 9f71652d42c662be61bd22416288c5eda88b7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/75] fix: report missing values and wrong lengths of
 fixed-length values as errors

---
 encoding/appdata.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 8f7849b..cad3277 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -35,6 +35,16 @@ const (
 	objectIDLen uint32 = 4
 )
 
+// fixedLen holds the length of the types of which every value has the same length
+var fixedLen = map[uint8]uint32{
+	tagNull:     0,
+	tagReal:     realLen,
+	tagDouble:   doubleLen,
+	tagDate:     dateLen,
+	tagTime:     timeLen,
+	tagObjectID: objectIDLen,
+}
+
 // All app layer is non-context specific
 const appLayerContext = false
 
@@ -129,9 +139,15 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 }
 
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
+	if want, ok := fixedLen[tag]; ok && uint32(len) != want {
+		d.badLength(fmt.Sprintf("tag %d", tag), len)
+	}
+	if d.err != nil {
+		return nil, d.err
+	}
 	switch tag {
 	case tagNull:
-		return null.Null{}, nil
+		return null.Null{}, d.Error()
 	case tagBool:
 		// Originally this was in C so non 0 values are considered
 		// true
-- 
2.43.0


From cf890292cd3bc2643ceeb9c892406cbfc1fbb531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/75] fix: end the decoding of every ReadPropertyMultiple
 acknowledgement

---
 encoding/general.go         |  2 +-
 encoding/readmultipleack.go | 38 +++++++++++++++++++++++--------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/encoding/general.go b/encoding/general.go
index 4f9cfab..e3bca5c 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -63,7 +63,7 @@ func (t *tagMeta) setOpening() {
 }
 
 func (t *tagMeta) isOpening() bool {
-	return ((*t & openingMask) == openingMask)
+	return ((*t & closingMask) == openingMask)
 }
 
 func (t *tagMeta) Clear() {
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index e5daef9..6bfae34 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -133,9 +133,7 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 			// Tag 3 - (Optional) Array Length
 			tag, meta = d.tagNumber()
-			if tag == 2 {
-				continue
-			} else if tag == 3 {
+			if tag == 3 {
 				if !meta.isContextSpecific() {
 					return &ErrorWrongTagType{ContextTag}
 				}
@@ -154,15 +152,28 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 				if d.err != nil {
 					return d.err
 				}
+				depth := 0 // constructed values that are still open
 				for {
+					if d.err != nil {
+						return d.err
+					}
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
-							_ = d.UnreadByte()
+							if depth == 0 {
+								if tag != 4 {
+									return &ErrorIncorrectTag{Expected: 4, Given: tag}
+								}
+								break
+							}
+							depth--
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
 								for {
 									tag, meta, length = d.tagNumberAndValue()
+									if d.err != nil {
+										return d.err
+									}
 									if meta.isClosing() && tag == btypes.TimeStampDatetime {
 										break
 									} else if tag == tagDate {
@@ -174,12 +185,10 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 									}
 								}
 								array = append(array, dt)
+							} else {
+								depth++
 							}
 						} else {
-							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
 							lenValue := d.value(meta)
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
@@ -203,12 +212,6 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 						array = append(array, data)
 					}
 					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
@@ -235,6 +238,13 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			}
 		}
 
+		if d.err != nil {
+			return d.err
+		} else if tag != 1 {
+			return &ErrorIncorrectTag{Expected: 1, Given: tag}
+		} else if !meta.isClosing() {
+			return &ErrorWrongTagType{ClosingTag}
+		}
 		*objects = append(*objects, obj)
 	}
 	return d.Error()
-- 
2.43.0


From 63fb2765054bc753460e035ffb8096f2b5001176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 09/75] fix: close the value of an encoded ReadProperty
 acknowledgement with its own tag

---
 encoding/readprop.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..c7297f0 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -69,7 +69,6 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
 	e.AppData(prop.Data, false)
 	e.closingTag(tagID)
-- 
2.43.0


From b7a929a9d3f98b4e7df9fc876a4a0824e9ed2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 10/75] fix: require the closing tag of the value in a
 ReadProperty acknowledgement

---
 encoding/readprop.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index c7297f0..457fb7f 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -139,19 +139,37 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 
 		if openTag == 3 {
 			var err error
-			// We subtract one to ignore the closing tag.
 			datalist := make([]interface{}, 0)
 
-			// There is a closing tag of size 1 byte that we ignore which is why we are
-			// looping until the length is greater than 1
-			for i := 0; d.buff.Len() > 1; i++ {
-				data, err := d.AppData()
+			depth := 0 // constructed values that are still open
+			// The values end at the closing tag
+			for {
+				tag, meta = d.tagNumber()
+				if d.err != nil {
+					return d.err
+				}
+				if meta.isContextSpecific() && meta.isOpening() {
+					depth++
+					continue
+				}
+				if meta.isContextSpecific() && meta.isClosing() {
+					if depth == 0 {
+						break
+					}
+					depth--
+					continue
+				}
+				data, err := d.AppDataOfTag(tag, int(d.value(meta)))
 				if err != nil {
 					d.err = err
 					return err
 				}
 				datalist = append(datalist, data)
 			}
+			if tag != 3 {
+				d.err = &ErrorIncorrectTag{3, tag}
+				return d.err
+			}
 			prop.Data = datalist
 
 			// If we only have one value in the list, lets just return that value
@@ -162,6 +180,8 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 				d.err = err
 				return err
 			}
+		} else if d.len() > 0 {
+			return &ErrorIncorrectTag{3, openTag}
 		}
 	} else {
 		prop.ArrayIndex = ArrayAll
-- 
2.43.0


From 05a2bb8c9712ff0a14348364dac59f0753dbffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 11/75] fix: encode values in a ReadPropertyMultiple
 acknowledgement as application data

---
 encoding/readmultipleack.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 6bfae34..456d595 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -54,10 +54,8 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 		tag++
 		openedTag := tag
 		e.openingTag(openedTag)
-		e.write(prop.Data)
+		e.AppData(prop.Data, false)
 		e.closingTag(openedTag)
-
-		e.write(prop.Data)
 	}
 	return e.Error()
 }
-- 
2.43.0


From e8a7b01f0b60b96f020ed1c200a97898769c0bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 12/75] fix: decode the class and code of an error in the
 standard form

---
 encoding/apdu.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..95588b4 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -123,18 +123,12 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 			return &ErrorWrongTagType{ClosingTag}
 		}
 	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
-
+		// the tag of the class has been read already
+		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(d.value(meta))))
+		_, _, value := d.tagNumberAndValue()
+		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
 	}
-	return nil
+	return d.Error()
 }
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
-- 
2.43.0


From 5265bd80fc18257ee62bd45d5c2b8e8bc8986608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/75] fix: encode and decode the sequence and window of
 segmented complex acknowledgements

---
 encoding/apdu.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 95588b4..8e1b82f 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -52,6 +52,10 @@ func (e *Encoder) apduUnconfirmed(a btypes.APDU) {
 
 func (e *Encoder) apduComplexAck(a btypes.APDU) {
 	e.write(a.InvokeId)
+	if a.SegmentedMessage {
+		e.write(a.Sequence)
+		e.write(a.WindowNumber)
+	}
 	e.write(a.Service)
 }
 
@@ -133,6 +137,10 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
+	if a.SegmentedMessage {
+		d.decode(&a.Sequence)
+		d.decode(&a.WindowNumber)
+	}
 	d.decode(&a.Service)
 	return d.Error()
 }
-- 
2.43.0


From 5e9c84c18a10a3beb325616426e2f5e31cb3206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 14/75] fix: decode the invoke id of reject, abort and segment
 acknowledgement messages

---
 encoding/apdu.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 8e1b82f..a405cf3 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -77,13 +77,16 @@ func (d *Decoder) APDU(a *btypes.APDU) error {
 	case btypes.ConfirmedServiceRequest:
 		return d.apduConfirmed(a)
 	case btypes.SegmentAck:
-		return fmt.Errorf("Segmented")
+		d.decode(&a.InvokeId)
+		d.decode(&a.Sequence)
+		d.decode(&a.WindowNumber)
+		return d.Error()
 	case btypes.Error:
 		return d.apduError(a)
-	case btypes.Reject:
-		return fmt.Errorf("Rejected")
-	case btypes.Abort:
-		return fmt.Errorf("Aborted")
+	case btypes.Reject, btypes.Abort:
+		// The reason is left as the data
+		d.decode(&a.InvokeId)
+		return d.Error()
 	default:
 		return fmt.Errorf("Unknown PDU type:%d", a.DataType)
 	}
-- 
2.43.0


From eb7d9d88702f701764265c924327898636f9e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 15/75] fix: read the vendor id of network message type 0x80

---
 encoding/npdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index 3f1df9d..b2ce3b0 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -102,7 +102,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
-- 
2.43.0


From 6317db6108cc0ac0f604d79cb638d387ea2ead9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 16/75] fix: decode every network number of an
 I-Am-Router-To-Network message

---
 encoding/npdu.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2ce3b0..93daaaa 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -114,13 +114,13 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 			var nets []btypes.Address
 			d.decode(&n.Source.Net) //decode the first network
 			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
-				d.decode(&n.Source.Net)
-				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
-					}
+			seen := map[uint16]bool{n.Source.Net: true}
+			for d.err == nil && d.len() > 0 {
+				var adr btypes.Address
+				d.decode(&adr.Net)
+				if d.err == nil && !seen[adr.Net] { //make sure that a network is only added once
+					seen[adr.Net] = true
+					nets = append(nets, adr)
 				}
 			}
 			addr = nets
-- 
2.43.0


From 4aff317d1c64f625ffb6a8cdcc269553571d404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 17/75] fix: refuse to encode a ReadProperty request without a
 valid object and property

---
 encoding/readprop.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index 457fb7f..c06084f 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -8,6 +8,9 @@ import (
 
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
+	if len(data.Object.Properties) == 0 {
+		return 0, fmt.Errorf("no property was given for object %v", data.Object.ID)
+	}
 	if err := isValidObjectType(data.Object.ID.Type); err != nil {
 		return 0, err
 	}
@@ -44,7 +47,9 @@ func (e *Encoder) ReadProperty(invokeID uint8, data btypes.PropertyData) error {
 		SegmentedMessage: false,
 	}
 	e.APDU(a)
-	e.readPropertyHeader(initialTagPos, &data)
+	if _, err := e.readPropertyHeader(initialTagPos, &data); err != nil {
+		e.err = err
+	}
 	return e.Error()
 }
 
-- 
2.43.0


From 8537b9d6b2dd648e61089d2b0257713d2a4d0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 18/75] fix: refuse to encode identifiers that do not fit their
 fields

---
 encoding/appdata.go |  1 +
 encoding/encoder.go | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index cad3277..0315403 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -127,6 +127,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	case btypes.ObjectID:
 		e.tag(tagInfo{ID: tagObjectID, Context: appLayerContext, Value: objectIDLen})
 		e.objectId(val.Type, val.Instance)
+		return e.Error()
 	case null.Null:
 		e.tag(tagInfo{ID: tagNull, Context: appLayerContext})
 	default:
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 6b4d387..e024598 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -3,6 +3,8 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
+
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -36,6 +38,13 @@ func (e *Encoder) write(p interface{}) {
 	e.err = binary.Write(e.buff, EncodingEndian, p)
 }
 
+// fail records the first error
+func (e *Encoder) fail(err error) {
+	if e.err == nil {
+		e.err = err
+	}
+}
+
 func (e *Encoder) contextObjectID(tagNum uint8, objectType btypes.ObjectType, instance btypes.ObjectInstance) {
 	/* length of object id is 4 octets, as per 20.2.14 */
 	e.tag(tagInfo{ID: tagNum, Context: true, Value: 4})
@@ -117,6 +126,14 @@ func (e *Encoder) tag(tg tagInfo) {
 /* from clause 20.2.14 Encoding of an Object Identifier Value
 returns the number of apdu bytes consumed */
 func (e *Encoder) objectId(objectType btypes.ObjectType, instance btypes.ObjectInstance) {
+	if err := isValidObjectType(objectType); err != nil {
+		e.fail(err)
+		return
+	}
+	if instance > MaxInstance {
+		e.fail(fmt.Errorf("Object instance is %d which must not exceed %d", instance, MaxInstance))
+		return
+	}
 	var value uint32
 	value = ((uint32(objectType) & MaxObject) << InstanceBits) | (uint32(instance) & MaxInstance)
 	e.write(value)
@@ -190,6 +207,10 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 	for _, prop := range properties {
 		// Tag 0 - Property ID
 		tag = 0
+		if err := isValidPropertyType(uint32(prop.Type)); err != nil {
+			e.fail(err)
+			return err
+		}
 		e.contextEnumerated(tag, uint32(prop.Type))
 
 		// Tag 1 (OPTIONAL) - Array Length
-- 
2.43.0


From 2974b4d6dedf206a4f05e1360062490008306fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 19/75] fix: give the priority in WritePropertyMultiple its own
 tag

---
 encoding/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index e024598..9f4dd85 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -226,7 +226,9 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			e.AppData(prop.Data, false)
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
+			// Tag 3 (OPTIONAL) - Priority
 			if prop.Priority != btypes.Normal {
+				tag = 3
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
 		}
-- 
2.43.0


From 3ac36361e2eb0f0058eced52f4d943b9316713d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 20/75] fix: record the error of a WriteProperty request
 without a valid object and property

---
 encoding/writeprop.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/writeprop.go b/encoding/writeprop.go
index b9a83b2..c18dc42 100644
--- a/encoding/writeprop.go
+++ b/encoding/writeprop.go
@@ -17,6 +17,7 @@ func (e *Encoder) WriteProperty(invokeID uint8, data btypes.PropertyData) error
 
 	tagID, err := e.readPropertyHeader(0, &data)
 	if err != nil {
+		e.fail(err)
 		return err
 	}
 
-- 
2.43.0


From 2e525488be0836b38667e4f0e3e92ff64eba5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 21/75] fix: report missing and wrongly typed fields of an I-Am

---
 encoding/iam.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..540f758 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -1,6 +1,8 @@
 package encoding
 
 import (
+	"fmt"
+
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -24,20 +26,37 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 	if err != nil {
 		return err
 	}
-	if i, ok := objID.(btypes.ObjectID); ok {
-		id.ID = i
+	i, ok := objID.(btypes.ObjectID)
+	if !ok {
+		return fmt.Errorf("expected the object id of the I-Am, got %T", objID)
+	}
+	id.ID = i
+	maxapdu, err := d.AppData()
+	if err != nil {
+		return err
+	}
+	m, ok := maxapdu.(uint32)
+	if !ok {
+		return fmt.Errorf("expected the maximum APDU of the I-Am, got %T", maxapdu)
 	}
-	maxapdu, _ := d.AppData()
-	if m, ok := maxapdu.(uint32); ok {
-		id.MaxApdu = m
+	id.MaxApdu = m
+	segmentation, err := d.AppData()
+	if err != nil {
+		return err
 	}
-	segmentation, _ := d.AppData()
-	if m, ok := segmentation.(uint32); ok {
-		id.Segmentation = btypes.Enumerated(m)
+	s, ok := segmentation.(uint32)
+	if !ok {
+		return fmt.Errorf("expected the segmentation of the I-Am, got %T", segmentation)
 	}
+	id.Segmentation = btypes.Enumerated(s)
 	vendor, err := d.AppData()
-	if v, ok := vendor.(uint32); ok {
-		id.Vendor = v
+	if err != nil {
+		return err
+	}
+	v, ok := vendor.(uint32)
+	if !ok {
+		return fmt.Errorf("expected the vendor of the I-Am, got %T", vendor)
 	}
+	id.Vendor = v
 	return d.Error()
 }
-- 
2.43.0


From 6dce1a16bde5e47533f95220293d3f5b0e7b5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 22/75] fix: set the length of a hardware address to the number
 of its octets

---
 btypes/address.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..a25b2fb 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -24,10 +24,10 @@ func (a *Address) IsBroadcast() bool {
 	return false
 }
 
-//SetLength if device is of type ms-tp then set address len to 1
+//SetLength sets the length of the hardware address, 1 for a device of type ms-tp
 func (a *Address) SetLength() {
 	if len(a.Adr) > 0 {
-		a.Len = 1
+		a.Len = uint8(len(a.Adr))
 	}
 	return
 }
-- 
2.43.0


From cf67740d72de513ed787989a3a59327956b77803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 23/75] fix: set the MAC length in WriteMultiProperty as in the
 other services

---
 writemulti.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writemulti.go b/writemulti.go
index e65a189..d283e8d 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -17,6 +17,7 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 		return fmt.Errorf("unable to get an transaction id: %v", err)
 	}
 	defer c.tsm.Put(id)
+	dev.Addr.SetLength()
 
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
-- 
2.43.0


From 3e5b3982e47b6023956edc38c7606831aa487e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 24/75] fix: bound the indices of a bit string by its size

---
 btypes/bitstring.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 3ae01a0..2353e09 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -39,7 +39,7 @@ func (bs *BitString) String() string {
 func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 	byteNumber := bitNumber / 8
 	var bitMask uint8 = 1
-	if byteNumber < MaxBitStringBytes {
+	if int(byteNumber) < len(bs.Value) {
 		/* set max bits used */
 		if bs.BitUsed < (bitNumber + 1) {
 			bs.BitUsed = bitNumber + 1
@@ -56,7 +56,7 @@ func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 func (bs *BitString) Bit(bitNumber uint8) bool {
 	byteNumber := bitNumber / 8
 	bitMask := uint8(1)
-	if bitNumber < (MaxBitStringBytes * 8) {
+	if int(byteNumber) < len(bs.Value) {
 		bitMask = bitMask << (bitNumber - (byteNumber * 8))
 		return (bs.Value[byteNumber] & bitMask) != 0
 	}
@@ -75,14 +75,14 @@ func (bs *BitString) BytesUsed() uint8 {
 }
 
 func (bs *BitString) Byte(index uint8) byte {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		return bs.Value[index]
 	}
 	return 0
 }
 
 func (bs *BitString) SetByte(index uint8, value byte) bool {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		bs.Value[index] = value
 		return true
 	}
-- 
2.43.0


From 4b56d0c84c8ee67bc7b56c77c8a90099af28ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 25/75] fix: restore every object type and allocate when an
 object map is read from JSON

---
 btypes/object.go     |  7 ++++++-
 btypes/object_map.go | 11 +++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/btypes/object.go b/btypes/object.go
index 8a02bbd..39f3802 100644
--- a/btypes/object.go
+++ b/btypes/object.go
@@ -92,7 +92,12 @@ var objStrTypeMap = map[string]ObjectType{
 func GetType(s string) ObjectType {
 	t, ok := objStrTypeMap[s]
 	if !ok {
-		return 0
+		// the name that String gives to the types it does not know
+		var unknown uint16
+		if _, err := fmt.Sscanf(s, "Unknown (%d)", &unknown); err != nil {
+			return 0
+		}
+		return ObjectType(unknown)
 	}
 	return t
 }
diff --git a/btypes/object_map.go b/btypes/object_map.go
index f87c5b0..2468d84 100644
--- a/btypes/object_map.go
+++ b/btypes/object_map.go
@@ -30,20 +30,23 @@ func (om ObjectMap) MarshalJSON() ([]byte, error) {
 	return json.Marshal(m)
 }
 
-func (om ObjectMap) UnmarshalJSON(data []byte) error {
+func (om *ObjectMap) UnmarshalJSON(data []byte) error {
 	m := make(map[string]map[ObjectInstance]Object, 0)
 	err := json.Unmarshal(data, &m)
 	if err != nil {
 		return err
 	}
 
+	if *om == nil {
+		*om = make(ObjectMap)
+	}
 	for t, sub := range m {
 		key := GetType(t)
-		if om[key] == nil {
-			om[key] = make(map[ObjectInstance]Object)
+		if (*om)[key] == nil {
+			(*om)[key] = make(map[ObjectInstance]Object)
 		}
 		for inst, obj := range sub {
-			om[key][inst] = obj
+			(*om)[key][inst] = obj
 		}
 	}
 	return nil
-- 
2.43.0


From ccd32d14ac70f665eff80cbd8d5676a9f4dca26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 26/75] fix: never block, panic or misdirect data when a
 transaction ends while data is sent or received

---
 tsm/transactions.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tsm/transactions.go b/tsm/transactions.go
index e892593..cd134d1 100644
--- a/tsm/transactions.go
+++ b/tsm/transactions.go
@@ -65,15 +65,20 @@ func New(size int) *TSM {
 
 // Send data to invoked id
 func (t *TSM) Send(id int, b interface{}) error {
+	// The lock is held while sending, so that the channel cannot be closed. Sending
+	// does not wait, a datum is kept until it is received
 	t.mutex.Lock()
+	defer t.mutex.Unlock()
 	s, ok := t.states[id]
-	t.mutex.Unlock()
-
 	if !ok {
 		return fmt.Errorf("id %d is not receiving", id)
 	}
-	s.data <- b
-	return nil
+	select {
+	case s.data <- b:
+		return nil
+	default:
+		return fmt.Errorf("id %d has not received the data sent before", id)
+	}
 }
 
 // Receive attempts to receive a byte array from the invoked id. If a time out
@@ -81,18 +86,23 @@ func (t *TSM) Send(id int, b interface{}) error {
 func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
 	t.mutex.Lock()
 	s, ok := t.states[id]
-	t.mutex.Unlock()
-
 	if !ok {
+		t.mutex.Unlock()
 		return nil, fmt.Errorf("id %d is not sending", id)
 	}
+	// The state may be reused for another transaction, the channel is not
+	data := s.data
+	t.mutex.Unlock()
 
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
 
 	// Wait for data
 	select {
-	case b := <-s.data:
+	case b, ok := <-data:
+		if !ok {
+			return nil, fmt.Errorf("id %d was released", id)
+		}
 		return b, nil
 	case <-ctx.Done():
 		return nil, fmt.Errorf("receive timed out (%v)", timeout)
@@ -120,7 +130,7 @@ func (t *TSM) ID(ctx context.Context) (int, error) {
 	s := t.pool.Get().(*state)
 	s.state = idle
 	s.requestTimer = 0 // TODO: apdu_timeout
-	s.data = make(chan interface{})
+	s.data = make(chan interface{}, 1)
 
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
-- 
2.43.0


From 5bc07134e81aee120036ebf7029731171e3ee8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 27/75] fix: let publishers hand over data without waiting for
 the subscriber

---
 utsm/subscriber.go | 28 +++++++++++++++++++---------
 utsm/utsm.go       |  8 ++++++--
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index f77099e..ba9c6f3 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -13,9 +13,11 @@ type subscriber struct {
 	timeout             time.Duration
 	lastReceivedTimeout time.Duration
 	lastReceived        time.Time
-	// Data channel is used for data transfer between subscriber and publisher
-	data  chan interface{}
-	mutex *sync.Mutex
+	// data holds what was published and is not yet with the subscriber, which is
+	// told about it through notify
+	data   []interface{}
+	notify chan struct{}
+	mutex  *sync.Mutex
 }
 
 // SubscriberOption are options passed to a particular subscribe function
@@ -40,6 +42,13 @@ func (s *subscriber) LastReceivedTimeout(d time.Duration) SubscriberOption {
 	}
 }
 
+// received returns what has been published to the subscriber
+func (s *subscriber) received() []interface{} {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.data
+}
+
 // getTimeout returns the expiration time based on when we last received a message
 func (s *subscriber) getTimeout() time.Duration {
 	s.mutex.Lock()
@@ -51,7 +60,6 @@ func (s *subscriber) getTimeout() time.Duration {
 
 // Subscribe receives data meant for ids that fall between the start and end range.
 func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]interface{}, error) {
-	var store []interface{}
 	s := m.newSubscriber(start, end, options)
 	defer m.removeSubscriber(s)
 
@@ -60,13 +68,15 @@ func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]
 
 	for {
 		c, can := context.WithTimeout(ctx, s.getTimeout())
-		defer can()
-
 		select {
 		case <-c.Done():
-			return store, nil
-		case b := <-s.data:
-			store = append(store, b)
+		case <-s.notify:
+		}
+		can()
+
+		if ctx.Err() != nil || s.getTimeout() <= 0 {
+			m.removeSubscriber(s)
+			return s.received(), nil
 		}
 	}
 }
diff --git a/utsm/utsm.go b/utsm/utsm.go
index 3d34da3..11256c9 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -66,8 +66,12 @@ func (m *Manager) Publish(id int, data interface{}) {
 		if id >= s.start && id <= s.end {
 			s.mutex.Lock()
 			s.lastReceived = time.Now()
-			s.data <- data
+			s.data = append(s.data, data)
 			s.mutex.Unlock()
+			select {
+			case s.notify <- struct{}{}:
+			default: // it has been told already
+			}
 		}
 	}
 }
@@ -77,7 +81,7 @@ func (m *Manager) newSubscriber(start int, end int, options []SubscriberOption)
 		start:        start,
 		end:          end,
 		lastReceived: time.Now(),
-		data:         make(chan interface{}, 1),
+		notify:       make(chan struct{}, 1),
 		mutex:        &sync.Mutex{},
 	}
 	m.mutex.Lock()
-- 
2.43.0


From 11595d0c578bab410d091324fce8290711494225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 28/75] fix: send a query only when its answers are subscribed
 to

---
 utsm/subscriber.go |  8 ++++++++
 whatnetwork.go     | 15 +++++++++------
 whois.go           | 15 +++++++++------
 whoisrouter.go     | 15 +++++++++------
 4 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index ba9c6f3..8de0924 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -42,6 +42,14 @@ func (s *subscriber) LastReceivedTimeout(d time.Duration) SubscriberOption {
 	}
 }
 
+// OnReady calls f once the subscription is open, so that everything published
+// because of f is received
+func OnReady(f func()) SubscriberOption {
+	return func(s *subscriber) {
+		f()
+	}
+}
+
 // received returns what has been published to the subscriber
 func (s *subscriber) received() []interface{} {
 	s.mutex.Lock()
diff --git a/whatnetwork.go b/whatnetwork.go
index 28b5f5c..696a1ee 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -33,13 +34,15 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 	}
 	enc.NPDU(npdu)
 	// Run in parallel
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := utsm.OnReady(func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+			errChan <- err
+		}()
+	})
+	values, err := c.utsm.Subscribe(1, 65534, send) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
diff --git a/whois.go b/whois.go
index 95888b1..99f8724 100644
--- a/whois.go
+++ b/whois.go
@@ -4,6 +4,7 @@ import "C"
 import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 type WhoIsOpts struct {
@@ -58,12 +59,14 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		end = high
 	}
 	// Run in parallel
-	errChan := make(chan error)
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(start, end)
+	errChan := make(chan error, 1)
+	send := utsm.OnReady(func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+			errChan <- err
+		}()
+	})
+	values, err := c.utsm.Subscribe(start, end, send)
 	if err != nil {
 		return nil, err
 	}
diff --git a/whoisrouter.go b/whoisrouter.go
index 3f225c2..f82aa26 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -28,13 +29,15 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 	}
 	enc.NPDU(npdu)
 	// Run in parallel
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := utsm.OnReady(func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+			errChan <- err
+		}()
+	})
+	values, err := c.utsm.Subscribe(1, 65534, send) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-- 
2.43.0


From 39cd0650373b2da75ea85d953006919a9ac767e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 29/75] fix: send a Who-Is for the local network as a broadcast

---
 whois.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whois.go b/whois.go
index 99f8724..4d44793 100644
--- a/whois.go
+++ b/whois.go
@@ -60,9 +60,11 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	}
 	// Run in parallel
 	errChan := make(chan error, 1)
+	// Also the local broadcast address has to be marked as a broadcast
+	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	send := utsm.OnReady(func() {
 		go func() {
-			_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
 			errChan <- err
 		}()
 	})
-- 
2.43.0


From 80eccbbb8e632bc0b4bb16a46b56c8168606d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 30/75] fix: read forwarded messages and attribute them to
 their originator

---
 device.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 9413d79..4eb4a91 100644
--- a/device.go
+++ b/device.go
@@ -138,10 +138,21 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		c.log.Error(err)
 		return
 	}
+	if header.Type != btypes.BVLCTypeBacnetIP {
+		return
+	}
 
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
+		if header.Function == btypes.BacFuncForwardedNPDU {
+			// The address of the originator comes before the NPDU
+			origin := make([]byte, forwardHeaderLength-mtuHeaderLength)
+			if n, _ := dec.Read(origin); n < len(origin) {
+				return
+			}
+			src = &btypes.Address{Mac: origin, MacLen: uint8(len(origin))}
+		}
 		networkList, err := dec.NPDU(&npdu)
 		if err != nil {
 			return
@@ -230,14 +241,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
 		}
 	}
-
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From 319550a01f64dae8708012bbc762c2be2747001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 31/75] fix: do not read an application message out of a
 network message

---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 4eb4a91..7b3e235 100644
--- a/device.go
+++ b/device.go
@@ -168,7 +168,7 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
 				//return
 			}
-
+			return // there is no APDU
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
-- 
2.43.0


From 33fa7359ae7f0ba496f34cd618ba5f4a81170b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 32/75] fix: do not complete an operation with a request of
 another device

---
 device.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 7b3e235..07fafb5 100644
--- a/device.go
+++ b/device.go
@@ -225,11 +225,9 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// The invoke id is the one of the sender and does not belong to a transaction
+			// of this client
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From e8dfbfdf4a1633bb6719236a2532ef2421f64d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 33/75] fix: report a reject or abort to the operation it
 answers

---
 device.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/device.go b/device.go
index 07fafb5..ab8c4e7 100644
--- a/device.go
+++ b/device.go
@@ -234,6 +234,16 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			if err != nil {
 				c.log.Debugf("unable to Send error to %d: %v", apdu.InvokeId, err)
 			}
+		case btypes.Reject, btypes.Abort:
+			kind := "rejected"
+			if apdu.DataType == btypes.Abort {
+				kind = "aborted"
+			}
+			err := fmt.Errorf("request was %s, reason: %v", kind, dec.Bytes())
+			err = c.tsm.Send(int(apdu.InvokeId), err)
+			if err != nil {
+				c.log.Debugf("unable to Send error to %d: %v", apdu.InvokeId, err)
+			}
 		default:
 			// Ignore it
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
-- 
2.43.0


From b9849fd0c4e0137bedeb94c248db9ba797326878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 34/75] fix: use the data link given to the client builder

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index ab8c4e7..2fa0d97 100644
--- a/device.go
+++ b/device.go
@@ -77,7 +77,9 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		maxPDU = btypes.MaxAPDU
 	}
 	//build datalink
-	if iface != "" {
+	if cb.DataLink != nil {
+		dataLink = cb.DataLink
+	} else if iface != "" {
 		dataLink, err = datalink.NewUDPDataLink(iface, port)
 		if err != nil {
 			//log.Fatal(err)
-- 
2.43.0


From ce29f9621ecf4c7218b0615952740c66adb67265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 35/75] fix: pass subnet and port in their order when a link is
 opened by IP

---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 2fa0d97..7793dfc 100644
--- a/device.go
+++ b/device.go
@@ -91,7 +91,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		if !ok {
 
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
 			//log.Fatal(err)
 		}
-- 
2.43.0


From f31151246449c8aa6e3787bc78c6d9e9fe0b400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 36/75] fix: leave room for the headers in the receive buffer

---
 device.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 7793dfc..8551969 100644
--- a/device.go
+++ b/device.go
@@ -19,6 +19,10 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardHeaderLength = 10
 
+// maxHeaderLength is the longest header before an APDU: a forwarded message with
+// a destination and a source (network, length and address) and a hop count
+const maxHeaderLength = forwardHeaderLength + 2 + 2*(3+255) + 1
+
 type Client interface {
 	io.Closer
 	ClientClose(closeLogs bool) error
@@ -109,7 +113,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 			utsm.DefaultSubscriberLastReceivedTimeout(time.Second*time.Duration(2)),
 		),
 		readBufferPool: sync.Pool{New: func() interface{} {
-			return make([]byte, maxPDU)
+			return make([]byte, int(maxPDU)+maxHeaderLength)
 		}},
 		log: l,
 	}
-- 
2.43.0


From d1f1cd35f883f73889190dc4b213d2ae35e11db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 37/75] fix: close the link when the client is closed with its
 logs

---
 device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 8551969..0d6a1c0 100644
--- a/device.go
+++ b/device.go
@@ -300,12 +300,13 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 }
 
 func (c *client) ClientClose(closeLogs bool) error {
+	err := c.Close()
 	if closeLogs {
 		if f, ok := c.log.Out.(io.Closer); ok {
 			return f.Close()
 		}
 	}
-	return c.Close()
+	return err
 }
 
 // Close free resources for the client. Always call this function when using NewClient
-- 
2.43.0


From ae3b52889015603a3f5255527531a63230656340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 38/75] fix: report a write as successful only when it was
 acknowledged

---
 writemulti.go | 9 ++++++---
 writeprop.go  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/writemulti.go b/writemulti.go
index d283e8d..5d7b3c9 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -31,9 +31,9 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
 
-	enc.WriteMultiProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteMultiProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 
 	pack := enc.Bytes()
@@ -83,5 +83,8 @@ func (c *client) sendWriteMultipleProperty(id int, dev btypes.Device, npdu *btyp
 	if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
 		return fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 	}
+	if apdu.DataType != btypes.SimpleAck || apdu.Service != btypes.ServiceConfirmedWritePropMultiple {
+		return fmt.Errorf("the answer (type %d service %d) does not acknowledge the write", apdu.DataType, apdu.Service)
+	}
 	return nil
 }
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..0a497e3 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -28,9 +28,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.WriteProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 	// the value filled doesn't matter. it just needs to be non nil
 	err = fmt.Errorf("go")
@@ -66,6 +66,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if apdu.DataType != btypes.SimpleAck || apdu.Service != btypes.ServiceConfirmedWriteProperty {
+			return fmt.Errorf("the answer (type %d service %d) does not acknowledge the write", apdu.DataType, apdu.Service)
+		}
 
 		return err
 	}
-- 
2.43.0


From cde4754903cb6383e3855e4c316c2eecf760582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:33 +0000
Subject: [PATCH 39/75] fix: accept only a complete acknowledgement of the
 service as the answer to a read

---
 readmulti.go | 3 +++
 readprop.go  | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/readmulti.go b/readmulti.go
index 67377e1..a098c26 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -98,6 +98,9 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 		err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 		return out, err
 	}
+	if apdu.DataType != btypes.ComplexAck || apdu.Service != btypes.ServiceConfirmedReadPropMultiple || apdu.SegmentedMessage {
+		return out, fmt.Errorf("the answer (type %d service %d) is not the acknowledgement of the read", apdu.DataType, apdu.Service)
+	}
 	err = dec.ReadMultiplePropertyAck(&out)
 	if err != nil {
 		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
diff --git a/readprop.go b/readprop.go
index 73f1b57..528c5fb 100644
--- a/readprop.go
+++ b/readprop.go
@@ -68,9 +68,17 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if apdu.DataType != btypes.ComplexAck || apdu.Service != btypes.ServiceConfirmedReadProperty || apdu.SegmentedMessage {
+			err = fmt.Errorf("the answer (type %d service %d) is not the acknowledgement of the read", apdu.DataType, apdu.Service)
+			continue
+		}
 		if err = dec.ReadProperty(&out); err != nil {
 			continue
 		}
+		if len(out.Object.Properties) == 0 || out.Object.Properties[0].Data == nil {
+			err = fmt.Errorf("the answer carries no value")
+			continue
+		}
 		return out, dec.Error()
 	}
 	return btypes.PropertyData{}, err
-- 
2.43.0


From 9085ee42d643a5a3efc124a92bfad5142e13a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 40/75] fix: report a maximum APDU that is too small for
 reading the object list

---
 objectlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..5a1ca7a 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -92,6 +92,9 @@ func (c *client) objectList(dev *btypes.Device) error {
 
 	// Scan size is broken
 	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	if scanSize < 1 {
+		return fmt.Errorf("maximum APDU of %d is too small", dev.MaxApdu)
+	}
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
-- 
2.43.0


From 3089a228bba651dd99c9b94ce3ae07fec03cf59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 41/75] fix: do not ask for the information of no objects

---
 objectlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index 5a1ca7a..30ab6eb 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -149,6 +149,9 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if len(rpm.Objects) == 0 {
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
-- 
2.43.0


From eba5235376c428dfcd3f79535f34f49d843645b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 42/75] fix: report an answer with other objects or properties
 than were asked for

---
 objectlist.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/objectlist.go b/objectlist.go
index 30ab6eb..68d4187 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -5,6 +5,25 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 )
 
+// sameProperties reports whether exactly what was asked for was returned
+func sameProperties(asked, returned []btypes.Object) error {
+	if len(asked) != len(returned) {
+		return fmt.Errorf("asked for %d objects, got %d", len(asked), len(returned))
+	}
+	for i, a := range asked {
+		r := returned[i]
+		if a.ID != r.ID || len(a.Properties) != len(r.Properties) {
+			return fmt.Errorf("asked for %d properties of %v, got %d of %v", len(a.Properties), a.ID, len(r.Properties), r.ID)
+		}
+		for j, p := range a.Properties {
+			if q := r.Properties[j]; p.Type != q.Type || p.ArrayIndex != q.ArrayIndex {
+				return fmt.Errorf("asked for property %d[%d] of %v, got %d[%d]", p.Type, p.ArrayIndex, a.ID, q.Type, q.ArrayIndex)
+			}
+		}
+	}
+	return nil
+}
+
 func (c *client) objectListLen(dev btypes.Device) (int, error) {
 	rp := btypes.PropertyData{
 		Object: btypes.Object{
@@ -23,8 +42,8 @@ func (c *client) objectListLen(dev btypes.Device) (int, error) {
 		return 0, fmt.Errorf("reading property failed: %v", err)
 	}
 
-	if len(resp.Object.Properties) == 0 {
-		return 0, fmt.Errorf("no data was returned")
+	if err := sameProperties([]btypes.Object{rp.Object}, []btypes.Object{resp.Object}); err != nil {
+		return 0, err
 	}
 
 	data, ok := resp.Object.Properties[0].Data.(uint32)
@@ -53,8 +72,8 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 	if err != nil {
 		return nil, fmt.Errorf("unable to read multiple properties: %v", err)
 	}
-	if len(resp.Objects) == 0 {
-		return nil, fmt.Errorf("no data was returned")
+	if err := sameProperties(rpm.Objects, resp.Objects); err != nil {
+		return nil, err
 	}
 
 	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
@@ -156,6 +175,9 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
 	}
+	if err := sameProperties(rpm.Objects, resp.Objects); err != nil {
+		return err
+	}
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
-- 
2.43.0


From 73f46a15e886e7410a172592b52b79a7c2818bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 43/75] fix: report an invalid IPv4 address instead of packing
 it as 0.0.0.0

---
 helpers/ipbytes/ip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/ipbytes/ip.go b/helpers/ipbytes/ip.go
index 30cc36a..f5c7aff 100644
--- a/helpers/ipbytes/ip.go
+++ b/helpers/ipbytes/ip.go
@@ -31,6 +31,9 @@ func pack32BinaryIP4(ip4Address string) []byte {
 - returns uint8[192 168 15 10 186 192]
 */
 func New(ip string, port uint16) ([]uint8, error) {
+	if net.ParseIP(ip).To4() == nil {
+		return nil, errors.New("helpers.mac.BuildMac() not an IPv4 address: " + ip)
+	}
 	buf := new(bytes.Buffer)
 	err := binary.Write(buf, binary.BigEndian, port)
 	if err != nil {
-- 
2.43.0


From b427e0de831862c4313076ff844325e69e3ea041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 44/75] fix: read reals in a priority array

---
 btypes/priority/priority.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..964ae17 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -13,15 +13,19 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 	for i, value := range arr {
 		var returnValue *float32
 		typeOf := reflect.TypeOf(value)
-		if typeOf.Name() != "Null" {
+		if typeOf != nil && typeOf.Name() != "Null" {
 			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
+				if f, ok := value.(uint32); ok {
+					flt := float32(f)
+					returnValue = nils.NewFloat32(flt)
+				}
 			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
+				switch f := value.(type) {
+				case uint32:
+					returnValue = nils.NewFloat32(float32(f))
+				case float32:
+					returnValue = nils.NewFloat32(f)
+				}
 			}
 		}
 		switch i {
-- 
2.43.0


From 62f29304ee9078284d59e737a13e6832fd3a51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 45/75] fix: let the bit string and array accessors accept data
 without properties

---
 helpers/data/data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/helpers/data/data.go b/helpers/data/data.go
index a8d859c..ac8ea27 100644
--- a/helpers/data/data.go
+++ b/helpers/data/data.go
@@ -6,6 +6,10 @@ import (
 )
 
 func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.(*btypes.BitString)
 
 	if !ok {
@@ -16,6 +20,10 @@ func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
 }
 
 func ToArr(d btypes.PropertyData) (ok bool, out []interface{}) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.([]interface{})
 	if !ok {
 		fmt.Println("unable to get object list")
-- 
2.43.0


From f367b188be2e87a6dc38729cc947b541a12bb9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 46/75] fix: take the object id of a new device from its device
 id

---
 btypes/device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btypes/device.go b/btypes/device.go
index 0357c32..938efc9 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -91,6 +91,9 @@ func NewDevice(device *Device) (*Device, error) {
 		Type:     DeviceType,
 		Instance: device.ID.Instance,
 	}
+	if object.Instance == 0 { // the instance is given as the device id
+		object.Instance = ObjectInstance(device.DeviceID)
+	}
 	device.ID = object
 	device.Addr = addr
 	return device, nil
-- 
2.43.0


From 39e3cd4810ac466591d78cf25c8eea2edcde319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 47/75] fix: convert IPv4 addresses in either form of net.IP

---
 datalink/udp.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index c4f0a72..a0e18c9 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -136,9 +136,7 @@ func UDPToAddress(n *net.UDPAddr) *btypes.Address {
 	length := net.IPv4len + 2
 	a.Mac = make([]uint8, length)
 	//Encode ip
-	for i := 0; i < net.IPv4len; i++ {
-		a.Mac[i] = n.IP[i]
-	}
+	copy(a.Mac, n.IP.To4())
 	// Encode port
 	a.Mac[net.IPv4len+0] = uint8(p >> 8)
 	a.Mac[net.IPv4len+1] = uint8(p & 0x00FF)
-- 
2.43.0


From efa89e8b4bbae96db184da45718ee7ae9efcf4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 48/75] fix: report an IPv6 address as an error when a link is
 opened

---
 datalink/udp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datalink/udp.go b/datalink/udp.go
index a0e18c9..92812fc 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,6 +67,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
+	if ip.To4() == nil {
+		return nil, fmt.Errorf("%s is not an IPv4 address", ipAddr)
+	}
+
 	broadcast := net.IP(make([]byte, 4))
 	for i := range broadcast {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
-- 
2.43.0


From 5545bfbc3880f9aedb389ffa5d9a8dccfc8981b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 49/75] fix: report an invalid port when a link is opened

---
 datalink/udp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index 92812fc..d27ebaf 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -76,7 +76,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
 	}
 
-	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	udp, err := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	if err != nil {
+		return nil, err
+	}
 	conn, err := net.ListenUDP("udp", udp)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0bbd8f017028671b5b7b47a45a5be7bbd070ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 50/75] fix: listen for IPv4 datagrams only

---
 datalink/udp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index d27ebaf..3919a20 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -80,7 +80,7 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 	if err != nil {
 		return nil, err
 	}
-	conn, err := net.ListenUDP("udp", udp)
+	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bff37b2997a861b505b6a5c00d12079957e547d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 51/75] fix: address a network device at its port

---
 network/device.go | 1 +
 network/store.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/network/device.go b/network/device.go
index 1dcc22f..79b6558 100644
--- a/network/device.go
+++ b/network/device.go
@@ -30,6 +30,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index 426ff77..b4bfed2 100644
--- a/network/store.go
+++ b/network/store.go
@@ -60,6 +60,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	var err error
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From 200036d2bb7acd5f474a90286cd5720793df7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 52/75] fix: keep the store and the address in a network made
 by the store

---
 network/store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/network/store.go b/network/store.go
index b4bfed2..2796c9c 100644
--- a/network/store.go
+++ b/network/store.go
@@ -34,9 +34,13 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		return err
 	}
 	bacnetNet := &Network{
-		Interface: iface,
-		Port:      port,
-		bacnet:    bc,
+		Interface:  iface,
+		Ip:         ip,
+		Port:       port,
+		SubnetCIDR: subnet,
+		StoreID:    storeID,
+		Store:      store,
+		bacnet:     bc,
 	}
 	if store.BacStore != nil {
 		store.BacStore.Set(storeID, bacnetNet, -1)
-- 
2.43.0


From 376092d976f889bb116151a5118245d85bec42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 53/75] fix: return the object list of a device with a single
 object

---
 network/objects.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index f7367d4..ab62b66 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -46,9 +46,15 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
-	_, ids := data.ToArr(out)
+	ok, ids := data.ToArr(out)
+	if !ok { // a list of one element is returned as the element
+		ids = []interface{}{out.Object.Properties[0].Data}
+	}
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object id in the object list, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
-- 
2.43.0


From 7911d1cc0078fc03dc7ff9f5696d38caf94acdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 54/75] fix: report elements of the object list that cannot be
 read

---
 network/objects.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index ab62b66..a01d38d 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -75,13 +75,25 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, fmt.Errorf("no size of the object list was returned")
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		if len(out.Object.Properties) == 0 {
+			return nil, fmt.Errorf("no value returned for element %d of the object list", i)
+		}
+		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object id for element %d of the object list, got %T", i, out.Object.Properties[0].Data)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, err
-- 
2.43.0


From 180dd1cdcdf49b6951f4a03ac70d9df88a2ef750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 55/75] fix: describe each discovered device by its own entry

---
 network/discover.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..2e7ca72 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -92,22 +92,24 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 		return devices, err
 	}
 	for _, dev := range whois {
+		found := &Device{dev: dev, network: device.network}
 		if len(dev.Addr.Adr) > 0 {
-			device.MacMSTP = int(dev.Addr.Adr[0])
+			found.MacMSTP = int(dev.Addr.Adr[0])
 		}
 		host, _ := dev.Addr.UDPAddr()
-		device.DeviceID = int(dev.ID.Instance)
-		device.Ip = host.IP.String()
-		device.NetworkNumber = int(dev.Addr.Net)
-		device.MaxApdu = dev.MaxApdu
-		device.Segmentation = uint32(dev.Segmentation)
-		details, err := device.GetDeviceDetails(dev.ID.Instance)
+		found.DeviceID = int(dev.ID.Instance)
+		found.Ip = host.IP.String()
+		found.Port = host.Port
+		found.NetworkNumber = int(dev.Addr.Net)
+		found.MaxApdu = dev.MaxApdu
+		found.Segmentation = uint32(dev.Segmentation)
+		details, err := found.GetDeviceDetails(dev.ID.Instance)
 		if err != nil {
 			fmt.Println("discover err", err)
 		}
-		device.DeviceName = details.Name
-		device.VendorName = details.VendorName
-		devices = append(devices, device)
+		found.DeviceName = details.Name
+		found.VendorName = details.VendorName
+		devices = append(devices, found)
 
 	}
 	count := 1
-- 
2.43.0


From 379a18b00c8b12c141c43b527478ee7658b93641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 56/75] fix: read the details of a discovered device at its
 complete address

---
 network/whois.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/network/whois.go b/network/whois.go
index 74cb953..ff4e693 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -24,24 +24,13 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 	resp, err := net.bacnet.WhoIs(options)
 	var devices []btypes.Device
 	for _, device := range resp {
-		buildDevice := &btypes.Device{
-			DeviceID:      device.DeviceID,
-			Ip:            device.Ip,
-			Port:          device.Port,
-			NetworkNumber: device.NetworkNumber,
-			MacMSTP:       device.MacMSTP,
-			MaxApdu:       device.MaxApdu,
-			Segmentation:  device.Segmentation,
-		}
-		dev, err := btypes.NewDevice(buildDevice)
-		details, err := net.GetDeviceDetails(*dev)
+		// device has its complete address
+		details, err := net.GetDeviceDetails(device)
 		if err != nil {
 			return nil, err
 		}
 		device.DeviceName = details.Name
 		device.VendorName = details.VendorName
-		device.MaxApdu = details.MaxApdu
-		device.Segmentation = btypes.Enumerated(details.Segmentation)
 		devices = append(devices, device)
 	}
 	return devices, err
-- 
2.43.0


From 08380babf8ee5937d53b1c5147557fba73b57751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 57/75] fix: report values of an unexpected type instead of
 reading them as zero

---
 network/points.go  | 29 ++++++++++++++++++++++++++---
 network/strings.go | 19 ++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/network/points.go b/network/points.go
index 120aab7..732d77c 100644
--- a/network/points.go
+++ b/network/points.go
@@ -2,6 +2,7 @@ package network
 
 import (
 	"errors"
+	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/priority"
@@ -81,7 +82,11 @@ func (device *Device) PointReadFloat32(pnt *Point) (float32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toFloat(read), nil
+	ok, value := data.ToFloat32(read)
+	if !ok {
+		return 0, errUnexpectedType(read)
+	}
+	return value, nil
 }
 
 //PointReadPriority use this when wanting to read point values for an AI, AV, AO
@@ -101,6 +106,9 @@ func (device *Device) PointReadPriority(pnt *Point) (pri *priority.Float32, err
 	if err != nil {
 		return pri, err
 	}
+	if ok, _ := data.ToArr(read); !ok {
+		return pri, errUnexpectedType(read)
+	}
 	return priority.BuildFloat32(read, pnt.ObjectType), nil
 }
 
@@ -120,7 +128,11 @@ func (device *Device) PointReadBool(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	ok, value := data.ToUint32(read)
+	if !ok {
+		return 0, errUnexpectedType(read)
+	}
+	return value, nil
 }
 
 //PointReadMultiState use this when wanting to read point values for an MI, MV, MO
@@ -139,7 +151,11 @@ func (device *Device) PointReadMultiState(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	ok, value := data.ToUint32(read)
+	if !ok {
+		return 0, errUnexpectedType(read)
+	}
+	return value, nil
 }
 
 //PointReleasePriority use this when releasing a priority
@@ -229,6 +245,13 @@ func (device *Device) PointWriteMultiState(pnt *Point, value uint32) error {
 ***** HELPERS *****
  */
 
+func errUnexpectedType(d btypes.PropertyData) error {
+	if len(d.Object.Properties) == 0 {
+		return errors.New("no value returned")
+	}
+	return fmt.Errorf("value of an unexpected type %T", d.Object.Properties[0].Data)
+}
+
 func (device *Device) toFloat(d btypes.PropertyData) float32 {
 	_, out := data.ToFloat32(d)
 	return out
diff --git a/network/strings.go b/network/strings.go
index 9f5f26d..4dbec2e 100644
--- a/network/strings.go
+++ b/network/strings.go
@@ -3,6 +3,7 @@ package network
 import (
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
+	"github.com/NubeDev/bacnet/helpers/data"
 )
 
 //ReadString to read a string like objectName
@@ -11,7 +12,11 @@ func (device *Device) ReadString(obj *Object) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	ok, value := data.ToStr(read)
+	if !ok {
+		return "", errUnexpectedType(read)
+	}
+	return value, nil
 }
 
 func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, error) {
@@ -25,7 +30,11 @@ func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, er
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	ok, value := data.ToStr(read)
+	if !ok {
+		return "", errUnexpectedType(read)
+	}
+	return value, nil
 }
 
 func (device *Device) WriteDeviceName(ObjectID btypes.ObjectInstance, value string) error {
@@ -53,7 +62,11 @@ func (device *Device) ReadPointName(pnt *Point) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	ok, value := data.ToStr(read)
+	if !ok {
+		return "", errUnexpectedType(read)
+	}
+	return value, nil
 }
 
 func (device *Device) WritePointName(pnt *Point, value string) error {
-- 
2.43.0


From fa266e787633e024114d6280f4471e796de132bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 58/75] fix: report UCS-2 text with half a character as an
 error

---
 encoding/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/string.go b/encoding/string.go
index da16ddf..662fdaa 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -39,6 +39,9 @@ func (d *Decoder) string(s *string, len int) error {
 		return fmt.Errorf("unsupported string format %d", t)
 	}
 	b := d.octets(len)
+	if t == characterUCS2 && len%2 != 0 {
+		d.badLength("UCS-2 text", len)
+	}
 	if d.err != nil {
 		return d.err
 	}
-- 
2.43.0


From 66510d35d379d0d1ef36ee7422c70ba5fb675ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 59/75] fix: report a reject or abort that ends before its
 reason

---
 encoding/apdu.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index a405cf3..d0dca5a 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -2,6 +2,8 @@ package encoding
 
 import (
 	"fmt"
+	"io"
+
 	"github.com/NubeDev/bacnet/btypes/bacerr"
 
 	"github.com/NubeDev/bacnet/btypes"
@@ -86,6 +88,9 @@ func (d *Decoder) APDU(a *btypes.APDU) error {
 	case btypes.Reject, btypes.Abort:
 		// The reason is left as the data
 		d.decode(&a.InvokeId)
+		if d.err == nil && d.len() == 0 {
+			d.err = io.ErrUnexpectedEOF
+		}
 		return d.Error()
 	default:
 		return fmt.Errorf("Unknown PDU type:%d", a.DataType)
-- 
2.43.0


From d9d577f554e5d70e1d0ef2385695d9f2b5807440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 60/75] fix: report the fields of an I-Am that are of another
 numeric type

---
 encoding/iam.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index 540f758..40c1cf2 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -21,8 +21,20 @@ func (e *Encoder) IAm(id btypes.IAm) error {
 	return e.Error()
 }
 
+// iamField decodes a field of the I-Am, which has to be of the given type
+func (d *Decoder) iamField(want uint8, name string) (interface{}, error) {
+	tag, meta, length := d.tagNumberAndValue()
+	if d.err != nil {
+		return nil, d.err
+	}
+	if tag != want || meta.isContextSpecific() {
+		return nil, fmt.Errorf("expected the %s of the I-Am as tag %d, got tag %d", name, want, tag)
+	}
+	return d.AppDataOfTag(tag, int(length))
+}
+
 func (d *Decoder) IAm(id *btypes.IAm) error {
-	objID, err := d.AppData()
+	objID, err := d.iamField(tagObjectID, "object id")
 	if err != nil {
 		return err
 	}
@@ -31,7 +43,7 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 		return fmt.Errorf("expected the object id of the I-Am, got %T", objID)
 	}
 	id.ID = i
-	maxapdu, err := d.AppData()
+	maxapdu, err := d.iamField(tagUint, "maximum APDU")
 	if err != nil {
 		return err
 	}
@@ -40,7 +52,7 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 		return fmt.Errorf("expected the maximum APDU of the I-Am, got %T", maxapdu)
 	}
 	id.MaxApdu = m
-	segmentation, err := d.AppData()
+	segmentation, err := d.iamField(tagEnumerated, "segmentation")
 	if err != nil {
 		return err
 	}
@@ -49,7 +61,7 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 		return fmt.Errorf("expected the segmentation of the I-Am, got %T", segmentation)
 	}
 	id.Segmentation = btypes.Enumerated(s)
-	vendor, err := d.AppData()
+	vendor, err := d.iamField(tagUint, "vendor")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a019dd2699bf8be1eeb6bc42a2f176aac4b15b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 61/75] fix: ReadMultiProperty took an acknowledgement without
 any result for success

---
 readmulti.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/readmulti.go b/readmulti.go
index a098c26..e190ae9 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -106,5 +106,8 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
 		return out, err
 	}
+	if len(out.Objects) == 0 {
+		return out, fmt.Errorf("the acknowledgement of the read is empty")
+	}
 	return out, err
 }
-- 
2.43.0


From 2ca52bc91a2a38e09b07f194c53fc9768a67a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 62/75] fix: WhoIsRouterToNetwork lost messages whose first
 network number is 0 or 65535

---
 whoisrouter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whoisrouter.go b/whoisrouter.go
index f82aa26..41f6f17 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -37,7 +37,8 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 			errChan <- err
 		}()
 	})
-	values, err := c.utsm.Subscribe(1, 65534, send) //65534 is the max number a network can be
+	// A message is published under the first number it lists, whatever that is
+	values, err := c.utsm.Subscribe(0, 65535, send)
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-- 
2.43.0


From 2263de4a35a5d159c444007cf1a7fa99354a2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 63/75] fix: WhoIs changed the options of its caller

---
 whois.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whois.go b/whois.go
index 4d44793..72fcccb 100644
--- a/whois.go
+++ b/whois.go
@@ -23,8 +23,9 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	enc := encoding.NewEncoder()
 	low := wh.Low
 	high := wh.High
+	destNet := wh.NetworkNumber
 	if wh.GlobalBroadcast {
-		wh.NetworkNumber = btypes.GlobalBroadcast //65535
+		destNet = btypes.GlobalBroadcast //65535
 	}
 	if low <= 0 {
 		low = 0
@@ -33,7 +34,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		high = 4194304 //max dev id
 	}
 
-	dest.Net = wh.NetworkNumber
+	dest.Net = destNet
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &dest,
-- 
2.43.0


From 08f1b988286a5ad461e9369d65e68c674c0bd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 64/75] fix: IAm refuses an announcement that cannot be encoded

---
 iam.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iam.go b/iam.go
index aa0a677..0add7ac 100644
--- a/iam.go
+++ b/iam.go
@@ -22,7 +22,10 @@ func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.IAm(iam)
-	_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+	err := enc.IAm(iam)
+	if err != nil {
+		return err
+	}
+	_, err = c.Send(dest, npdu, enc.Bytes(), nil)
 	return err
 }
-- 
2.43.0


From 42f72788054779401dab8b0ca5f5fa81b8b314f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 65/75] fix: IAm sends the length of a remote MAC address

---
 iam.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iam.go b/iam.go
index 0add7ac..05623b8 100644
--- a/iam.go
+++ b/iam.go
@@ -10,6 +10,7 @@ not working
 */
 
 func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
+	dest.SetLength()
 	npdu := &btypes.NPDU{
 		Version:     btypes.ProtocolVersion,
 		Destination: &dest,
-- 
2.43.0


From 727425ed920703ed70803f2a7381c22cb1b04b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:11 +0000
Subject: [PATCH 66/75] fix: context-tagged values were decoded as the type
 their tag number has in application tags

A value in a context tag was taken for an application value of the type
with the same number, booleans without their octet, so that time stamps,
shed levels, subscriptions and members of groups came back as other
values or made the acknowledgement unreadable.
---
 encoding/context_tag.go     | 54 ++++++++++++++++++++++++++++++++-----
 encoding/readmultipleack.go | 17 ++++--------
 encoding/readprop.go        | 11 ++++++++
 3 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..973e869 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -3,13 +3,28 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 /* refer to https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacapp.c#L583 */
-/* returns the fixed tag type for certain context tagged properties */
-func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
-	tag := tagNumber
+/* returns the fixed tag type for certain context tagged properties, maxTag when it is not known.
+depth is the number of constructed values the tag is in */
+func tagTypeInContext(property btypes.PropertyType, tagNumber uint8, depth int) uint8 {
+	tag := maxTag
+	if depth > 0 {
+		switch property {
+		case btypes.PROP_ACTION:
+		case btypes.PROP_LIST_OF_GROUP_MEMBERS:
+			/* the property references of the ReadAccessSpecification */
+			switch tagNumber {
+			case 0:
+				tag = tagEnumerated
+			case 1:
+				tag = tagUint
+			}
+			return tag
+		default:
+			return tag
+		}
+	}
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_ACTUAL_SHED_LEVEL, btypes.PROP_REQUESTED_SHED_LEVEL, btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
@@ -79,6 +94,14 @@ func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
 			*/
 		}
 		break
+	case btypes.PROP_EVENT_TIME_STAMPS:
+		/* BACnetTimeStamp */
+		switch tagNumber {
+		case 0: /* time */
+			tag = tagTime
+		case 1: /* sequenceNumber */
+			tag = tagUint
+		}
 	case btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS:
 		/* BACnetCOVSubscription */
 		switch tagNumber {
@@ -95,3 +118,22 @@ func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
 
 	return tag
 }
+
+// contextData decodes the value of a context tag. It returns false for a value
+// of which the type is not known, which is skipped
+func (d *Decoder) contextData(property btypes.PropertyType, tagNumber uint8, depth int, length int) (interface{}, bool, error) {
+	tag := tagTypeInContext(property, tagNumber, depth)
+	switch tag {
+	case maxTag:
+		return nil, false, d.Skip(uint32(length))
+	case tagBool:
+		// In a context tag the value is an octet, not the length
+		b := d.octets(length)
+		if d.err == nil && length != 1 {
+			d.badLength("boolean", length)
+		}
+		return d.err == nil && b[0] != 0, true, d.err
+	}
+	data, err := d.AppDataOfTag(tag, length)
+	return data, true, err
+}
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 456d595..530dd19 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -187,18 +187,11 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 								depth++
 							}
 						} else {
-							lenValue := d.value(meta)
-							tag = tagTypeInContext(prop.Type, tag)
-							if tag == maxTag {
-								//skip unknown type
-								if err := d.Skip(lenValue); err != nil {
-									return err
-								}
-							} else {
-								data, err := d.AppDataOfTag(tag, int(lenValue))
-								if err != nil {
-									return err
-								}
+							data, known, err := d.contextData(prop.Type, tag, depth, int(d.value(meta)))
+							if err != nil {
+								return err
+							}
+							if known {
 								array = append(array, data)
 							}
 						}
diff --git a/encoding/readprop.go b/encoding/readprop.go
index c06084f..95d90cc 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -164,6 +164,17 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 					depth--
 					continue
 				}
+				if meta.isContextSpecific() {
+					data, known, err := d.contextData(prop.Type, tag, depth, int(d.value(meta)))
+					if err != nil {
+						d.err = err
+						return err
+					}
+					if known {
+						datalist = append(datalist, data)
+					}
+					continue
+				}
 				data, err := d.AppDataOfTag(tag, int(d.value(meta)))
 				if err != nil {
 					d.err = err
-- 
2.43.0


From b20d57469e31b3ad97489af1096c3f56ac544e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 67/75] fix: the list of times in an exception schedule was
 taken for a time stamp

ReadMultiplePropertyAck took every constructed value 2 for a date and time
and dropped whatever else it held.
---
 encoding/readmultipleack.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 530dd19..ffbca56 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -93,6 +93,15 @@ func (d *Decoder) bacError(errorClass, errorCode *uint32) error {
 	return nil
 }
 
+// atDateTime says whether a date and a time, and nothing else, come before the
+// closing tag of a time stamp
+func (d *Decoder) atDateTime() bool {
+	const size = 1 + int(dateLen) + 1 + int(timeLen)
+	b := d.buff.Bytes()
+	return len(b) > size && b[0] == tagDate<<4|uint8(dateLen) && b[1+dateLen] == tagTime<<4|uint8(timeLen) &&
+		b[size] == btypes.TimeStampDatetime<<4|contextSpecificBit|uint8(closingMask)
+}
+
 func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 	obj := btypes.Object{}
 	for d.Error() == nil && d.len() > 0 {
@@ -165,22 +174,15 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							}
 							depth--
 						} else if meta.isOpening() {
-							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
+							if tag == btypes.TimeStampDatetime && d.atDateTime() {
 								dt := &btypes.DataTime{}
-								for {
-									tag, meta, length = d.tagNumberAndValue()
-									if d.err != nil {
-										return d.err
-									}
-									if meta.isClosing() && tag == btypes.TimeStampDatetime {
-										break
-									} else if tag == tagDate {
-										d.date(&dt.Date, int(length))
-									} else if tag == tagTime {
-										d.time(&dt.Time, int(length))
-									} else if length > 0 {
-										d.Skip(length)
-									}
+								_, _, length = d.tagNumberAndValue()
+								d.date(&dt.Date, int(length))
+								_, _, length = d.tagNumberAndValue()
+								d.time(&dt.Time, int(length))
+								d.tagNumber()
+								if d.err != nil {
+									return d.err
 								}
 								array = append(array, dt)
 							} else {
-- 
2.43.0


From f7d9516ae0a00aa504a1a4f340f2bd5cfa54114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 68/75] fix: every Who-Is of a network or a device left a
 receive loop behind

---
 network/whois.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/network/whois.go b/network/whois.go
index ff4e693..45223e8 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -5,22 +5,40 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/helpers/data"
 	log "github.com/sirupsen/logrus"
+	"sync"
 )
 
+// running holds the clients that were started by a Who-Is
+var running sync.Map
+
+// runClient starts the listener of a client, once
+func runClient(client bacnet.Client) {
+	if client == nil {
+		return
+	}
+	if _, ok := running.LoadOrStore(client, true); ok {
+		return
+	}
+	go func() {
+		defer running.Delete(client)
+		client.ClientRun()
+	}()
+}
+
 func (device *Device) Whois(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
-	go device.network.ClientRun()
+	runClient(device.network)
 	resp, err := device.network.WhoIs(options)
 	return resp, err
 }
 
 func (net *Network) Whois(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
-	go net.NetworkRun()
+	runClient(net.bacnet)
 	resp, err := net.bacnet.WhoIs(options)
 	return resp, err
 }
 
 func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
-	go net.NetworkRun()
+	runClient(net.bacnet)
 	resp, err := net.bacnet.WhoIs(options)
 	var devices []btypes.Device
 	for _, device := range resp {
-- 
2.43.0


From 3bde2a6482f50fe9c690e668e7bbd72c8f3fda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 69/75] fix: what is stored under the id of the other kind
 panicked

---
 network/store.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/store.go b/network/store.go
index 2796c9c..f5b6408 100644
--- a/network/store.go
+++ b/network/store.go
@@ -55,7 +55,10 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
 	}
-	parse := cli.(*Network)
+	parse, ok := cli.(*Network)
+	if !ok {
+		return nil, fmt.Errorf("bacnet: what is stored with uuid:%s is not a network", uuid)
+	}
 	return parse, nil
 }
 
@@ -92,6 +95,9 @@ func (store *Store) GetDevice(uuid string) (*Device, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
 	}
-	parse := cli.(*Device)
+	parse, ok := cli.(*Device)
+	if !ok {
+		return nil, fmt.Errorf("bacnet: what is stored with uuid:%s is not a device", uuid)
+	}
 	return parse, nil
 }
-- 
2.43.0


From b064eaa5004c027cb20aac46483fd471599240b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 70/75] fix: a port, network number or MAC out of range was cut
 to another one

---
 btypes/device.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/btypes/device.go b/btypes/device.go
index 938efc9..d0049c4 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -75,6 +75,14 @@ func NewDevice(device *Device) (*Device, error) {
 	ok = validation.ValidPort(port)
 	if !ok {
 		fmt.Println("fail port")
+		return nil, fmt.Errorf("invalid port: %d", port)
+	}
+	//check network number and mac
+	if device.NetworkNumber < 0 || device.NetworkNumber > 0xFFFF {
+		return nil, fmt.Errorf("invalid network number: %d", device.NetworkNumber)
+	}
+	if device.MacMSTP < 0 || device.MacMSTP > 0xFF {
+		return nil, fmt.Errorf("invalid mac: %d", device.MacMSTP)
 	}
 
 	ip, err := ip2bytes.New(device.Ip, uint16(port))
-- 
2.43.0


From 020719e1692efd3441befcb2b14fb08768d19858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 71/75] fix: values between tags that do not belong together
 were decoded as an acknowledgement

---
 encoding/decoder.go         |  5 +++++
 encoding/general.go         |  4 ++--
 encoding/readmultipleack.go | 15 ++++++++++-----
 encoding/readprop.go        | 35 ++++++++++++++++++++++++-----------
 4 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 3c54054..51787c1 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -111,6 +111,11 @@ func (d *Decoder) value(meta tagMeta) (value uint32) {
 	} else if meta.isOpening() || meta.isClosing() {
 		return 0
 	}
+	if length := meta & tagMask; length == openingMask || length == closingMask {
+		// Only a context tag opens or closes a constructed value
+		d.badLength("application tag", int(length))
+		return 0
+	}
 	return uint32(meta & 0x07)
 }
 func (d *Decoder) tagNumberAndValue() (tag uint8, meta tagMeta, value uint32) {
diff --git a/encoding/general.go b/encoding/general.go
index e3bca5c..f21fe2a 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -54,7 +54,7 @@ func (t *tagMeta) setClosing() {
 }
 
 func (t *tagMeta) isClosing() bool {
-	return ((*t & closingMask) == closingMask)
+	return t.isContextSpecific() && ((*t & closingMask) == closingMask)
 }
 
 func (t *tagMeta) setOpening() {
@@ -63,7 +63,7 @@ func (t *tagMeta) setOpening() {
 }
 
 func (t *tagMeta) isOpening() bool {
-	return ((*t & closingMask) == openingMask)
+	return t.isContextSpecific() && ((*t & closingMask) == openingMask)
 }
 
 func (t *tagMeta) Clear() {
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index ffbca56..67bb367 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -113,6 +113,8 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			return &ErrorIncorrectTag{Expected: 0, Given: tag}
 		} else if !meta.isContextSpecific() {
 			return &ErrorWrongTagType{ContextTag}
+		} else if length != objectIDLen {
+			d.badLength("object id", int(length))
 		}
 		obj.ID.Type, obj.ID.Instance = d.objectId()
 
@@ -159,20 +161,23 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 				if d.err != nil {
 					return d.err
 				}
-				depth := 0 // constructed values that are still open
+				var open []uint8 // tags of the constructed values that are still open
 				for {
 					if d.err != nil {
 						return d.err
 					}
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
-							if depth == 0 {
+							if len(open) == 0 {
 								if tag != 4 {
 									return &ErrorIncorrectTag{Expected: 4, Given: tag}
 								}
 								break
 							}
-							depth--
+							if last := open[len(open)-1]; tag != last {
+								return &ErrorIncorrectTag{Expected: last, Given: tag}
+							}
+							open = open[:len(open)-1]
 						} else if meta.isOpening() {
 							if tag == btypes.TimeStampDatetime && d.atDateTime() {
 								dt := &btypes.DataTime{}
@@ -186,10 +191,10 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 								}
 								array = append(array, dt)
 							} else {
-								depth++
+								open = append(open, tag)
 							}
 						} else {
-							data, known, err := d.contextData(prop.Type, tag, depth, int(d.value(meta)))
+							data, known, err := d.contextData(prop.Type, tag, len(open), int(d.value(meta)))
 							if err != nil {
 								return err
 							}
diff --git a/encoding/readprop.go b/encoding/readprop.go
index 95d90cc..2f5f6d0 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -87,7 +87,7 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	}
 
 	// Tag 0: Object ID
-	tag, meta := d.tagNumber()
+	tag, meta, lenValue := d.tagNumberAndValue()
 
 	var expectedTag uint8
 	if tag != expectedTag {
@@ -100,6 +100,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if !meta.isContextSpecific() {
 		return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
 	}
+	if lenValue != objectIDLen {
+		d.badLength("object id", int(lenValue))
+	}
 	objectType, instance = d.objectId()
 	data.Object.ID.Type = objectType
 	data.Object.ID.Instance = instance
@@ -110,8 +113,11 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 		return &ErrorIncorrectTag{expectedTag, tag}
 	}
 	expectedTag++
+	if !meta.isContextSpecific() {
+		return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
+	}
 
-	lenValue := d.value(meta)
+	lenValue = d.value(meta)
 
 	var prop btypes.Property
 	prop.Type = btypes.PropertyType(d.enumerated(int(lenValue)))
@@ -133,6 +139,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 		// I tried to not use magic numbers but it doesn't look like it can be avoided
 		// If the attag we receive is a tag of 2 then set the value
 		if tag == 2 {
+			if !meta.isContextSpecific() {
+				return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
+			}
 			prop.ArrayIndex = d.unsigned(int(lenValue))
 			if d.len() > 0 {
 				openTag, meta = d.tagNumber()
@@ -142,30 +151,34 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 			prop.ArrayIndex = ArrayAll
 		}
 
-		if openTag == 3 {
+		if openTag == 3 && meta.isOpening() {
 			var err error
 			datalist := make([]interface{}, 0)
 
-			depth := 0 // constructed values that are still open
+			var open []uint8 // tags of the constructed values that are still open
 			// The values end at the closing tag
 			for {
 				tag, meta = d.tagNumber()
 				if d.err != nil {
 					return d.err
 				}
-				if meta.isContextSpecific() && meta.isOpening() {
-					depth++
+				if meta.isOpening() {
+					open = append(open, tag)
 					continue
 				}
-				if meta.isContextSpecific() && meta.isClosing() {
-					if depth == 0 {
+				if meta.isClosing() {
+					if len(open) == 0 {
 						break
 					}
-					depth--
+					if last := open[len(open)-1]; tag != last {
+						d.err = &ErrorIncorrectTag{last, tag}
+						return d.err
+					}
+					open = open[:len(open)-1]
 					continue
 				}
 				if meta.isContextSpecific() {
-					data, known, err := d.contextData(prop.Type, tag, depth, int(d.value(meta)))
+					data, known, err := d.contextData(prop.Type, tag, len(open), int(d.value(meta)))
 					if err != nil {
 						d.err = err
 						return err
@@ -196,7 +209,7 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 				d.err = err
 				return err
 			}
-		} else if d.len() > 0 {
+		} else if openTag != 0 || d.len() > 0 {
 			return &ErrorIncorrectTag{3, openTag}
 		}
 	} else {
-- 
2.43.0


From fe7b9e66409055fabcdf04be9145dde6f30b4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 72/75] fix: a network without a store panicked or left its
 port open

---
 network/base.go   | 12 +++++++-----
 network/device.go |  6 +++---
 network/store.go  | 14 ++++++++------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/network/base.go b/network/base.go
index ffd4269..6237676 100644
--- a/network/base.go
+++ b/network/base.go
@@ -18,6 +18,12 @@ type Network struct {
 
 // New returns a new instance of bacnet network
 func New(net *Network) (*Network, error) {
+	if net == nil {
+		return nil, errors.New("network can not be nil")
+	}
+	if net.Store == nil || net.Store.BacStore == nil {
+		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  net.Interface,
 		Ip:         net.Ip,
@@ -29,11 +35,7 @@ func New(net *Network) (*Network, error) {
 		return nil, err
 	}
 	net.bacnet = bc
-	if net.Store.BacStore != nil {
-		net.Store.BacStore.Set(net.StoreID, net, -1)
-	} else {
-		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
-	}
+	net.Store.BacStore.Set(net.StoreID, net, -1)
 	return net, nil
 }
 
diff --git a/network/device.go b/network/device.go
index 79b6558..accc240 100644
--- a/network/device.go
+++ b/network/device.go
@@ -1,6 +1,7 @@
 package network
 
 import (
+	"errors"
 	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
@@ -25,8 +26,7 @@ type Device struct {
 func NewDevice(net *Network, device *Device) (*Device, error) {
 	var err error
 	if net == nil {
-		fmt.Println("network can not be nil")
-		return nil, err
+		return nil, errors.New("network can not be nil")
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
@@ -47,7 +47,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	device.network = net.bacnet
 	device.dev = *dev
-	if net.Store.BacStore != nil {
+	if net.Store != nil && net.Store.BacStore != nil {
 		net.Store.BacStore.Set(device.StoreID, device, -1)
 	}
 	return device, nil
diff --git a/network/store.go b/network/store.go
index f5b6408..ed257da 100644
--- a/network/store.go
+++ b/network/store.go
@@ -23,6 +23,9 @@ func NewStore() *Store {
 
 //NewNetwork updated a cached
 func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) error {
+	if store.BacStore == nil {
+		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  iface,
 		Ip:         ip,
@@ -42,12 +45,8 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		Store:      store,
 		bacnet:     bc,
 	}
-	if store.BacStore != nil {
-		store.BacStore.Set(storeID, bacnetNet, -1)
-		return nil
-	} else {
-		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
-	}
+	store.BacStore.Set(storeID, bacnetNet, -1)
+	return nil
 }
 
 func (store *Store) GetNetwork(uuid string) (*Network, error) {
@@ -65,6 +64,9 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 //UpdateDevice updated a cached device
 func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) error {
 	var err error
+	if net == nil {
+		return errors.New("network can not be nil")
+	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
 		Port:          device.Port,
-- 
2.43.0


From 48380266b0d8406c8136d698f18c0bc34bf33d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 73/75] fix: a bit string of a negative size panicked

---
 btypes/bitstring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 2353e09..6e099fd 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -13,6 +13,9 @@ func NewBitString(bufferSize int) *BitString {
 	if bufferSize > MaxBitStringBytes {
 		bufferSize = MaxBitStringBytes
 	}
+	if bufferSize < 0 {
+		bufferSize = 0
+	}
 	return &BitString{
 		BitUsed: 0,
 		Value:   make([]byte, bufferSize),
-- 
2.43.0


From edbe2461a25147756d436995f2f528d3d3dacd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 74/75] fix: the inventory of a device with a larger maximum
 APDU than the client's asked for more than the client accepts, in requests of
 any size

---
 objectlist.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 68d4187..7ee5541 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -3,6 +3,7 @@ package bacnet
 import (
 	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
+	"github.com/NubeDev/bacnet/encoding"
 )
 
 // sameProperties reports whether exactly what was asked for was returned
@@ -110,7 +111,11 @@ func (c *client) objectList(dev *btypes.Device) error {
 	}
 
 	// Scan size is broken
-	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	maxApdu := dev.MaxApdu
+	if maxApdu > encoding.MaxAPDU { // the answer has to be one that this client accepts
+		maxApdu = encoding.MaxAPDU
+	}
+	scanSize := int(maxApdu) / readPropRequestSize
 	if scanSize < 1 {
 		return fmt.Errorf("maximum APDU of %d is too small", dev.MaxApdu)
 	}
-- 
2.43.0


From a8a5bc2c2c0d04430c0e930a7dfc5c19cedbbc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:33 +0000
Subject: [PATCH 75/75] fix: closing a client with its logs does not close the
 standard error of the process

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 0d6a1c0..e953243 100644
--- a/device.go
+++ b/device.go
@@ -11,6 +11,7 @@ import (
 	"github.com/NubeDev/bacnet/utsm"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"os"
 	"sync"
 	"time"
 )
@@ -302,7 +303,8 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 func (c *client) ClientClose(closeLogs bool) error {
 	err := c.Close()
 	if closeLogs {
-		if f, ok := c.log.Out.(io.Closer); ok {
+		// The standard error belongs to the process, and not to one client of it
+		if f, ok := c.log.Out.(io.Closer); ok && c.log.Out != os.Stderr {
 			return f.Close()
 		}
 	}
-- 
2.43.0

