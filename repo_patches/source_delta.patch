From 3e772570e70efe0f52447a9e2f2504b29a59dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:45 +0000
Subject: [PATCH 01/35] fix: ihex32 reports malformed lines instead of silently
 dropping the rest of the chunk

---
 ihex32/hex.go    | 26 ++++++++++++++++++++++----
 ihex32/record.go |  2 +-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..f83c711 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -8,6 +8,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"unicode"
 
 	"github.com/rs/zerolog/log"
 )
@@ -110,6 +111,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//every parser goroutine sends at most one error, so sending never blocks
+	errChan := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +123,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errChan, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +131,12 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//all parser goroutines are done, a malformed line must not be mistaken for a gap in the data
+	select {
+	case err = <-errChan:
+		return h, err
+	default:
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -238,14 +247,15 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, errChan chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if !isBlankLine(l) {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("record could not be parsed")
+				errChan <- err
 				break forLoop
 			}
 			recs = append(recs, r)
@@ -255,6 +265,14 @@ forLoop:
 	close(c)
 }
 
+// isBlankLine reports whether a line contains no printable characters at all.
+// besides empty lines this also covers the ctrl-z some tools append to the end of the file.
+func isBlankLine(line string) bool {
+	return strings.IndexFunc(line, func(r rune) bool {
+		return unicode.IsGraphic(r) && !unicode.IsSpace(r)
+	}) == -1
+}
+
 // hexToByte converts a two character hexString to a single byte. fails if input is too long or not valid hex.
 func hexToByte(str string) (byte, error) {
 	var err error
diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..b485ed6 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -27,7 +27,7 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	if line[0] == beginLineToken[0] && len(line) >= 11 {
+	if len(line) >= 11 && line[0] == beginLineToken[0] {
 		r.byteCount = line[1:3]
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
-- 
2.43.0


From fa155b48ee27120d7f7f2ea47f4156946d2f7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/35] fix: ihex32 rejects records whose length contradicts
 their byte count

---
 ihex32/record.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ihex32/record.go b/ihex32/record.go
index b485ed6..140b7ce 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -34,6 +34,15 @@ func parseRecord(line string) (*record, error) {
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
+		//the number of data bytes has to match the byte count, otherwise the line has been truncated or extended
+		count, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 11+2*int(count) {
+			err = errors.New("record length does not match its byte count")
+			return &r, err
+		}
 		if r.recordType == extendedLinearAddressRecordToken {
 			if len(line) >= 13 {
 				r.offset = line[9:13]
-- 
2.43.0


From 44c62958a0cd74ed48e0ce0cc79d33bd74778282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:03 +0000
Subject: [PATCH 03/35] fix: ihex32 keeps propagating address offsets after an
 offset record of 0000

---
 ihex32/record.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 140b7ce..d4fc7f1 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -75,7 +75,8 @@ forLoop:
 			offs = recs[i].offset
 			firstRecordAfterNewOffset = true
 		} else if recs[i].recordType == dataRecordToken {
-			if firstRecordAfterNewOffset && recs[i].offset == offs {
+			//offset 0000 is the init value, so it does not tell whether another routine has already been here.
+			if firstRecordAfterNewOffset && recs[i].offset == offs && offs != "0000" {
 				recs[i].rwm.Unlock()
 				break forLoop
 			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
-- 
2.43.0


From c54fa5a8fce37f2ad677b0878ebe3ad66d128d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:04 +0000
Subject: [PATCH 04/35] fix: ihex32 data records crossing a 64kB border carry
 into the upper address bytes

---
 ihex32/record.go | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index d4fc7f1..1d5adcb 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -183,35 +183,24 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 	var err error
 	var bs []byte
 	var b byte
-	var lineAddress uint16
+	var lineAddress uint32
 
 	for i, s := range r.data {
-
-		//add index position to the address of the line to get the individual byte position
-		bs, err = HexToByteSlice(r.addressField)
-		if err != nil {
-			return d, err
-		}
-		//convert bytes to uint16, add index
-		lineAddress = binary.BigEndian.Uint16(bs)
-		lineAddress = lineAddress + uint16(i)
-		//create 2 byte buffer
-		lineAddressBytes := []byte{0, 0}
-		//fill byte slice buffer with thenew value of line address
-		binary.BigEndian.PutUint16(lineAddressBytes, lineAddress)
-		//convert offset string to byte slice
-		bs, err = HexToByteSlice(r.offset)
+		//the offset contains the upper and the address field the lower 2 byte of the address of the line
+		bs, err = HexToByteSlice(r.offset + r.addressField)
 		if err != nil {
 			return d, err
 		}
-		//add the offset to the existing address
-		bs = append(bs, lineAddressBytes...)
+		//convert bytes to uint32, add index position to the address of the line to get the individual byte position.
+		//a record may cross a 64kB border, so the index has to carry over into the upper 2 byte.
+		lineAddress = binary.BigEndian.Uint32(bs)
+		lineAddress = lineAddress + uint32(i)
 		b, err = hexToByte(s)
 		if err != nil {
 			return d, err
 		}
 		//construct data with final uint32 address and a byte as value
-		d = append(d, dataByte{address: binary.BigEndian.Uint32(bs), value: b})
+		d = append(d, dataByte{address: lineAddress, value: b})
 	}
 	return d, nil
 }
-- 
2.43.0


From 4cd33fdda5e42c1db7e9b5553286ec488cf461a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:17 +0000
Subject: [PATCH 05/35] fix: ihex32 rejects record types it cannot honour
 instead of misplacing data

---
 ihex32/record.go | 13 +++++++++----
 ihex32/tokens.go |  8 +++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 1d5adcb..2bdf82d 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -43,15 +43,20 @@ func parseRecord(line string) (*record, error) {
 			err = errors.New("record length does not match its byte count")
 			return &r, err
 		}
-		if r.recordType == extendedLinearAddressRecordToken {
-			if len(line) >= 13 {
+		switch r.recordType {
+		case extendedLinearAddressRecordToken:
+			if len(r.data) == 2 {
 				r.offset = line[9:13]
 			} else {
-				err := errors.New("line is too short to parse extended address record")
+				err = errors.New("extended address record does not contain exactly 2 bytes")
 				return &r, err
 			}
-		} else {
+		case dataRecordToken, endOfFileToken, startSegmentAddressRecordToken, startLinearAddressRecordToken:
 			r.offset = "0000"
+		default:
+			//e.g. segment addresses are not part of the 32 bit format, ignoring them would misplace the data that follows
+			err = errors.New("unsupported record type " + r.recordType)
+			return &r, err
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
diff --git a/ihex32/tokens.go b/ihex32/tokens.go
index 8cf284d..fa1145d 100644
--- a/ihex32/tokens.go
+++ b/ihex32/tokens.go
@@ -3,11 +3,9 @@ package ihex32
 //const emptyToken = ""
 const beginLineToken = ":"
 const dataRecordToken = "00"
-
-//const endOfFileToken = "01"
+const endOfFileToken = "01"
 
 //const extendedSegmentAddressRecordToken = "02"
-//const startSegmentAddressRecordToken = "03"
+const startSegmentAddressRecordToken = "03"
 const extendedLinearAddressRecordToken = "04"
-
-//const startLinearAddressRecordToken = "05"
+const startLinearAddressRecordToken = "05"
-- 
2.43.0


From 2349070d20cc86c2c405e3b7fc406bccbfa7697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:43 +0000
Subject: [PATCH 06/35] fix: srec19 honours all record types and reports
 malformed lines instead of dropping the rest of the chunk

---
 srec19/hex.go    | 26 ++++++++++++++++++++++----
 srec19/record.go | 38 +++++++++++++++++++++++++++-----------
 srec19/tokens.go |  8 ++++++++
 3 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..337c7ca 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -8,6 +8,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"unicode"
 
 	"github.com/rs/zerolog/log"
 )
@@ -110,6 +111,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//every parser goroutine sends at most one error, so sending never blocks
+	errChan := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +123,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errChan, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +131,12 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//all parser goroutines are done, a malformed line must not be mistaken for a gap in the data
+	select {
+	case err = <-errChan:
+		return h, err
+	default:
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -227,14 +236,15 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, errChan chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if !isBlankLine(l) {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("record could not be parsed")
+				errChan <- err
 				break forLoop
 			}
 			recs = append(recs, r)
@@ -244,6 +254,14 @@ forLoop:
 	close(c)
 }
 
+// isBlankLine reports whether a line contains no printable characters at all.
+// besides empty lines this also covers the ctrl-z some tools append to the end of the file.
+func isBlankLine(line string) bool {
+	return strings.IndexFunc(line, func(r rune) bool {
+		return unicode.IsGraphic(r) && !unicode.IsSpace(r)
+	}) == -1
+}
+
 // hexToByte converts a two character hexString to a single byte. fails if input is too long or not valid hex.
 func hexToByte(str string) (byte, error) {
 	var err error
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..638d807 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -3,6 +3,7 @@ package srec19
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"sync"
 )
 
@@ -26,20 +27,30 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
+	if len(line) < 4 || line[0] != beginLineToken[0] {
+		err := errors.New("entry has no begin line symbol or is too short")
+		return &r, err
+	}
 	r.recordType = line[1:2]
-	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
-		r.byteCount = line[2:4]
-		r.addressField = line[4:12]
-		for i := 12; i < len(line)-3; i += 2 {
-			r.data = append(r.data, line[i:i+2])
-		}
-		r.checksum = line[len(line)-2:]
-		return &r, nil
-	} else {
+	addressLength, exists := addressLengths[r.recordType]
+	if !exists {
+		err := errors.New("unknown record type " + r.recordType)
+		return &r, err
+	}
+	r.byteCount = line[2:4]
+	//the byte count includes the address and the checksum
+	dataStart := 4 + 2*addressLength
+	if len(line) < dataStart+2 {
 		err := errors.New("entry has no begin line symbol or is too short")
 		return &r, err
 	}
-
+	//shorter addresses are filled up to 4 byte, which does not affect the checksum
+	r.addressField = strings.Repeat("00", 4-addressLength) + line[4:dataStart]
+	for i := dataStart; i < len(line)-3; i += 2 {
+		r.data = append(r.data, line[i:i+2])
+	}
+	r.checksum = line[len(line)-2:]
+	return &r, nil
 }
 
 // validateChecksumsRoutine calls the validateChecksum Method for each record
@@ -123,7 +134,7 @@ func calcDataRoutine(c chan []dataByte, recs []*record) {
 	var ds []dataByte
 	var err error
 	for _, r := range recs {
-		if r.recordType == dataRecordToken {
+		if r.isDataRecord() {
 			d, err = r.calcDataEntries()
 			if err != nil {
 				c <- []dataByte{}
@@ -135,6 +146,11 @@ func calcDataRoutine(c chan []dataByte, recs []*record) {
 	close(c)
 }
 
+// isDataRecord reports whether the record contributes data, as opposed to header, count and termination records.
+func (r *record) isDataRecord() bool {
+	return r.recordType == dataRecord16Token || r.recordType == dataRecord24Token || r.recordType == dataRecordToken
+}
+
 // calcDataEntries calculates all data entries with their final addresses.
 func (r *record) calcDataEntries() ([]dataByte, error) {
 	var dataBytes []dataByte
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..6b5eaa2 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -2,4 +2,12 @@ package srec19
 
 //const emptyToken = ""
 const beginLineToken = "S"
+const dataRecord16Token = "1"
+const dataRecord24Token = "2"
 const dataRecordToken = "3"
+
+// addressLengths contains the number of address bytes of each record type.
+var addressLengths = map[string]int{
+	"0": 2, dataRecord16Token: 2, dataRecord24Token: 3, dataRecordToken: 4,
+	"5": 2, "6": 3, "7": 4, "8": 3, "9": 2,
+}
-- 
2.43.0


From bda413067db63a76ff293a6c6cfd8c5229c8df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:45 +0000
Subject: [PATCH 07/35] fix: srec19 rejects records whose length contradicts
 their byte count

---
 srec19/record.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/srec19/record.go b/srec19/record.go
index 638d807..d95ba53 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -50,6 +50,15 @@ func parseRecord(line string) (*record, error) {
 		r.data = append(r.data, line[i:i+2])
 	}
 	r.checksum = line[len(line)-2:]
+	//the record length has to match the byte count, otherwise the line has been truncated or extended
+	count, err := hexToByte(r.byteCount)
+	if err != nil {
+		return &r, err
+	}
+	if len(line) != 4+2*int(count) {
+		err = errors.New("record length does not match its byte count")
+		return &r, err
+	}
 	return &r, nil
 }
 
-- 
2.43.0


From bf9f041c0e3153f75b90b4b6301b9375e3baa303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:33 +0000
Subject: [PATCH 08/35] fix: a2l ADDRESS_TYPE and ENCODING read their value
 instead of their own keyword

---
 a2l/blob.go                    | 1 +
 a2l/characteristic.go          | 1 +
 a2l/enums.go                   | 2 ++
 a2l/instance.go                | 1 +
 a2l/structure_component.go     | 1 +
 a2l/type_def_blob.go           | 1 +
 a2l/type_def_characteristic.go | 5 +++--
 a2l/type_def_structure.go      | 1 +
 8 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/characteristic.go b/a2l/characteristic.go
index d7a882b..e3e8508 100644
--- a/a2l/characteristic.go
+++ b/a2l/characteristic.go
@@ -134,6 +134,7 @@ forLoop:
 			}
 			log.Info().Msg("characteristic displayIdentifier successfully parsed")
 		case encodingToken:
+			tok.next()
 			c.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("characteristic encoding could not be parsed")
diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..9f9cdf1 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..02817d7 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,13 +73,14 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
+			tok.next()
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
 				break forLoop
 			}
-			log.Info().Msg("typeDefCharacteristic displayIdentifier successfully parsed")
+			log.Info().Msg("typeDefCharacteristic encoding successfully parsed")
 		case extendedLimitsToken:
 			tdc.extendedLimits, err = parseExtendedLimits(tok)
 			if err != nil {
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From c65bcfce7c42d0420be2a67538e40ec473b50431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:52 +0000
Subject: [PATCH 09/35] fix: a2l measurements keep their conversion and parse
 the attributes that follow it

---
 a2l/measurement.go          | 1 +
 a2l/type_def_measurement.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..9072b43 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,7 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..2d7bd6a 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,7 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From 676e5f87ef2277da8f57699c61ebd025ceac0205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:55 +0000
Subject: [PATCH 10/35] fix: a2l MATRIX_DIM stores every dimension in its own
 field

---
 a2l/matrix_dim.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..17fc1c6 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
-- 
2.43.0


From edd06b78b811e55a85c2c4c1e05d7e3f2247661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:20 +0000
Subject: [PATCH 11/35] fix: a2l accepts the ALTERNATE_* index modes

---
 a2l/tokens.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..64cd0db 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
-- 
2.43.0


From 659586c03c9912f6d017c5f3780d7da9b9a0cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:23 +0000
Subject: [PATCH 12/35] fix: a2l MATRIX_DIM may be followed by READ_ONLY or
 READ_WRITE

---
 a2l/matrix_dim.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 17fc1c6..5d66697 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -37,7 +37,8 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("matrixDim could not be parsed")
 			break forLoop
-		} else if isKeyword(tok.current()) {
+		} else if isKeyword(tok.current()) || tok.current() == readOnlyToken || tok.current() == readWriteToken {
+			//READ_ONLY and READ_WRITE are not part of the keyword list but can follow the dimensions as well.
 			//see above comment
 			log.Info().Str("current token", tok.current()).Msg("matrixDim detected keyword:")
 			tok.previous()
-- 
2.43.0


From fb865e018c6a83d8235c66e28e9e25f554fb21b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:26 +0000
Subject: [PATCH 13/35] fix: a2l OVERWRITE stores the values of CONVERSION and
 INPUT_QUANTITY

---
 a2l/overwrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..0fd0ed7 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,7 +28,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
-			o.conversion = tok.current()
+			o.conversion = tok.next()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
 			o.extendedLimits, err = parseExtendedLimits(tok)
@@ -45,7 +45,7 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
-			o.inputQuantity = tok.current()
+			o.inputQuantity = tok.next()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
 			o.limits, err = parseLimits(tok)
-- 
2.43.0


From 4337f1e90a07d91a5a8b5f97e0c06e0d8eaf23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:29 +0000
Subject: [PATCH 14/35] fix: a2l FRAME stores every attribute in its own field

---
 a2l/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..04bb314 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -51,8 +51,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +63,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +72,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
-- 
2.43.0


From 11b80a750e0e943a0421a157961cdbe969b891b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:42 +0000
Subject: [PATCH 15/35] fix: a2l UNIT stores every attribute in its own field

---
 a2l/unit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..4df6c92 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,7 +64,7 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
+				u.longIdentifierSet = true
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
-- 
2.43.0


From 2c41d1e23782212cac44377d3ee8ef0e2f0c8387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:45 +0000
Subject: [PATCH 16/35] fix: a2l MEMORY_SEGMENT stores all five offsets

---
 a2l/memory_segment.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..9c9382e 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -28,6 +28,7 @@ type memorySegment struct {
 
 func parseMemorySegment(tok *tokenGenerator) (memorySegment, error) {
 	ms := memorySegment{}
+	numOffsets := 0
 	var err error
 forLoop:
 	for {
@@ -91,10 +92,9 @@ forLoop:
 				ms.size = tok.current()
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
-				for i := 0; i < 5; i++ {
-					ms.offset[i] = tok.current()
-				}
-				ms.offsetSet = true
+				ms.offset[numOffsets] = tok.current()
+				numOffsets++
+				ms.offsetSet = numOffsets == len(ms.offset)
 			}
 		}
 	}
-- 
2.43.0


From 77071ea86ddcfd1c6222338fb7328b74646dcf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:36 +0000
Subject: [PATCH 17/35] fix: a2l words containing a slash do not end the token
 list

---
 a2l/token_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..cd892c4 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -198,7 +198,7 @@ start:
 			return emptyToken, err
 		}
 		goto start //if you use recursion then defer will stack up until you finally return and then jump x number of valid tokens.
-	} else if strings.Contains(t, slashToken) && !strings.Contains(t, endMultilineCommentToken) {
+	} else if t == "/begin" || t == "/end" {
 		twoWordedKeyword, err := getTwoWordedToken(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
 			return emptyToken, err
-- 
2.43.0


From 6205f738c4bb153f63a7e6ac2851b65345c6d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:53 +0000
Subject: [PATCH 18/35] fix: a2l comments are removed before the file is
 distributed among the tokenizers

---
 a2l/token_generator.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index cd892c4..ff33e1c 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -47,6 +47,10 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	//replace escaped quotation marks
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
+	//remove comments before the text is distributed, because a goroutine can not know
+	//whether the lines it is given start in the middle of a comment
+	str = removeComments(str)
+
 	//Split text file into lines and the lines into words separated by whitespace
 	var locTokens []chan []string
 	tokenList = make([]string, 0, expectedNumberOfTokens)
@@ -85,6 +89,44 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
+// removeComments replaces every comment by a space.
+// comment characters within quotation marks do not start a comment.
+func removeComments(str string) string {
+	var sb strings.Builder
+	sb.Grow(len(str))
+	inString := false
+	//start marks the beginning of the text that has not been written yet
+	start := 0
+	for i := 0; i < len(str); i++ {
+		if str[i] == quotationMarkToken[0] {
+			inString = !inString
+		} else if str[i] == slashToken[0] && !inString {
+			var delimiter string
+			if strings.HasPrefix(str[i:], beginLineCommentToken) {
+				delimiter = "\n"
+			} else if strings.HasPrefix(str[i:], beginMultilineCommentToken) {
+				delimiter = endMultilineCommentToken
+			} else {
+				continue
+			}
+			sb.WriteString(str[start:i])
+			sb.WriteString(spaceToken)
+			end := strings.Index(str[i+2:], delimiter)
+			if end == -1 {
+				return sb.String()
+			}
+			i = i + 2 + end
+			if delimiter == endMultilineCommentToken {
+				i += len(delimiter)
+			}
+			start = i
+			i--
+		}
+	}
+	sb.WriteString(str[start:])
+	return sb.String()
+}
+
 func tokenBuilderRoutine(lines []string, c chan []string) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
-- 
2.43.0


From b63d389dfd37894dfb73073220ff16a9f933f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:56 +0000
Subject: [PATCH 19/35] fix: a2l strings and two worded keywords are not torn
 apart between tokenizers

---
 a2l/token_generator.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index ff33e1c..407c76d 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -55,17 +55,10 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	var locTokens []chan []string
 	tokenList = make([]string, 0, expectedNumberOfTokens)
 	lines := strings.Split(str, "\n")
-	for i := 0; i < numProc; i++ {
-		//calculate start and end for the slices each go routine is given to parse
-		start := (len(lines) / numProc) * i
-		end := start + (len(lines) / numProc)
-		if i+1 == numProc {
-			//integer divisions might round up or down, so we make sure that we get the "real" end here
-			end = len(lines)
-		}
+	for _, l := range splitLines(lines) {
 		c := make(chan []string, 1)
 		locTokens = append(locTokens, c)
-		go tokenBuilderRoutine(lines[start:end], c)
+		go tokenBuilderRoutine(l, c)
 	}
 	//collect token lists from channels
 	for _, c := range locTokens {
@@ -127,6 +120,28 @@ func removeComments(str string) string {
 	return sb.String()
 }
 
+// splitLines divides the lines into at most numProc slices that can be tokenized independently of each other.
+// a slice never ends within quotation marks or between a "/begin" or "/end" and the keyword belonging to it.
+func splitLines(lines []string) [][]string {
+	var slices [][]string
+	start := 0
+	inString := false
+	inKeyword := false
+	for i, l := range lines {
+		if len(slices) < numProc-1 && i >= (len(lines)/numProc)*(len(slices)+1) && !inString && !inKeyword {
+			slices = append(slices, lines[start:i])
+			start = i
+		}
+		if strings.Count(l, quotationMarkToken)%2 != 0 {
+			inString = !inString
+		}
+		if trimmed := strings.TrimSpace(l); trimmed != emptyToken {
+			inKeyword = strings.HasSuffix(trimmed, "/begin") || strings.HasSuffix(trimmed, "/end")
+		}
+	}
+	return append(slices, lines[start:])
+}
+
 func tokenBuilderRoutine(lines []string, c chan []string) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
-- 
2.43.0


From 5bea7883f9c1aa78e3c629d76cf1fcf451408241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:45 +0000
Subject: [PATCH 20/35] fix: a2l module objects at the border between two
 parsers are neither lost nor misread

---
 a2l/module.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..46d6cd7 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -3,6 +3,7 @@ package a2l
 import (
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -417,13 +418,11 @@ forLoop:
 		return myModule, err
 	}
 	log.Info().Int("endIndex", endIndex).Msg("MODULE ends at index")
+	borders := findModuleBorders(startIndex, endIndex)
 	for i := 0; i < numProc; i++ {
 		//Starte parser Threads
-		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
-		if i+1 == numProc {
-			maxIndex = endIndex
-		}
+		minIndex := borders[i]
+		maxIndex := borders[i+1]
 		log.Info().Msg(("goroutine " + fmt.Sprint(i) + " starting index: " + fmt.Sprint(minIndex) + " until end at index: " + fmt.Sprint(maxIndex) + " of " + fmt.Sprint(endIndex)))
 		go parseModuleMainLoop(wgParsers, minIndex, maxIndex, cA2ml, cAxisPts, cBlob, cCharacteristic, cCompuMethod,
 			cCompuTab, cCompuVtab, cCompuVtabRange, cFrame, cFunction, cGroup, cIfData, cMeasurement, cModCommon,
@@ -449,6 +448,29 @@ forLoop:
 	return myModule, err
 }
 
+// findModuleBorders splits the tokens of a module into numProc parts of roughly the same size.
+// part i consists of the tokens after borders[i] up to and including borders[i+1].
+// borders are only placed between the direct children of the module,
+// because a parser that starts within a child would miss it or mistake its content for further children.
+func findModuleBorders(startIndex int, endIndex int) []int {
+	borders := []int{startIndex}
+	depth := 0
+	for i := startIndex + 1; i < endIndex && len(borders) < numProc; i++ {
+		if strings.HasPrefix(tokenList[i], "/begin ") {
+			depth++
+		} else if strings.HasPrefix(tokenList[i], "/end ") {
+			depth--
+		}
+		if depth == 0 && i >= startIndex+((endIndex-startIndex)/numProc)*len(borders) {
+			borders = append(borders, i)
+		}
+	}
+	for len(borders) <= numProc {
+		borders = append(borders, endIndex)
+	}
+	return borders
+}
+
 // collectChannelsMultithreaded uses anonymous function to collect the data sent by the goroutines running the moduleMainLoop.
 // usually the Select Collector is to be prefered as it is mostly faster and always easier on memory
 // as the additional goroutines spun up in collectChannelsMultithreaded seem to block the GC a lot
-- 
2.43.0


From 073ee91fcd49ba7c44725f62517112eca5457cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:49 +0000
Subject: [PATCH 21/35] fix: a2l multithreaded module parser rejects unexpected
 keywords like the singlethreaded one

---
 a2l/module.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/a2l/module.go b/a2l/module.go
index 46d6cd7..9b898ea 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -1019,6 +1019,11 @@ forLoop:
 				break forLoop
 			} else if tg.current() == endModuleToken {
 				break forLoop
+			} else if isKeyword(tg.current()) {
+				err = errors.New("unexpected token " + tg.current())
+				log.Err(err).Msg("module could not be parsed")
+				cError <- err
+				break forLoop
 			} else if tg.index >= maxIndex {
 				break forLoop
 			}
-- 
2.43.0


From 18303d7f8177b4415d7ab5c31c021da197c3e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:05 +0000
Subject: [PATCH 22/35] fix: a2l files without a complete project are rejected

---
 a2l/a2l.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index d64034c..aa550f8 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -89,6 +89,7 @@ func ParseFromFile(filepath string) (A2L, error) {
 // as opposed to ParseFromFile which also handles creation of the tokenizer and file reading, etc.
 func parseA2l(tok *tokenGenerator) (A2L, error) {
 	a2l := A2L{}
+	projectSet := false
 	var err error
 forLoop:
 	for {
@@ -114,9 +115,15 @@ forLoop:
 				log.Err(err).Msg("a2l project could not be parsed")
 				break forLoop
 			}
+			projectSet = true
 			log.Info().Msg("a2l project successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				if !projectSet {
+					err = errors.New("unexpected end of file, no project found")
+					log.Err(err).Msg("a2l could not be parsed")
+					break forLoop
+				}
 				log.Info().Msg("a2l parsed")
 				break forLoop
 			} else if isKeyword(tok.current()) {
-- 
2.43.0


From fa6de7d8795a371eeca9d00702f6f514ed82f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:43 +0000
Subject: [PATCH 23/35] fix: a2l concurrent calls of ParseFromFile do not
 corrupt each other

---
 a2l/a2l.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index aa550f8..418e8bc 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 	"time"
 	"unicode"
 
@@ -23,6 +24,9 @@ var (
 	//numProc = runtime.NumCPU() * 1 has proven to be reliably fast for different cpu models.
 	//factors above 4 will generally lead to severe performance degredation due to channel and locking overhead.
 	numProc = runtime.NumCPU() * 2
+	//parserMutex serializes the calls of ParseFromFile,
+	//as the token list and the number of modules are shared by all parsers of this package.
+	parserMutex sync.Mutex
 )
 
 // A2L is the main struct returned by the a2l package.
@@ -58,6 +62,10 @@ func ParseFromFile(filepath string) (A2L, error) {
 	var tg tokenGenerator
 	var a A2L
 
+	//only one file can be parsed at a time
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	startTime := time.Now()
 	//read a2l file from a text file
 	text, err = readFileToString(filepath)
-- 
2.43.0


From bfa72177874a598d94384619b37c2a8d7a344e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:10 +0000
Subject: [PATCH 24/35] fix: the hex format is chosen by the extension of the
 file, not by any part of its path

---
 calib_data.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index d061669..f5e05c5 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
@@ -122,7 +123,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 	//probably improve this by putting the determination logic into a single unified hex parsing package
 
 	//intel hex
-	if strings.Contains(strings.ToLower(hexFilePath), ".hex") {
+	if strings.ToLower(filepath.Ext(hexFilePath)) == ".hex" {
 		h, err := ihex32.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
@@ -134,7 +135,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 			log.Info().Msg("parsed hex file")
 		}
 		//Motorola S19
-	} else if strings.Contains(strings.ToLower(hexFilePath), ".s19") {
+	} else if strings.ToLower(filepath.Ext(hexFilePath)) == ".s19" {
 		h, err := srec19.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
-- 
2.43.0


From 9cf13c98c8d5dbbac8270ec8f0d040aa733a4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:12 +0000
Subject: [PATCH 25/35] fix: concurrent calls of ReadCalibration do not race
 for the logger nor leak its file

---
 calib_data.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index f5e05c5..eea161f 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -28,6 +28,13 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+var (
+	//loggerMutex guards loggerConfigured
+	loggerMutex sync.Mutex
+	//loggerConfigured tells whether the logger has already been set up
+	loggerConfigured bool
+)
+
 // CalibrationData contains the parsed structs from the a2l as well as the byte data from the hex file
 // that are parsed by ReadCalibration()
 type CalibrationData struct {
@@ -155,8 +162,14 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 
 }
 
-// configureLogger adds a file logger, resets previous log file and does some formatting
+// configureLogger adds a file logger, resets previous log file and does some formatting.
+// the logger is shared by all calls of ReadCalibration, hence it is only set up by the first one.
 func configureLogger() error {
+	loggerMutex.Lock()
+	defer loggerMutex.Unlock()
+	if loggerConfigured {
+		return nil
+	}
 	file, err := os.Create("calibReader.log")
 	if err != nil {
 		log.Error().Err(err).Msg("could not create calibration reader log-file")
@@ -172,6 +185,7 @@ func configureLogger() error {
 	}
 	zerolog.TimeFieldFormat = zerolog.TimeFormatUnixMicro
 	log.Logger = zerolog.New(zerolog.MultiLevelWriter(fileWriter, consoleWriter)).With().Timestamp().Caller().Logger()
+	loggerConfigured = true
 	return nil
 }
 
-- 
2.43.0


From 7db958699ced0cd6198df47c962568b94a3a2c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:13 +0000
Subject: [PATCH 26/35] fix: GetObjectByIdent does not panic if the selected
 module does not exist

---
 record_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/record_manager.go b/record_manager.go
index 9385892..5270099 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -47,6 +47,9 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	var buf interface{}
 	var exists bool
 
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		return calibrationObjects
+	}
 	m := cd.A2l.Project.Modules[cd.ModuleIndex]
 
 	buf, exists = m.AxisPts[ident]
-- 
2.43.0


From 7a2718bbd96cbd92adddd766dfbf52295c3349ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:55 +0000
Subject: [PATCH 27/35] fix: data types have the widths defined by the asap2
 standard

---
 a2l/enums.go      | 22 +++++++++++-----------
 record_manager.go | 16 ++++++++--------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index 9f9cdf1..7d21d54 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -39,15 +39,15 @@ const (
 	undefinedDatatype DataTypeEnum = emptyToken
 	//UBYTE is defined as an unsigned 8 bit integer
 	UBYTE DataTypeEnum = ubyteToken
-	//SBYTE is defined as an unsigned 8 bit integer
+	//SBYTE is defined as a signed 8 bit integer
 	SBYTE DataTypeEnum = sbyteToken
-	//UWORD seems to be statically defined as a 32 bit unsigned integer
+	//UWORD is defined as a 16 bit unsigned integer
 	UWORD DataTypeEnum = uwordToken
-	//SWORD seems to be statically defined as a 32 bit signed integer
+	//SWORD is defined as a 16 bit signed integer
 	SWORD DataTypeEnum = swordToken
-	//ULONG is defined as a 64 bit unsigned integer
+	//ULONG is defined as a 32 bit unsigned integer
 	ULONG DataTypeEnum = ulongToken
-	//SLONG is defined as a 64 bit signed integer
+	//SLONG is defined as a 32 bit signed integer
 	SLONG DataTypeEnum = slongToken
 	//AUint64 is defined as a 64 bit unsigned integer
 	AUint64 DataTypeEnum = aUint64Token
@@ -104,10 +104,10 @@ func (dte *DataTypeEnum) GetType() interface{} {
 		var t int8
 		return t
 	case UWORD:
-		var t uint32
+		var t uint16
 		return t
 	case SWORD:
-		var t int32
+		var t int16
 		return t
 	case ULONG:
 		var t uint32
@@ -142,9 +142,9 @@ func (dte *DataTypeEnum) GetDatatypeLength() uint16 {
 	case SBYTE:
 		return 8
 	case UWORD:
-		return 32
+		return 16
 	case SWORD:
-		return 32
+		return 16
 	case ULONG:
 		return 32
 	case SLONG:
@@ -211,9 +211,9 @@ func (dse *DataSizeEnum) GetDataSizeLength() uint16 {
 	case BYTE:
 		return 8
 	case WORD:
-		return 32
+		return 16
 	case LONG:
-		return 64
+		return 32
 	default:
 		return 0
 	}
diff --git a/record_manager.go b/record_manager.go
index 5270099..cf488f6 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -160,16 +160,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.BigEndian.Uint32(byteSlice)
+			val := binary.BigEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.BigEndian.Uint32(byteSlice))
+			val := int16(binary.BigEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.BigEndian.Uint64(byteSlice)
+			val := binary.BigEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.BigEndian.Uint64(byteSlice))
+			val := int32(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.BigEndian.Uint64(byteSlice)
@@ -198,16 +198,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.LittleEndian.Uint32(byteSlice)
+			val := binary.LittleEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.LittleEndian.Uint32(byteSlice))
+			val := int16(binary.LittleEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.LittleEndian.Uint64(byteSlice)
+			val := binary.LittleEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.LittleEndian.Uint64(byteSlice))
+			val := int32(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.LittleEndian.Uint64(byteSlice)
-- 
2.43.0


From 2ef8bf8aa52147877f9d5ebcda58695e2a6b3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:05 +0000
Subject: [PATCH 28/35] fix: a2l FIX_AXIS_PAR is a keyword and not accepted as
 a parameter

---
 a2l/tokens.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 64cd0db..0ee4b41 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -541,6 +541,7 @@ var keywordMap = map[string]uint8{
 	"ERROR_MASK":                      0,
 	"EXTENDED_LIMITS":                 0,
 	"FIX_AXIS_PAR_DIST":               0,
+	"FIX_AXIS_PAR":                    0,
 	"FIX_NO_AXIS_PTS_4":               0,
 	"FIX_NO_AXIS_PTS_5":               0,
 	"FIX_NO_AXIS_PTS_X":               0,
-- 
2.43.0


From 063809a4348f6ab11324bda02d34c5a692d7d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 29/35] fix: a2l value lists do not take a keyword for a value

---
 a2l/compu_vtab.go         | 5 +++++
 a2l/compu_vtab_range.go   | 5 +++++
 a2l/var_forbidden_comb.go | 9 +++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/a2l/compu_vtab.go b/a2l/compu_vtab.go
index 4bb0a5a..fd27d66 100644
--- a/a2l/compu_vtab.go
+++ b/a2l/compu_vtab.go
@@ -86,6 +86,11 @@ forLoop:
 					log.Info().Msg("compuVtab inVal successfully parsed")
 				}
 				tok.next()
+				if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtab outVal could not be parsed")
+					break forLoop
+				}
 				cvt.OutVal = append(cvt.OutVal, tok.current())
 				log.Info().Msg("compuVtab outVal successfully parsed")
 				if uint16(len(cvt.OutVal)) == cvt.NumberValuePairs {
diff --git a/a2l/compu_vtab_range.go b/a2l/compu_vtab_range.go
index 9996d86..60d5d8e 100644
--- a/a2l/compu_vtab_range.go
+++ b/a2l/compu_vtab_range.go
@@ -91,6 +91,11 @@ forLoop:
 					log.Info().Msg("compuVtabRange inValMax successfully parsed")
 				}
 				tok.next()
+				if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtabRange outVal could not be parsed")
+					break forLoop
+				}
 				cvr.OutVal = append(cvr.OutVal, tok.current())
 				log.Info().Msg("compuVtabRange outVal successfully parsed")
 				if uint16(len(cvr.OutVal)) == cvr.NumberValueTriples {
diff --git a/a2l/var_forbidden_comb.go b/a2l/var_forbidden_comb.go
index b1dcae9..7da2b0e 100644
--- a/a2l/var_forbidden_comb.go
+++ b/a2l/var_forbidden_comb.go
@@ -35,8 +35,13 @@ forLoop:
 			break forLoop
 		} else if !vfc.criterionNameSet || !vfc.criterionValueSet {
 			vfc.criterionName = append(vfc.criterionName, tok.current())
-			if tok.next() != emptyToken {
-				vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is upated in the if condition above
+			tok.next()
+			if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("varForbiddenComb could not be parsed")
+				break forLoop
+			} else if tok.current() != emptyToken {
+				vfc.criterionValue = append(vfc.criterionValue, tok.current())
 			} else {
 				err = errors.New("unexpected end of file")
 				log.Err(err).Msg("varForbiddenComb could not be parsed")
-- 
2.43.0


From aedb9d37cb8b2364c588ff0f53445ac45b26b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:28 +0000
Subject: [PATCH 30/35] fix: a2l OVERWRITE does not take a keyword for
 CONVERSION or INPUT_QUANTITY

---
 a2l/overwrite.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 0fd0ed7..3fdcd0b 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,7 +28,12 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
-			o.conversion = tok.next()
+			if isKeyword(tok.next()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			}
+			o.conversion = tok.current()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
 			o.extendedLimits, err = parseExtendedLimits(tok)
@@ -45,7 +50,12 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
-			o.inputQuantity = tok.next()
+			if isKeyword(tok.next()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			}
+			o.inputQuantity = tok.current()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
 			o.limits, err = parseLimits(tok)
-- 
2.43.0


From ae0fea5ca59a123581741d83511ce532021b3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:16 +0000
Subject: [PATCH 31/35] fix: a2l multithreaded module parser does not take a
 keyword for the module name

---
 a2l/module.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/module.go b/a2l/module.go
index 9b898ea..688ca73 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -359,6 +359,10 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("module could not be parsed")
 			break forLoop
+		} else if isKeyword(tok.current()) {
+			//the name or the longIdentifier is missing
+			tok.previous()
+			break forLoop
 		} else if !myModule.nameSet {
 			myModule.Name = tok.current()
 			myModule.nameSet = true
-- 
2.43.0


From 652545b462406a1560c2e99f6e6537f075eb7014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 32/35] fix: a2l NO_RESCALE_X reads its data type

---
 a2l/no_rescale_x.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/no_rescale_x.go b/a2l/no_rescale_x.go
index abe4759..c115ea5 100644
--- a/a2l/no_rescale_x.go
+++ b/a2l/no_rescale_x.go
@@ -39,7 +39,6 @@ forLoop:
 			nrx.Position = uint16(buf)
 			nrx.PositionSet = true
 			log.Info().Msg("noRescalex position successfully parsed")
-			break forLoop
 		} else if !nrx.DatatypeSet {
 			nrx.Datatype, err = parseDataTypeEnum(tok)
 			if err != nil {
@@ -48,6 +47,7 @@ forLoop:
 			}
 			nrx.DatatypeSet = true
 			log.Info().Msg("noRescalex datatype successfully parsed")
+			break forLoop
 		}
 	}
 	return nrx, err
-- 
2.43.0


From b24c809be63ceb86f12a72b9f4a4d56536aabe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:17 +0000
Subject: [PATCH 33/35] fix: a2l BIT_OPERATION rejects unexpected keywords

---
 a2l/bit_operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a2l/bit_operation.go b/a2l/bit_operation.go
index ea65548..dfec724 100644
--- a/a2l/bit_operation.go
+++ b/a2l/bit_operation.go
@@ -56,6 +56,7 @@ forLoop:
 			} else if isKeyword(tok.current()) {
 				err = errors.New("unexpected token " + tok.current())
 				log.Err(err).Msg("bitOperation could not be parsed")
+				break forLoop
 			}
 		}
 	}
-- 
2.43.0


From 6d949e5974dde6d674d5d8b22cd6e093dee4e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:30 +0000
Subject: [PATCH 34/35] fix: accept hex files in which LF and CRLF line ends
 are mixed

---
 ihex32/hex.go | 8 ++------
 srec19/hex.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index f83c711..83d3f55 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -232,12 +232,8 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 		log.Err(err).Msg("hex test-file could not be read")
 		return h, err
 	}
-	//split the text into lines
-	lines := strings.Split(text, "\r\n")
-	if len(lines) == 1 {
-		//in case unix line terminator is used.
-		lines = strings.Split(text, "\n")
-	}
+	//split the text into lines. windows and unix line terminators may both be used within the same file.
+	lines := strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n")
 	h, err = parseHex(lines)
 	if err != nil {
 		log.Err(err).Msg("failed parsing with error")
diff --git a/srec19/hex.go b/srec19/hex.go
index 337c7ca..440743d 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -221,12 +221,8 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 		log.Err(err).Msg("hex test-file could not be read")
 		return h, err
 	}
-	//split the text into lines
-	lines := strings.Split(text, "\r\n")
-	if len(lines) == 1 {
-		//in case unix line terminator is used.
-		lines = strings.Split(text, "\n")
-	}
+	//split the text into lines. windows and unix line terminators may both be used within the same file.
+	lines := strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n")
 	h, err = parseHex(lines)
 	if err != nil {
 		log.Err(err).Msg("failed parsing with error")
-- 
2.43.0


From 22deb219a22d4a7301837d02b1e5658dcfe4f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:32 +0000
Subject: [PATCH 35/35] fix: accept bytes whose two hex digits differ in case

---
 ihex32/hex.go | 4 ++++
 srec19/hex.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 83d3f55..2d874c5 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -275,6 +275,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the two digits of a byte may also differ in case
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
diff --git a/srec19/hex.go b/srec19/hex.go
index 440743d..689bee5 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -264,6 +264,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the two digits of a byte may also differ in case
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
-- 
2.43.0

