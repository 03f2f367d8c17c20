From 7c886989abb63f462dd8ce3aaaa43ccc62d2b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:15 +0000
Subject: [PATCH 01/22] fix: ihex32: a malformed, unsupported or missing record
 is an error

A record that could not be parsed ended the part of the file its worker was
given and the rest was dropped without an error; lines shorter than a record
were ignored, the byte count was not compared with the length of the line, and
a file without end of file record or with record types the parser does not
know was accepted.
---
 ihex32/hex.go    | 19 ++++++++++++++++---
 ihex32/record.go | 18 +++++++++++++++---
 ihex32/tokens.go |  6 +++---
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..f12b0f4 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -110,6 +110,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	errChan := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +121,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errChan, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +129,15 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//a record that could not be parsed must not be dropped silently
+	if len(errChan) > 0 {
+		err = <-errChan
+		return h, err
+	}
+	if len(recs) == 0 || recs[len(recs)-1].recordType != endOfFileToken {
+		err = errors.New("no end of file record found")
+		return h, err
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -238,14 +248,17 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// in case a line is not a valid record an error is sent via cErr.
+func parseRecordRoutine(c chan []*record, cErr chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		//skip blank lines and the end of file character some tools append
+		if strings.Trim(l, " \t\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				cErr <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..2461be3 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -29,20 +29,32 @@ func parseRecord(line string) (*record, error) {
 	r := record{}
 	if line[0] == beginLineToken[0] && len(line) >= 11 {
 		r.byteCount = line[1:3]
+		count, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 11+2*int(count) {
+			err := errors.New("length of the line does not match its byte count")
+			return &r, err
+		}
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
 		if r.recordType == extendedLinearAddressRecordToken {
-			if len(line) >= 13 {
+			if len(line) == 15 {
 				r.offset = line[9:13]
 			} else {
-				err := errors.New("line is too short to parse extended address record")
+				err := errors.New("line has the wrong length to parse extended address record")
 				return &r, err
 			}
-		} else {
+		} else if r.recordType == dataRecordToken || r.recordType == endOfFileToken ||
+			r.recordType == startSegmentAddressRecordToken || r.recordType == startLinearAddressRecordToken {
 			r.offset = "0000"
+		} else {
+			err := errors.New("unsupported record type " + r.recordType)
+			return &r, err
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
diff --git a/ihex32/tokens.go b/ihex32/tokens.go
index 8cf284d..458f7f7 100644
--- a/ihex32/tokens.go
+++ b/ihex32/tokens.go
@@ -4,10 +4,10 @@ package ihex32
 const beginLineToken = ":"
 const dataRecordToken = "00"
 
-//const endOfFileToken = "01"
+const endOfFileToken = "01"
 
 //const extendedSegmentAddressRecordToken = "02"
-//const startSegmentAddressRecordToken = "03"
+const startSegmentAddressRecordToken = "03"
 const extendedLinearAddressRecordToken = "04"
 
-//const startLinearAddressRecordToken = "05"
+const startLinearAddressRecordToken = "05"
-- 
2.43.0


From 77bf11ea1c418450cd7edd4d84d652f0830c12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:15 +0000
Subject: [PATCH 02/22] fix: ihex32: an extended linear address of zero does
 not end the offset calculation

addOffsets took the init value 0000 for the mark of another goroutine and
stopped, so records behind a segment at zero kept the offset zero.
---
 ihex32/record.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 2461be3..9c83281 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -78,7 +78,8 @@ forLoop:
 			offs = recs[i].offset
 			firstRecordAfterNewOffset = true
 		} else if recs[i].recordType == dataRecordToken {
-			if firstRecordAfterNewOffset && recs[i].offset == offs {
+			//an offset of 0000 is the init value and does not tell whether another goroutine has been here
+			if firstRecordAfterNewOffset && offs != "0000" && recs[i].offset == offs {
 				recs[i].rwm.Unlock()
 				break forLoop
 			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
-- 
2.43.0


From 7aee707120cd1de69c4f2765036fa2f32cd8977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:17 +0000
Subject: [PATCH 03/22] fix: ihex32: a record that crosses a 64K border does
 not wrap around

---
 ihex32/record.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 9c83281..4860b51 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -186,7 +186,7 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 	var err error
 	var bs []byte
 	var b byte
-	var lineAddress uint16
+	var lineAddress uint32
 
 	for i, s := range r.data {
 
@@ -195,26 +195,21 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 		if err != nil {
 			return d, err
 		}
-		//convert bytes to uint16, add index
-		lineAddress = binary.BigEndian.Uint16(bs)
-		lineAddress = lineAddress + uint16(i)
-		//create 2 byte buffer
-		lineAddressBytes := []byte{0, 0}
-		//fill byte slice buffer with thenew value of line address
-		binary.BigEndian.PutUint16(lineAddressBytes, lineAddress)
+		//convert bytes to uint32, add index
+		lineAddress = uint32(binary.BigEndian.Uint16(bs)) + uint32(i)
 		//convert offset string to byte slice
 		bs, err = HexToByteSlice(r.offset)
 		if err != nil {
 			return d, err
 		}
-		//add the offset to the existing address
-		bs = append(bs, lineAddressBytes...)
+		//add the offset to the existing address. a record that crosses a 64K border continues in the next one
+		lineAddress = lineAddress + uint32(binary.BigEndian.Uint16(bs))<<16
 		b, err = hexToByte(s)
 		if err != nil {
 			return d, err
 		}
 		//construct data with final uint32 address and a byte as value
-		d = append(d, dataByte{address: binary.BigEndian.Uint32(bs), value: b})
+		d = append(d, dataByte{address: lineAddress, value: b})
 	}
 	return d, nil
 }
-- 
2.43.0


From acfc2a83c1a2f5c8322914299a796a131035cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:17 +0000
Subject: [PATCH 04/22] fix: ihex32, srec19: files with both kinds of line
 terminators lose no records

---
 ihex32/hex.go | 8 ++------
 srec19/hex.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index f12b0f4..a8d5bdc 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -233,12 +233,8 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 		log.Err(err).Msg("hex test-file could not be read")
 		return h, err
 	}
-	//split the text into lines
-	lines := strings.Split(text, "\r\n")
-	if len(lines) == 1 {
-		//in case unix line terminator is used.
-		lines = strings.Split(text, "\n")
-	}
+	//split the text into lines, whichever line terminators are used.
+	lines := strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n")
 	h, err = parseHex(lines)
 	if err != nil {
 		log.Err(err).Msg("failed parsing with error")
diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..4751806 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -212,12 +212,8 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 		log.Err(err).Msg("hex test-file could not be read")
 		return h, err
 	}
-	//split the text into lines
-	lines := strings.Split(text, "\r\n")
-	if len(lines) == 1 {
-		//in case unix line terminator is used.
-		lines = strings.Split(text, "\n")
-	}
+	//split the text into lines, whichever line terminators are used.
+	lines := strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n")
 	h, err = parseHex(lines)
 	if err != nil {
 		log.Err(err).Msg("failed parsing with error")
-- 
2.43.0


From 53feb0c965cbcd96ea0921c71da683ec75eb4c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:21 +0000
Subject: [PATCH 05/22] fix: srec19: malformed records are an error and records
 without data are skipped

The first record of a worker's part that was not a 32Bit data record, be it a
header, count or termination record or a malformed one, ended that part and the
rest was dropped without an error; short lines were ignored and the byte count
was not compared with the length of the line.
---
 srec19/hex.go    | 15 +++++++++++---
 srec19/record.go | 51 +++++++++++++++++++++++-------------------------
 srec19/tokens.go |  4 ++++
 3 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/srec19/hex.go b/srec19/hex.go
index 4751806..ed3fbef 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -110,6 +110,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	errChan := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +121,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errChan, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +129,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//a record that could not be parsed must not be dropped silently
+	if len(errChan) > 0 {
+		err = <-errChan
+		return h, err
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -223,14 +229,17 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// in case a line is not a valid record an error is sent via cErr.
+func parseRecordRoutine(c chan []*record, cErr chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		//skip blank lines and the end of file character some tools append
+		if strings.Trim(l, " \t\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				cErr <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..2cc1533 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -26,11 +26,24 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	r.recordType = line[1:2]
-	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
+	if line[0] == beginLineToken[0] && len(line) >= 10 {
+		r.recordType = line[1:2]
+		addrLen, exists := addressLength[r.recordType]
+		if !exists {
+			err := errors.New("unsupported record type " + r.recordType)
+			return &r, err
+		}
 		r.byteCount = line[2:4]
-		r.addressField = line[4:12]
-		for i := 12; i < len(line)-3; i += 2 {
+		count, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 4+2*int(count) || len(line) < 4+addrLen+2 {
+			err := errors.New("length of the line does not match its byte count")
+			return &r, err
+		}
+		r.addressField = line[4 : 4+addrLen]
+		for i := 4 + addrLen; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
 		r.checksum = line[len(line)-2:]
@@ -72,30 +85,14 @@ func (r *record) validateChecksum() (bool, error) {
 	}
 	//and add to sum
 	sum = sum + buf
-	//convert first byte of line address to uint8
-	buf, err = hexToByte(r.addressField[0:2])
-	if err != nil {
-		return false, err
-	}
-	sum = sum + buf
-	//convert second byte of line address to uint8
-	buf, err = hexToByte(r.addressField[2:4])
-	if err != nil {
-		return false, err
-	}
-	sum = sum + buf
-	//convert second byte of line address to uint8
-	buf, err = hexToByte(r.addressField[4:6])
-	if err != nil {
-		return false, err
-	}
-	sum = sum + buf
-	//convert second byte of line address to uint8
-	buf, err = hexToByte(r.addressField[6:8])
-	if err != nil {
-		return false, err
+	//convert every byte of the line address to uint8
+	for i := 0; i < len(r.addressField); i += 2 {
+		buf, err = hexToByte(r.addressField[i : i+2])
+		if err != nil {
+			return false, err
+		}
+		sum = sum + buf
 	}
-	sum = sum + buf
 	//convert every data byte
 	for _, d := range r.data {
 		buf, err = hexToByte(d)
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..761b0f6 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -3,3 +3,7 @@ package srec19
 //const emptyToken = ""
 const beginLineToken = "S"
 const dataRecordToken = "3"
+
+//addressLength contains the number of hex digits in the address field of the supported record types:
+//header, 32Bit data, record count and termination records.
+var addressLength = map[string]int{"0": 4, dataRecordToken: 8, "5": 4, "6": 6, "7": 8, "8": 6, "9": 4}
-- 
2.43.0


From 0c5bf1fbd39ca19d2d1ded04c39aa9dc75311c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 06/22] fix: a2l: a token, text or comment across the border of
 two tokenizers is kept in one piece

Each tokenizer goroutine gets an equal number of lines. When such a part ended
within a multiline comment, a quoted text or between /begin and its keyword the
tokens around the border were lost or made up. The tokenizers now report this
and the text is tokenized as a whole; the end of the file within a token is an
error.
---
 a2l/token_generator.go | 84 +++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 29 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..40f18b1 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -40,28 +40,57 @@ func (tg *tokenGenerator) previous() {
 	tg.index--
 }
 
+// errIncompleteToken signals that the lines given to a tokenizer ended within a comment, a quoted text or a two worded keyword.
+var errIncompleteToken = errors.New("unexpected end of file within a comment, a text or a keyword")
+
 func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
-	//initialize moduleCount to zero
-	moduleCount = 0
+	tg := tokenGenerator{}
 
 	//replace escaped quotation marks
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
 	//Split text file into lines and the lines into words separated by whitespace
+	lines := strings.Split(str, "\n")
+	err := buildTokens(lines, numProc)
+	if err != nil {
+		//a border between two goroutines lies within a token, so the lines can not be tokenized independently.
+		err = buildTokens(lines, 1)
+	}
+	if err != nil {
+		return tg, err
+	}
+	tokenList = append(tokenList, emptyToken)
+	/*Set multithreading flag in accordance with the number of modules
+	Currently there is no support for parsing multi-module files with multithreading enabled due to complexity reasons
+	and minimal benefit due to overhead of detecting module borders and parser coordination / channel creation.*/
+	if moduleCount > 1 {
+		useMultithreading = false
+		log.Info().Uint32("number of modules", moduleCount).Msg("multiple modules detected, parsing singlethreaded")
+	} else {
+		useMultithreading = true
+		log.Info().Msg("only one module detected, parsing multithreaded")
+	}
+	return tg, nil
+}
+
+// buildTokens fills the tokenList by splitting up the lines among numRoutines number of goroutines.
+func buildTokens(lines []string, numRoutines int) error {
+	//initialize moduleCount to zero
+	moduleCount = 0
 	var locTokens []chan []string
+	errChan := make(chan error, numRoutines)
 	tokenList = make([]string, 0, expectedNumberOfTokens)
-	lines := strings.Split(str, "\n")
-	for i := 0; i < numProc; i++ {
+	for i := 0; i < numRoutines; i++ {
 		//calculate start and end for the slices each go routine is given to parse
-		start := (len(lines) / numProc) * i
-		end := start + (len(lines) / numProc)
-		if i+1 == numProc {
+		start := (len(lines) / numRoutines) * i
+		end := start + (len(lines) / numRoutines)
+		if i+1 == numRoutines {
 			//integer divisions might round up or down, so we make sure that we get the "real" end here
 			end = len(lines)
 		}
 		c := make(chan []string, 1)
 		locTokens = append(locTokens, c)
-		go tokenBuilderRoutine(lines[start:end], c)
+		go tokenBuilderRoutine(lines[start:end], c, errChan)
 	}
 	//collect token lists from channels
 	for _, c := range locTokens {
@@ -69,23 +98,13 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 			tokenList = append(tokenList, t...)
 		}
 	}
-	tokenList = append(tokenList, emptyToken)
-	tg := tokenGenerator{}
-	tg.index = 0
-	/*Set multithreading flag in accordance with the number of modules
-	Currently there is no support for parsing multi-module files with multithreading enabled due to complexity reasons
-	and minimal benefit due to overhead of detecting module borders and parser coordination / channel creation.*/
-	if moduleCount > 1 {
-		useMultithreading = false
-		log.Info().Uint32("number of modules", moduleCount).Msg("multiple modules detected, parsing singlethreaded")
-	} else {
-		useMultithreading = true
-		log.Info().Msg("only one module detected, parsing multithreaded")
+	if len(errChan) > 0 {
+		return <-errChan
 	}
-	return tg, nil
+	return nil
 }
 
-func tokenBuilderRoutine(lines []string, c chan []string) {
+func tokenBuilderRoutine(lines []string, c chan []string, cErr chan error) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
 	for _, l := range lines {
@@ -93,11 +112,15 @@ func tokenBuilderRoutine(lines []string, c chan []string) {
 			fields = append(fields, strings.Fields(l))
 		}
 	}
-	c <- buildTokenList(fields)
+	tl, err := buildTokenList(fields)
+	if err != nil {
+		cErr <- err
+	}
+	c <- tl
 	close(c)
 }
 
-func buildTokenList(str [][]string) []string {
+func buildTokenList(str [][]string) ([]string, error) {
 	var err error
 	tl := make([]string, 0, expectedNumberOfTokens/numProc)
 	currentOuterIndex := 0
@@ -108,8 +131,11 @@ func buildTokenList(str [][]string) []string {
 	for {
 		t, err = buildNextValidToken(&currentOuterIndex, &currentInnerIndex, str, firstRun)
 		firstRun = false
+		if err == errIncompleteToken {
+			return tl, err
+		}
 		if err != nil {
-			return tl
+			return tl, nil
 		}
 		if t != emptyToken {
 			if strings.Contains(t, "*/") && !strings.Contains(t, "*/") {
@@ -128,7 +154,7 @@ func buildTokenList(str [][]string) []string {
 				tl = append(tl, t)
 			}
 		} else {
-			return tl
+			return tl, nil
 		}
 	}
 }
@@ -237,7 +263,7 @@ func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str []
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 			//Until the delimiter of the multiline comment is found
 			if err != nil {
-				return emptyToken, err
+				return emptyToken, errIncompleteToken
 			}
 			if strings.Contains(t, endMultilineCommentToken) {
 				t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
@@ -272,7 +298,7 @@ func getTextInQuotationMarks(currentOuterIndex *int, currentInnerIndex *int, str
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 			if err != nil {
-				return emptyToken, err
+				return emptyToken, errIncompleteToken
 			}
 			textInQuotationMarks = textInQuotationMarks + spaceToken + t
 			//Until there is an even number of quotation marks
@@ -337,7 +363,7 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 		twoWordedToken := t
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
-			return emptyToken, err
+			return emptyToken, errIncompleteToken
 		}
 		twoWordedToken = twoWordedToken + spaceToken + t
 		return twoWordedToken, nil
-- 
2.43.0


From ce153789b3c69b11258a853f91551736db62368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:23 +0000
Subject: [PATCH 07/22] fix: a2l: a word with a slash does not end the
 tokenizer

An unquoted word containing a slash that is neither /begin nor /end made the
tokenizer goroutine return, and everything behind it in its part of the file
was lost.
---
 a2l/token_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 40f18b1..1c62c13 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -224,7 +224,7 @@ start:
 			return emptyToken, err
 		}
 		goto start //if you use recursion then defer will stack up until you finally return and then jump x number of valid tokens.
-	} else if strings.Contains(t, slashToken) && !strings.Contains(t, endMultilineCommentToken) {
+	} else if (strings.Contains(t, "/begin") || strings.Contains(t, "/end")) && !strings.Contains(t, endMultilineCommentToken) {
 		twoWordedKeyword, err := getTwoWordedToken(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
 			return emptyToken, err
-- 
2.43.0


From 0c14eb7827950dbdeda722e6909bf051f5589083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:43 +0000
Subject: [PATCH 08/22] fix: a2l: the parts of a module parsed in parallel
 begin with an object

The token at the border of two parts was looked at by neither parser, so an
object starting there was lost, and a parser starting within an object took
the IF_DATA nested in it for an IF_DATA of the module.
---
 a2l/module.go          | 35 +++++++++++++++++++++++++++++------
 a2l/token_generator.go |  2 ++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..932efc6 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -3,6 +3,7 @@ package a2l
 import (
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -399,7 +400,6 @@ forLoop:
 	cVariantCoding := make(chan variantCoding, 1)
 
 	wgParsers := new(sync.WaitGroup)
-	wgParsers.Add(numProc)
 
 	var startIndex int
 	var endIndex int
@@ -417,12 +417,14 @@ forLoop:
 		return myModule, err
 	}
 	log.Info().Int("endIndex", endIndex).Msg("MODULE ends at index")
-	for i := 0; i < numProc; i++ {
+	borders := findBorders(startIndex, endIndex)
+	wgParsers.Add(len(borders))
+	for i := 0; i < len(borders); i++ {
 		//Starte parser Threads
-		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
-		if i+1 == numProc {
-			maxIndex = endIndex
+		minIndex := borders[i]
+		maxIndex := endIndex
+		if i+1 < len(borders) {
+			maxIndex = borders[i+1]
 		}
 		log.Info().Msg(("goroutine " + fmt.Sprint(i) + " starting index: " + fmt.Sprint(minIndex) + " until end at index: " + fmt.Sprint(maxIndex) + " of " + fmt.Sprint(endIndex)))
 		go parseModuleMainLoop(wgParsers, minIndex, maxIndex, cA2ml, cAxisPts, cBlob, cCharacteristic, cCompuMethod,
@@ -449,6 +451,27 @@ forLoop:
 	return myModule, err
 }
 
+// findBorders splits the module up into at most numProc parts of similar size.
+// it returns the index of the last token before each part.
+// a part always starts with an object of the module. If it started within an object
+// then the objects nested therein would be mistaken for objects of the module.
+func findBorders(startIndex int, endIndex int) []int {
+	borders := []int{startIndex}
+	depth := 0
+	for i := startIndex + 1; i < endIndex; i++ {
+		if strings.HasPrefix(tokenList[i], beginTokenPrefix) {
+			if depth == 0 && len(borders) < numProc && i-1 > startIndex &&
+				i-1 >= startIndex+((endIndex-startIndex)/numProc)*len(borders) {
+				borders = append(borders, i-1)
+			}
+			depth++
+		} else if strings.HasPrefix(tokenList[i], endTokenPrefix) {
+			depth--
+		}
+	}
+	return borders
+}
+
 // collectChannelsMultithreaded uses anonymous function to collect the data sent by the goroutines running the moduleMainLoop.
 // usually the Select Collector is to be prefered as it is mostly faster and always easier on memory
 // as the additional goroutines spun up in collectChannelsMultithreaded seem to block the GC a lot
diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 1c62c13..6f1b808 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -10,6 +10,8 @@ import (
 )
 
 const expectedNumberOfTokens = 3000000
+const beginTokenPrefix = "/begin "
+const endTokenPrefix = "/end "
 
 var tokenList []string
 var moduleCount uint32
-- 
2.43.0


From 5e2995fb33ea13ee9e28effdcd3969f62d37d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:46 +0000
Subject: [PATCH 09/22] fix: a2l: a file without project or with a block that
 is not closed is an error

An empty file was read as an empty project, and a block that lost its /end (or
its /begin) was accepted when the keywords around it happened to fit or were
skipped by the parallel parsers.
---
 a2l/a2l.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index d64034c..16c48f9 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -71,6 +71,12 @@ func ParseFromFile(filepath string) (A2L, error) {
 		log.Err(err).Msg("could not create tokens from a2l file:")
 		return a, err
 	}
+	//make sure that no part of the file is missing
+	err = checkBlocks()
+	if err != nil {
+		log.Err(err).Msg("a2l file is incomplete:")
+		return a, err
+	}
 	//then parse the tokens created by the tokenizer
 	a, err = parseA2l(&tg)
 	if err != nil {
@@ -85,6 +91,31 @@ func ParseFromFile(filepath string) (A2L, error) {
 	return a, nil
 }
 
+// checkBlocks makes sure that there is a project and that every block is closed by its own /end keyword.
+// the individual parsers can not notice this if the end of another block is in the right place.
+func checkBlocks() error {
+	var open []string
+	projectFound := false
+	for _, t := range tokenList {
+		if strings.HasPrefix(t, beginTokenPrefix) {
+			open = append(open, strings.TrimPrefix(t, beginTokenPrefix))
+			projectFound = projectFound || t == beginProjectToken
+		} else if strings.HasPrefix(t, endTokenPrefix) {
+			if len(open) == 0 || open[len(open)-1] != strings.TrimPrefix(t, endTokenPrefix) {
+				return errors.New("unexpected token " + t)
+			}
+			open = open[:len(open)-1]
+		}
+	}
+	if len(open) > 0 {
+		return errors.New("no end found for " + open[len(open)-1])
+	}
+	if !projectFound {
+		return errors.New("no project found")
+	}
+	return nil
+}
+
 // parseA2l handles the parsing of the a2l struct.
 // as opposed to ParseFromFile which also handles creation of the tokenizer and file reading, etc.
 func parseA2l(tok *tokenGenerator) (A2L, error) {
-- 
2.43.0


From d31cb7d60e4ed142c8ce5ba33de459f6fbd49f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:56 +0000
Subject: [PATCH 10/22] fix: a2l: concurrent calls of ParseFromFile do not
 share their tokens

---
 a2l/a2l.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index 16c48f9..18b173a 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 	"time"
 	"unicode"
 
@@ -23,6 +24,9 @@ var (
 	//numProc = runtime.NumCPU() * 1 has proven to be reliably fast for different cpu models.
 	//factors above 4 will generally lead to severe performance degredation due to channel and locking overhead.
 	numProc = runtime.NumCPU() * 2
+	//parserMutex makes sure that only one file is parsed at a time,
+	//because the tokens, the number of modules and useMultithreading are shared by all tokenGenerators.
+	parserMutex sync.Mutex
 )
 
 // A2L is the main struct returned by the a2l package.
@@ -58,6 +62,9 @@ func ParseFromFile(filepath string) (A2L, error) {
 	var tg tokenGenerator
 	var a A2L
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	startTime := time.Now()
 	//read a2l file from a text file
 	text, err = readFileToString(filepath)
-- 
2.43.0


From 85b04da0dcd46a654ab04322c65409adf297c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:56 +0000
Subject: [PATCH 11/22] fix: a2l: no log entry is written after the parser has
 returned

---
 a2l/module.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a2l/module.go b/a2l/module.go
index 932efc6..78a737c 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -697,6 +697,8 @@ func closeChannelsAfterParsing(wg *sync.WaitGroup, cA2ml chan a2ml, cAxisPts cha
 	cUnit chan unit, cUserRights chan userRights, cVariantCoding chan variantCoding, cError chan error) {
 	log.Info().Msg("waiting for the parsers to finish")
 	wg.Wait()
+	//nothing is logged after the channels are closed because the caller might have returned by then
+	log.Info().Msg("parsers finished, closing all channels")
 	close(cError)
 	close(cA2ml)
 	close(cAxisPts)
@@ -724,7 +726,6 @@ func closeChannelsAfterParsing(wg *sync.WaitGroup, cA2ml chan a2ml, cAxisPts cha
 	close(cUnit)
 	close(cUserRights)
 	close(cVariantCoding)
-	log.Info().Msg("parsers finished, closed all channels")
 }
 
 // parseModuleMainLoop is used by the parseModuleMultithreaded function to run the module parser in individual goroutines
-- 
2.43.0


From badebcecda26d858c93e6e96e86d3239c6bd0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:12 +0000
Subject: [PATCH 12/22] fix: the global logger is not replaced while other
 readers use it

---
 a2l/a2l.go                  |  3 +++
 calib_data.go               | 10 ++++++++++
 ihex32/hex.go               |  4 ++++
 internal/loglock/loglock.go |  9 +++++++++
 srec19/hex.go               |  4 ++++
 5 files changed, 30 insertions(+)
 create mode 100644 internal/loglock/loglock.go

diff --git a/a2l/a2l.go b/a2l/a2l.go
index 18b173a..b7550a3 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -12,6 +12,7 @@ import (
 	"time"
 	"unicode"
 
+	"github.com/asap2Go/calibrationReader/internal/loglock"
 	"github.com/rs/zerolog/log"
 )
 
@@ -64,6 +65,8 @@ func ParseFromFile(filepath string) (A2L, error) {
 
 	parserMutex.Lock()
 	defer parserMutex.Unlock()
+	loglock.Mu.RLock()
+	defer loglock.Mu.RUnlock()
 
 	startTime := time.Now()
 	//read a2l file from a text file
diff --git a/calib_data.go b/calib_data.go
index d061669..862e9f6 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -20,6 +20,7 @@ import (
 	"github.com/asap2Go/calibrationReader/a2l"
 
 	"github.com/asap2Go/calibrationReader/ihex32"
+	"github.com/asap2Go/calibrationReader/internal/loglock"
 
 	"github.com/asap2Go/calibrationReader/srec19"
 
@@ -27,6 +28,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// readMutex makes sure that the log file and the global logger are used by one ReadCalibration at a time.
+var readMutex sync.Mutex
+
 // CalibrationData contains the parsed structs from the a2l as well as the byte data from the hex file
 // that are parsed by ReadCalibration()
 type CalibrationData struct {
@@ -56,6 +60,9 @@ func ReadCalibration(a2lFilePath string, hexFilePath string) (CalibrationData, e
 	//wait group to determine when both parsers have finished
 	wgReaders := new(sync.WaitGroup)
 
+	readMutex.Lock()
+	defer readMutex.Unlock()
+
 	//initialize logging
 	err = configureLogger()
 	if err != nil {
@@ -169,6 +176,9 @@ func configureLogger() error {
 	fileWriter.FormatLevel = func(i interface{}) string {
 		return strings.ToUpper(fmt.Sprintf("| %s |", i))
 	}
+	//the parsers might be running on their own and must not write log entries meanwhile
+	loglock.Mu.Lock()
+	defer loglock.Mu.Unlock()
 	zerolog.TimeFieldFormat = zerolog.TimeFormatUnixMicro
 	log.Logger = zerolog.New(zerolog.MultiLevelWriter(fileWriter, consoleWriter)).With().Timestamp().Caller().Logger()
 	return nil
diff --git a/ihex32/hex.go b/ihex32/hex.go
index a8d5bdc..7d9c455 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/asap2Go/calibrationReader/internal/loglock"
 	"github.com/rs/zerolog/log"
 )
 
@@ -228,6 +229,9 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 	var text string
 	var err error
 
+	loglock.Mu.RLock()
+	defer loglock.Mu.RUnlock()
+
 	text, err = readFileToString(filepath)
 	if err != nil {
 		log.Err(err).Msg("hex test-file could not be read")
diff --git a/internal/loglock/loglock.go b/internal/loglock/loglock.go
new file mode 100644
index 0000000..b64938d
--- /dev/null
+++ b/internal/loglock/loglock.go
@@ -0,0 +1,9 @@
+// Package loglock coordinates the use of the global logger by the parsers
+// with its configuration in ReadCalibration.
+package loglock
+
+import "sync"
+
+// Mu is held for reading by every parser while it may write log entries
+// and for writing while the global logger is replaced.
+var Mu sync.RWMutex
diff --git a/srec19/hex.go b/srec19/hex.go
index ed3fbef..8c0c168 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/asap2Go/calibrationReader/internal/loglock"
 	"github.com/rs/zerolog/log"
 )
 
@@ -213,6 +214,9 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 	var text string
 	var err error
 
+	loglock.Mu.RLock()
+	defer loglock.Mu.RUnlock()
+
 	text, err = readFileToString(filepath)
 	if err != nil {
 		log.Err(err).Msg("hex test-file could not be read")
-- 
2.43.0


From cfad1d4ad6faaa631fb95312e64b697067a68c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 13/22] fix: looking up an object in a description without
 modules does not panic

---
 record_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/record_manager.go b/record_manager.go
index 9385892..fe1ea51 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -47,6 +47,10 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	var buf interface{}
 	var exists bool
 
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		//there is no such module, so there are no objects in it
+		return calibrationObjects
+	}
 	m := cd.A2l.Project.Modules[cd.ModuleIndex]
 
 	buf, exists = m.AxisPts[ident]
-- 
2.43.0


From 4d65c15781d9f8ee58b68586f5c8ea5fca9fa66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 14/22] fix: the directories of the image file do not decide
 about its type

---
 calib_data.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index 862e9f6..278c54f 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
@@ -128,8 +129,11 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 	//check whether the hex or the s19 parser needs to be used.
 	//probably improve this by putting the determination logic into a single unified hex parsing package
 
+	//the type of the file is part of its name, the names of the directories it lies in do not matter
+	hexFileName := strings.ToLower(filepath.Base(hexFilePath))
+
 	//intel hex
-	if strings.Contains(strings.ToLower(hexFilePath), ".hex") {
+	if strings.Contains(hexFileName, ".hex") {
 		h, err := ihex32.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
@@ -141,7 +145,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 			log.Info().Msg("parsed hex file")
 		}
 		//Motorola S19
-	} else if strings.Contains(strings.ToLower(hexFilePath), ".s19") {
+	} else if strings.Contains(hexFileName, ".s19") {
 		h, err := srec19.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
-- 
2.43.0


From 86929284b8a2f4cc61ff1e94a279f70259799f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:21 +0000
Subject: [PATCH 15/22] fix: a2l: parameters of UNIT, MEASUREMENT,
 TYPEDEF_MEASUREMENT, FRAME and MATRIX_DIM are not lost

---
 a2l/frame.go                | 4 ++++
 a2l/matrix_dim.go           | 4 ++++
 a2l/measurement.go          | 1 +
 a2l/type_def_measurement.go | 1 +
 a2l/unit.go                 | 2 +-
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..04bb314 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -51,8 +51,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +63,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +72,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..17fc1c6 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..9072b43 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,7 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..2d7bd6a 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,7 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..4df6c92 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,7 +64,7 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
+				u.longIdentifierSet = true
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
-- 
2.43.0


From aa0b5fb18867890b6068528b031b64f54735ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:57 +0000
Subject: [PATCH 16/22] fix: a2l: OVERWRITE stores the conversion and the input
 quantity, not their keywords

---
 a2l/overwrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..0fd0ed7 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,7 +28,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
-			o.conversion = tok.current()
+			o.conversion = tok.next()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
 			o.extendedLimits, err = parseExtendedLimits(tok)
@@ -45,7 +45,7 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
-			o.inputQuantity = tok.current()
+			o.inputQuantity = tok.next()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
 			o.limits, err = parseLimits(tok)
-- 
2.43.0


From 0f88bbc8b38294b17950e7e42fb5ed706e8c092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:20 +0000
Subject: [PATCH 17/22] fix: a2l: ADDRESS_TYPE and ENCODING take the value that
 follows them

---
 a2l/blob.go                    | 1 +
 a2l/characteristic.go          | 1 +
 a2l/enums.go                   | 2 ++
 a2l/instance.go                | 1 +
 a2l/structure_component.go     | 1 +
 a2l/type_def_blob.go           | 1 +
 a2l/type_def_characteristic.go | 5 +++--
 a2l/type_def_structure.go      | 1 +
 8 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/characteristic.go b/a2l/characteristic.go
index d7a882b..e3e8508 100644
--- a/a2l/characteristic.go
+++ b/a2l/characteristic.go
@@ -134,6 +134,7 @@ forLoop:
 			}
 			log.Info().Msg("characteristic displayIdentifier successfully parsed")
 		case encodingToken:
+			tok.next()
 			c.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("characteristic encoding could not be parsed")
diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..9f9cdf1 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..02817d7 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,13 +73,14 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
+			tok.next()
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
 				break forLoop
 			}
-			log.Info().Msg("typeDefCharacteristic displayIdentifier successfully parsed")
+			log.Info().Msg("typeDefCharacteristic encoding successfully parsed")
 		case extendedLimitsToken:
 			tdc.extendedLimits, err = parseExtendedLimits(tok)
 			if err != nil {
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From 92524b94fb1f41a6e8889b2543865b7f014c11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:20 +0000
Subject: [PATCH 18/22] fix: a2l: the index modes ALTERNATE_CURVES,
 ALTERNATE_WITH_X and ALTERNATE_WITH_Y are accepted

---
 a2l/tokens.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..64cd0db 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
-- 
2.43.0


From 06e63d8b3b26855a6b9f9176a4efec3ae9af6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:48 +0000
Subject: [PATCH 19/22] fix: a2l: the offsets of a MEMORY_SEGMENT are stored
 each in its place

---
 a2l/memory_segment.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..9c9382e 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -28,6 +28,7 @@ type memorySegment struct {
 
 func parseMemorySegment(tok *tokenGenerator) (memorySegment, error) {
 	ms := memorySegment{}
+	numOffsets := 0
 	var err error
 forLoop:
 	for {
@@ -91,10 +92,9 @@ forLoop:
 				ms.size = tok.current()
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
-				for i := 0; i < 5; i++ {
-					ms.offset[i] = tok.current()
-				}
-				ms.offsetSet = true
+				ms.offset[numOffsets] = tok.current()
+				numOffsets++
+				ms.offsetSet = numOffsets == len(ms.offset)
 			}
 		}
 	}
-- 
2.43.0


From 501db2e8999950afd6ffa9e5083b613c97e98c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:52 +0000
Subject: [PATCH 20/22] fix: a2l: an INSTANCE keeps each of its OVERWRITE
 blocks

---
 a2l/instance.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/a2l/instance.go b/a2l/instance.go
index d5f8c08..1c034ba 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -24,7 +24,7 @@ type instance struct {
 	matrixDim           MatrixDim
 	maxRefresh          MaxRefresh
 	modelLink           modelLink
-	overwrite           overwrite
+	overwrite           []overwrite
 	readWrite           readWriteKeyword
 	symbolLink          symbolLink
 }
@@ -104,11 +104,13 @@ forLoop:
 			}
 			log.Info().Msg("instance modelLink successfully parsed")
 		case beginOverwriteToken:
-			i.overwrite, err = parseOverwrite(tok)
+			var buf overwrite
+			buf, err = parseOverwrite(tok)
 			if err != nil {
 				log.Err(err).Msg("instance overwrite could not be parsed")
 				break forLoop
 			}
+			i.overwrite = append(i.overwrite, buf)
 			log.Info().Msg("instance overwrite successfully parsed")
 		case readWriteToken:
 			i.readWrite, err = parseReadWrite(tok)
-- 
2.43.0


From 18f8affb11197294fb953bc8c9370aa8dc109a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:51 +0000
Subject: [PATCH 21/22] fix: a2l: a line comment mark inside a multiline
 comment does not begin a line comment

A comment such as /*//// ... spread over lines was taken for a line comment:
its other lines were read as parameters. The mark that comes first decides.
---
 a2l/token_generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 6f1b808..ec1bd85 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -190,7 +190,7 @@ start:
 		qtp := strings.Index(t, quotationMarkToken)
 		lcp := strings.Index(t, beginLineCommentToken)
 		mlcp := strings.Index(t, beginMultilineCommentToken)
-		if mlcp != -1 && mlcp < qtp {
+		if mlcp != -1 && mlcp < qtp && (lcp == -1 || mlcp < lcp) {
 			//if the beginning of a multiline comment is present and its position is before the quotation mark, then skip the comment
 			t, err = skipMultilineComment(currentOuterIndex, currentInnerIndex, str)
 			if err != nil {
@@ -214,7 +214,8 @@ start:
 			}
 			return textInQuotationMarks, nil
 		}
-	} else if strings.Contains(t, beginLineCommentToken) {
+	} else if lcp := strings.Index(t, beginLineCommentToken); lcp != -1 && !strings.Contains(t[:lcp], beginMultilineCommentToken) {
+		//the characters of a line comment do not matter within a multiline comment.
 		t, err = skipLineComment(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
 			return emptyToken, err
-- 
2.43.0


From 4a13e8e02d8cb75f74f9968ddd850902f36d627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:59 +0000
Subject: [PATCH 22/22] fix: a2l: a comment next to a word, or within a two
 worded keyword, does not swallow the word

---
 a2l/token_generator.go | 46 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index ec1bd85..141b5ca 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -51,6 +51,9 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	//replace escaped quotation marks
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
+	//a comment may follow a word without a blank, or stand between the two words of a keyword
+	str = removeComments(str)
+
 	//Split text file into lines and the lines into words separated by whitespace
 	lines := strings.Split(str, "\n")
 	err := buildTokens(lines, numProc)
@@ -75,6 +78,49 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
+// removeComments replaces every comment outside of quoted texts by a blank.
+// a comment or a text without an end is left as it is, so that the tokenizer reports it.
+func removeComments(str string) string {
+	var b strings.Builder
+	b.Grow(len(str))
+	for {
+		i := strings.IndexAny(str, quotationMarkToken+"/")
+		if i == -1 {
+			break
+		}
+		end := i + 1
+		if strings.HasPrefix(str[i:], quotationMarkToken) {
+			n := strings.Index(str[end:], quotationMarkToken)
+			if n == -1 {
+				break
+			}
+			end += n + len(quotationMarkToken)
+			b.WriteString(str[:end])
+		} else if strings.HasPrefix(str[i:], beginLineCommentToken) {
+			end = len(str)
+			if n := strings.Index(str[i:], "\n"); n != -1 {
+				end = i + n
+			}
+			b.WriteString(str[:i])
+			b.WriteString(spaceToken)
+		} else if strings.HasPrefix(str[i:], beginMultilineCommentToken) {
+			end += len(beginMultilineCommentToken) - 1
+			n := strings.Index(str[end:], endMultilineCommentToken)
+			if n == -1 {
+				break
+			}
+			end += n + len(endMultilineCommentToken)
+			b.WriteString(str[:i])
+			b.WriteString(spaceToken)
+		} else {
+			b.WriteString(str[:end])
+		}
+		str = str[end:]
+	}
+	b.WriteString(str)
+	return b.String()
+}
+
 // buildTokens fills the tokenList by splitting up the lines among numRoutines number of goroutines.
 func buildTokens(lines []string, numRoutines int) error {
 	//initialize moduleCount to zero
-- 
2.43.0

