From 7f81cacbfe8883e0e0473d55ae8ceba291f43f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 01/20] fix: ExtraData.Parse must not panic on a record that
 overruns the field

A gzip FEXTRA subfield whose declared length exceeds the bytes remaining
caused an out-of-range slice in the Reader's background goroutine, which
cannot be recovered by the caller.
---
 header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/header.go b/header.go
index cc12f7b..63c05c6 100644
--- a/header.go
+++ b/header.go
@@ -41,6 +41,10 @@ func (xd *ExtraData) Parse(raw []byte) {
 		rec.ID[1] = raw[index+1]
 		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
 		index += 4
+		if recLen > length-index {
+			// truncated record: there is no well-formed data left
+			break
+		}
 		rec.Bytes = raw[index : index+recLen]
 		index += recLen
 		xd.Records = append(xd.Records, rec)
-- 
2.43.0


From 7b41ad39fee9276d8acb0cf8dc1d379d7cab2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 02/20] fix: stop decoding a dynamic block whose HLIT or HDIST
 is out of range

The error was recorded but decoding carried on with the invalid counts.
---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 52b638c..c250f9e 100644
--- a/reader.go
+++ b/reader.go
@@ -976,9 +976,11 @@ func (fr *Reader) readDynamicTrees(isFinal bool) bool {
 
 	if numLL > logicalNumLLCodes {
 		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)
+		return false
 	}
 	if numD > logicalNumDCodes {
 		fr.corruptf("HDIST %d > %d", numD, logicalNumDCodes)
+		return false
 	}
 
 	const numCodes = 19
-- 
2.43.0


From 39b913ca6e34d696c02f7032f10d5944a3447361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 03/20] fix: report truncation and I/O errors inside Huffman
 codes as such

readSymbol dropped the input error, so a stream which ended (or whose
io.Reader failed) within a Huffman code was reported as corrupt with a
"degenerate Huffman code" message.
---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index c250f9e..b1c1b07 100644
--- a/reader.go
+++ b/reader.go
@@ -1128,6 +1128,7 @@ func (fr *Reader) readSymbol(hdec *huffman.Decoder) (symbol huffman.Symbol, ok b
 	numBits := min
 	for numBits <= max {
 		if ok := fr.inputBitsFill(numBits); !ok {
+			fr.propagateError(true)
 			return huffman.InvalidSymbol, false
 		}
 
-- 
2.43.0


From ec2ca710bb5a205f3140cb5192bddf5c93d85f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/20] fix: do not write a window slice back into the same
 window

LookupSlice returns a view of the window's storage, and Window.Write may
move and zero that storage before it copies from the slice, corrupting
the history (and hence the output) of streams longer than the window.
---
 reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index b1c1b07..3d1c692 100644
--- a/reader.go
+++ b/reader.go
@@ -853,8 +853,10 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
 			return false
 		}
-		fr.decodeBufferWrite(p)
-		length -= uint(len(p))
+		var scratch [258]byte
+		n := copy(scratch[:], p)
+		fr.decodeBufferWrite(scratch[:n])
+		length -= uint(n)
 
 		for length != 0 {
 			ch, err := fr.window.LookupByte(distance)
-- 
2.43.0


From 936f2a41960974cad58c05f1cf7bf725526f30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/20] fix: reject distances which reach before the start of
 the stream

RFC 1951 section 3.2.5 forbids them; the Reader silently produced zero
bytes instead.
---
 reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reader.go b/reader.go
index 3d1c692..96e841c 100644
--- a/reader.go
+++ b/reader.go
@@ -848,6 +848,12 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 		length := uint(t.literalOrLength)
 		distance := uint(t.distance)
 
+		available := uint64(len(fr.dict)) + fr.outputBytesStream + uint64(fr.decodeBuffer.Len())
+		if uint64(distance) > available {
+			fr.corruptf("distance %d > available history %d", distance, available)
+			return false
+		}
+
 		p, err := fr.window.LookupSlice(distance, length)
 		if err != nil {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
-- 
2.43.0


From e3ac09e6cbe992f1399d90783de203205de18754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 06/20] fix: accept zlib streams whose preset dictionary ends
 in zero bytes

The Reader inferred "no dictionary" from an all-zero window.
---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 96e841c..dc69647 100644
--- a/reader.go
+++ b/reader.go
@@ -514,7 +514,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 
-		if fr.window.IsZero() {
+		if fr.dict == nil {
 			fr.corruptf("zlib stream was compressed with a pre-set dictionary -- Adler-32 checksum of the dictionary required to decompress this stream is %#08x", expectedAdler32)
 			return false
 		}
@@ -525,7 +525,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 	} else {
-		if !fr.window.IsZero() {
+		if fr.dict != nil {
 			computedAdler32 := adler32.Checksum(fr.dict)
 			fr.corruptf("zlib stream was not compressed with a pre-set dictionary -- Adler-32 checksum of the supplied dictionary is %#08x", computedAdler32)
 			return false
-- 
2.43.0


From 05ed175c94a36371be0c7b48b7d56c282d1b25f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 07/20] fix: format autodetection must not depend on where the
 input buffer ends

If only the first byte of a concatenated stream was buffered, it was
decoded as a raw DEFLATE stream whatever it was.
---
 reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reader.go b/reader.go
index dc69647..e3c6f18 100644
--- a/reader.go
+++ b/reader.go
@@ -450,6 +450,9 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
+	if fr.inputBuffer.Len() < 2 {
+		fr.inputBufferFill()
+	}
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
 		return fr.readHeaderRaw()
-- 
2.43.0


From 0175751bea5180fdede21347cecdb31468902be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 08/20] fix: do not drop concatenated streams that are already
 buffered

Once the underlying io.Reader had reported io.EOF, any following streams
still in the input buffer were silently ignored.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index e3c6f18..35281b0 100644
--- a/reader.go
+++ b/reader.go
@@ -328,7 +328,7 @@ func (fr *Reader) readThread() {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
-	for fr.inputError == nil {
+	for fr.inputError == nil || !fr.inputBuffer.IsEmpty() {
 		if !fr.readHeader() {
 			break
 		}
-- 
2.43.0


From d5235ebc706348d3a4679b99b6921516c47f004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 09/20] fix: deliver all decoded data before the Reader's
 error, and only once

The error was published as soon as it was detected, while decoded bytes
were still in decodeBuffer; depending on goroutine scheduling a Read
could return the error first and the remaining data (or nothing)
afterwards.  The background goroutine also went on to parse a footer, or
for raw streams further data, after a block had failed to decode.
---
 reader.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 35281b0..1dcd09e 100644
--- a/reader.go
+++ b/reader.go
@@ -65,6 +65,7 @@ type Reader struct {
 	ibLen                byte
 	readThreadWasStarted bool
 	readThreadWasStopped bool
+	pendingError         error
 	outputErrorWasSet    bool
 	stopIsForced         bool
 
@@ -208,6 +209,7 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
 	fr.readThreadWasStopped = false
+	fr.pendingError = nil
 	fr.outputErrorWasSet = false
 	fr.stopIsForced = false
 
@@ -342,6 +344,10 @@ func (fr *Reader) readThread() {
 
 		fr.decodeBufferMustFlush()
 
+		if fr.pendingError != nil {
+			break
+		}
+
 		if !fr.readFooter() {
 			break
 		}
@@ -352,6 +358,7 @@ func (fr *Reader) readThread() {
 	}
 
 	fr.propagateError(false)
+	fr.publishError()
 	fr.readThreadWasStopped = true
 	fr.mu1.Unlock()
 	fr.wg.Done()
@@ -1384,12 +1391,20 @@ func (fr *Reader) corruptf(format string, v ...interface{}) {
 }
 
 func (fr *Reader) closeWithError(err error) {
+	if fr.pendingError == nil {
+		fr.pendingError = err
+	}
+}
+
+// publishError makes pendingError visible to Read callers.  It must only be
+// called once all decoded data has been moved to outputBuffer.
+func (fr *Reader) publishError() {
 	if fr.outputErrorWasSet {
 		return
 	}
 
 	fr.mu2.Lock()
-	fr.outputError = err
+	fr.outputError = fr.pendingError
 	fr.cv1.Broadcast()
 	fr.mu2.Unlock()
 
-- 
2.43.0


From 203329054e6d0eaca5df586e648477b05529c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 10/20] fix: Reader.Reset in the middle of a stream must not
 deadlock

Reset locked mu2 and then called stopReadThreadLocked, which locks it
again.  Also drop any left-over input bits of the abandoned stream.
---
 reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 1dcd09e..29bb68d 100644
--- a/reader.go
+++ b/reader.go
@@ -200,11 +200,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
+	fr.stopReadThreadLocked()
+
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	fr.stopReadThreadLocked()
-
 	fr.r = r
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
@@ -216,6 +216,7 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.inputBuffer.Clear()
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
+	fr.inputBitsDiscard()
 
 	fr.outputError = nil
 	fr.outputBuffer.Clear()
-- 
2.43.0


From ebebdb7344a6a5ee7ab3a923f9553f9a5ee81fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 11/20] fix: split incompressible data over several stored
 blocks

At MemoryLevel 8 and above a block can hold more than 65535 bytes; when
it was incompressible, Write panicked in writeStoredBlock.
---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index c268002..175e334 100644
--- a/writer.go
+++ b/writer.go
@@ -1010,6 +1010,12 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	storedLength := (uint64(len(data)) << 3) + 35
 	if storedLength < dynamicCounter.length() {
+		for len(data) > math.MaxUint16 {
+			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
+				return false
+			}
+			data = data[math.MaxUint16:]
+		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
 	if staticCounter.length() <= dynamicCounter.length() {
-- 
2.43.0


From 95ab05f40ff4ca7edf70f59fb4a00c622897e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 12/20] fix: FixedStrategy must not emit dynamic Huffman blocks

The strategy was accepted and documented but never consulted.
---
 writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index 175e334..f598466 100644
--- a/writer.go
+++ b/writer.go
@@ -990,10 +990,10 @@ func compressSlow(fw *Writer, consumeAll bool, good, lazy, nice, chain uint) boo
 
 	data := bb.Bytes()
 	*tokens = append(*tokens, makeStopToken())
-	return compressTokens(fw, data, *tokens, false)
+	return compressTokens(fw, data, *tokens, fw.strategy == FixedStrategy, false)
 }
 
-func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) bool {
+func compressTokens(bw bitwriter, data []byte, tokens []token, fixedOnly bool, isFinal bool) bool {
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
@@ -1018,7 +1018,7 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
-	if staticCounter.length() <= dynamicCounter.length() {
+	if fixedOnly || staticCounter.length() <= dynamicCounter.length() {
 		return writeStaticBlock(bw, tokens, isFinal)
 	}
 	return writeDynamicBlock(bw, &hLL, &hD, tokens, isFinal)
-- 
2.43.0


From be4a563a2eda31c92a05ad9724d427a1fa5a2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 13/20] fix: limit Huffman codes to the lengths DEFLATE can
 represent

Code length codes longer than 7 bits were silently truncated, producing
corrupt output, and literal/length or distance codes longer than 15 bits
caused a panic.
---
 huffman.go | 18 ++++++++++++++++++
 writer.go  |  6 +++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/huffman.go b/huffman.go
index e920bc7..fa7c829 100644
--- a/huffman.go
+++ b/huffman.go
@@ -14,6 +14,10 @@ const (
 	physicalNumLLCodes = 288
 	physicalNumDCodes  = 32
 	physicalNumXCodes  = 19
+
+	// longest codes which can be represented in a dynamic block header
+	maxBitsLLD = 15
+	maxBitsX   = 7
 )
 
 var scramble = [physicalNumXCodes]byte{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
@@ -67,6 +71,20 @@ func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
 	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
 }
 
+// initLimitedEncoder is like e.Init, but flattens the frequencies as needed so
+// that no code is longer than maxBits.
+func initLimitedEncoder(e *huffman.Encoder, numSymbols int, freq []uint32, maxBits byte) {
+	e.Init(numSymbols, freq)
+	for e.MaxSize() > maxBits {
+		flattened := make([]uint32, len(freq))
+		for i, f := range freq {
+			flattened[i] = (f + 1) >> 1
+		}
+		freq = flattened
+		e.Init(numSymbols, freq)
+	}
+}
+
 // SizeList represents a list of symbol sizes in a Canonical Huffman Code.
 type SizeList []byte
 
diff --git a/writer.go b/writer.go
index f598466..8e7d53c 100644
--- a/writer.go
+++ b/writer.go
@@ -997,10 +997,10 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, fixedOnly bool, i
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
-	hLL.Init(physicalNumLLCodes, freqLL)
+	initLimitedEncoder(&hLL, physicalNumLLCodes, freqLL, maxBitsLLD)
 
 	var hD huffman.Encoder
-	hD.Init(physicalNumDCodes, freqD)
+	initLimitedEncoder(&hD, physicalNumDCodes, freqD, maxBitsLLD)
 
 	var dynamicCounter bitcounter
 	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
@@ -1162,7 +1162,7 @@ func writeDynamicBlock(bw bitwriter, hLL *huffman.Encoder, hD *huffman.Encoder,
 	freqX := studyFrequenciesX(*xtokens)
 
 	var hX huffman.Encoder
-	hX.Init(physicalNumXCodes, freqX)
+	initLimitedEncoder(&hX, physicalNumXCodes, freqX, maxBitsX)
 
 	sX := hX.SizeBySymbol()
 	numX := uint(physicalNumXCodes)
-- 
2.43.0


From 73b806d85d44b8c1f559e7b2f4f66f6dc0f78f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 14/20] fix: PartialFlush must push out all bits of the current
 block

Up to 63 bits could stay behind in the bit accumulator, although the
documentation promises that the whole block reaches the io.Writer.
---
 writer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/writer.go b/writer.go
index 8e7d53c..72d4466 100644
--- a/writer.go
+++ b/writer.go
@@ -529,6 +529,9 @@ func (fw *Writer) flushGuts(flushType FlushType) bool {
 		if !writeStaticBlock(fw, tokens, false) {
 			return false
 		}
+		if !fw.outputBitsFlushWholeBytes() {
+			return false
+		}
 
 	case SyncFlush:
 		if !writeStoredBlock(fw, nil, false) {
@@ -912,6 +915,21 @@ func (fw *Writer) outputBitsFlush() bool {
 	return fw.outputBufferWrite(tmp[:n])
 }
 
+// outputBitsFlushWholeBytes writes all complete bytes, leaving up to 7 bits.
+func (fw *Writer) outputBitsFlushWholeBytes() bool {
+	wholeLen := fw.obLen &^ 7
+	restLen := fw.obLen - wholeLen
+	var restBlock block
+	if restLen != 0 {
+		restBlock = fw.obBlock >> wholeLen
+	}
+	fw.obLen = wholeLen
+	ok := fw.outputBitsFlush()
+	fw.obLen = restLen
+	fw.obBlock = restBlock
+	return ok
+}
+
 func (fw *Writer) sendEvent(event Event) {
 	event.InputBytesTotal = fw.inputBytesTotal
 	event.InputBytesStream = fw.inputBytesStream
-- 
2.43.0


From 4f93308528d0ae9583d0cb9523b2cddc8f1671a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 15/20] fix: Writer.Reset must discard left-over bits of a
 failed stream

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 72d4466..2a63bc6 100644
--- a/writer.go
+++ b/writer.go
@@ -240,6 +240,8 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 
 	fw.hybrid.Clear()
 	fw.output.Clear()
+	fw.obBlock = 0
+	fw.obLen = 0
 
 	if len(opts) == 0 {
 		return
-- 
2.43.0


From ed233306b242737d97d08610e48fcf53c146d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 16/20] fix: do not write to the io.Writer again after a failed
 gzip footer write

---
 writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index 2a63bc6..6c00506 100644
--- a/writer.go
+++ b/writer.go
@@ -789,9 +789,9 @@ func writeHeaderGZIPComment(header Header) (byte, func(*Writer) bool) {
 }
 
 func (fw *Writer) writeFooterGZIP(c32 uint32) bool {
-	ok1 := fw.outputBufferWriteU32(binary.LittleEndian, c32)
-	ok2 := fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
-	return ok1 && ok2
+	ok := fw.outputBufferWriteU32(binary.LittleEndian, c32)
+	ok = ok && fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
+	return ok
 }
 
 func (fw *Writer) inputBufferRead(buf []byte) []byte {
-- 
2.43.0


From 7e6b1cdb277f035e8fe5b33054ad26303a14df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 17/20] fix: autodetect the data type of each stream separately

The type detected for the first stream stuck to the Writer's header and
was reused for all subsequent streams, also after Reset.
---
 writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer.go b/writer.go
index 6c00506..09ab450 100644
--- a/writer.go
+++ b/writer.go
@@ -570,6 +570,10 @@ func (fw *Writer) writeHeader() bool {
 		Type: StreamBeginEvent,
 	})
 
+	// the fields which are filled in below only apply to this stream
+	savedHeader := fw.header
+	defer func() { fw.header = savedHeader }()
+
 	if fw.header.DataType == UnknownData {
 		fw.header.DataType = BinaryData
 		if buf := fw.hybrid.PrepareBulkRead(4096); isText(buf) {
-- 
2.43.0


From 7ffb987cad19e21851cd0beb088fa03f3dce9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 18/20] fix: Close must also close a Reader which has not been
 read from

A Read after such a Close started the background goroutine, which went on
to read from the underlying io.Reader.
---
 reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reader.go b/reader.go
index 29bb68d..8d8f8ac 100644
--- a/reader.go
+++ b/reader.go
@@ -294,6 +294,14 @@ func (fr *Reader) Read(p []byte) (int, error) {
 //
 func (fr *Reader) Close() error {
 	fr.mu1.Lock()
+	if !fr.readThreadWasStarted {
+		// there is nothing to stop, but a later Read must not start it
+		fr.readThreadWasStarted = true
+		fr.readThreadWasStopped = true
+		fr.mu2.Lock()
+		fr.outputError = context.Canceled
+		fr.mu2.Unlock()
+	}
 	fr.stopReadThreadLocked()
 	fr.mu1.Unlock()
 	return nil
-- 
2.43.0


From 5a0dd1958ed54e33e64f32f6722e6c58c12185c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:27 +0000
Subject: [PATCH 19/20] fix: give tracers their own copy of the fixed code
 lengths

The slices in the BlockTreesEvent of a static block were those of the
decoders which all Readers share, so a tracer which wrote to its event
changed the events of every other Reader.
---
 reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 8d8f8ac..7347183 100644
--- a/reader.go
+++ b/reader.go
@@ -814,8 +814,9 @@ func (fr *Reader) readFlateBlockStaticHuffman(isFinal bool) bool {
 			IsFinal: isFinal,
 		},
 		Trees: &TreesEvent{
-			LiteralLengthSizes: fr.hLL.SizeBySymbol(),
-			DistanceSizes:      fr.hD.SizeBySymbol(),
+			// the decoders are shared by all Readers, so tracers get copies
+			LiteralLengthSizes: append([]byte(nil), fr.hLL.SizeBySymbol()...),
+			DistanceSizes:      append([]byte(nil), fr.hD.SizeBySymbol()...),
 		},
 	})
 
-- 
2.43.0


From 3781404f9ad2bc0b81879c11b01090207731334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:50 +0000
Subject: [PATCH 20/20] fix: Close must not wait for a source that never stops

The read thread held mu1 while reading from the source and gave it up only
to hand out data, so Close and Reset waited forever on endless input which
contains no data (empty blocks, empty members, an endless file name).
---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 7347183..167d805 100644
--- a/reader.go
+++ b/reader.go
@@ -1186,7 +1186,12 @@ func (fr *Reader) inputBufferFill() {
 		return
 	}
 
+	// Give up the lock while reading, so that Close, Reset and Read do not
+	// have to wait for a source which never stops or which takes its time.
+	fr.mu1.Unlock()
 	_, err := fr.inputBuffer.ReadFrom(fr.r)
+	fr.mu1.Lock()
+
 	fr.inputError = err
 }
 
-- 
2.43.0

