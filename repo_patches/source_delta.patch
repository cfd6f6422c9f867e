From f3dd8d0cd77bd697b040ab7174820e21535d1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 01/24] fix: post() always threw, as it called a function that
 doesn't exist

---
 index.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 9be2d49..4ef554a 100644
--- a/index.js
+++ b/index.js
@@ -199,12 +199,11 @@ module.exports = {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
 		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
-		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + y.crc32(data).toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From ee9eea7322c9d28e2f8951cf7213b4d71cad9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 02/24] fix: the configured filename encoding was ignored when
 creating posts

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 4ef554a..b9a16e5 100644
--- a/index.js
+++ b/index.js
@@ -198,7 +198,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -363,7 +363,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From 4dc12ddc60fda3e1896415e1fb24a26eda32c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 03/24] fix: line breaks and nulls in filenames could break out
 of the =ybegin line

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index b9a16e5..1044dcd 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From dddc2b3d807ab83b2800c730a5befa045b481fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 04/24] fix: decodeChunk threw a ReferenceError on states not
 directly recognised

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 1044dcd..c3c8e97 100644
--- a/index.js
+++ b/index.js
@@ -151,7 +151,7 @@ module.exports = {
 		};
 		var state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From 8c797751787ba222d3448ba35f0f1be76f386d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 05/24] fix: decodeChunk ignored the output buffer when called
 as documented (data, state, output)

---
 index.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index c3c8e97..1f06cc8 100644
--- a/index.js
+++ b/index.js
@@ -131,10 +131,11 @@ module.exports = {
 	decodeTo: y.decodeTo,
 	
 	decodeChunk: function(data, output, prev) {
-		// both output and prev are optional
-		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
-			prev = output;
-			output = null;
+		// both output and prev are optional, and may be given in either order
+		if(!Buffer.isBuffer(output) && (Buffer.isBuffer(prev) || (output !== null && typeof output !== 'undefined'))) {
+			var state_arg = output;
+			output = Buffer.isBuffer(prev) ? prev : null;
+			prev = state_arg;
 		}
 		if(prev === null || typeof prev === 'undefined')
 			prev = '\r\n';
-- 
2.43.0


From c4f65db39383f2df8439971a02542ab8a8f9100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 06/24] fix: decodeChunk result on empty data didn't match its
 documented form

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 1f06cc8..203a016 100644
--- a/index.js
+++ b/index.js
@@ -146,8 +146,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		var state = decodePrev.indexOf(prev);
-- 
2.43.0


From 64cd18e3be8444f01dff5c081efbd1049dffdda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 07/24] fix: a rejected YEncoder.encode() call corrupted the
 encoder's part number and CRC

---
 index.js | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/index.js b/index.js
index 203a016..f761a69 100644
--- a/index.js
+++ b/index.js
@@ -385,33 +385,36 @@ YEncoder.prototype = {
 	encode: function(data) {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		this.part++;
-		if(this.part > this.parts)
+		var part = this.part + 1;
+		if(part > this.parts)
 			throw new Error('Exceeded number of specified yEnc parts');
 		var end = this.pos + data.length;
 		if(end > this.size)
 			throw new Error('Exceeded total file size');
 		
-		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
-		this.crc = y.crc32_combine(this.crc, crc, data.length);
-		if(this.part == this.parts) {
+		var totalCrc = y.crc32_combine(this.crc, crc, data.length);
+		if(part == this.parts) {
 			// final part treated slightly differently
 			if(end != this.size)
 				throw new Error('File size doesn\'t match total data length');
-			fullCrc = ' crc32='+this.crc.toString('hex');
-			this.yInfo = null;
+			fullCrc = ' crc32='+totalCrc.toString('hex');
 		}
 		
 		var ret = Buffer.concat([
-			toBuffer('=ybegin part='+this.part),
-			yInfo,
+			toBuffer('=ybegin part='+part),
+			this.yInfo,
 			toBuffer('=ypart begin='+( this.pos+1 )+' end='+end+'\r\n'),
 			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' part='+this.part+' pcrc32='+crc.toString('hex')+fullCrc)
+			toBuffer('\r\n=yend size='+data.length+' part='+part+' pcrc32='+crc.toString('hex')+fullCrc)
 		]);
 		
+		// only update state once the part has been successfully created, so that a failed call has no effect
+		this.part = part;
 		this.pos = end;
+		this.crc = totalCrc;
+		if(part == this.parts)
+			this.yInfo = null;
 		return ret;
 	},
 	
@@ -420,18 +423,19 @@ YEncoder.prototype = {
 		
 		if(this.size != data.length)
 			throw new Error('File size doesn\'t match total data length');
-		this.encode = singleEncodeError;
 		
+		var crc = y.crc32(data);
+		var ret = Buffer.concat([
+			this.yInfo,
+			y.encode(data, this.line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + crc.toString('hex'))
+		]);
+		
+		this.encode = singleEncodeError;
 		this.part = 1;
 		this.pos = data.length;
-		this.crc = y.crc32(data);
-		
-		var yInfo = this.yInfo;
+		this.crc = crc;
 		this.yInfo = null;
-		return Buffer.concat([
-			yInfo,
-			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + this.crc.toString('hex'))
-		]);
+		return ret;
 	}
 };
-- 
2.43.0


From e26ea685bd2eafa3124510083f033e35fcb1649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 08/24] fix: raw decode lost an escaped carriage return at the
 end of the data

---
 src/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 6dda4ef..2b0cbe7 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -29,7 +29,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				i++;
 				if(c == '\r') {
 					*state = YDEC_STATE_CR;
-					if(i >= 0) return 0;
+					if(i >= 0) return p - dest;
 				} else {
 					*state = YDEC_STATE_NONE;
 					break;
@@ -39,7 +39,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				if(es[i] != '\n') break;
 				i++;
 				*state = YDEC_STATE_CRLF;
-				if(i >= 0) return 0;
+				if(i >= 0) return p - dest;
 				// Else fall-thru
 			case YDEC_STATE_CRLF:
 				// skip past first dot
-- 
2.43.0


From 128bf5c91d5103cf693cf75d37807da26642daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 09/24] fix: decodeTo returned 0 instead of throwing if the
 output buffer is too small

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..be6e5b8 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -266,7 +266,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From 527184b086b80ad82b21605b3132998dba26f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 10/24] fix: crc32_zeroes/crc32_shift truncated their length to
 32 bits

---
 src/yencode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index be6e5b8..8bdd479 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -400,7 +400,7 @@ FUNC(CRC32Zeroes) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int len = ARG_TO_INT(args[0]);
+	int64_t len = ARG_TO_INT(args[0]);
 	if(len < 0)
 		crc1 = crc32_unzero(crc1, -len);
 	else
@@ -436,7 +436,7 @@ FUNC(CRC32Shift) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int n = ARG_TO_INT(args[0]);
+	int64_t n = ARG_TO_INT(args[0]);
 	if(n < 0)
 		crc1 = crc32_shift(crc1, ~crc32_powmod(-n));
 	else
-- 
2.43.0


From 7a4e3e54db0c1a40196d015ddec6528f0a4280eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 11/24] fix: encodeIncr checked the output size before knowing
 the line size, allowing an overflow

---
 src/yencode.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 8bdd479..d5ec62e 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -184,10 +184,6 @@ FUNC(EncodeIncr) {
 		if(node::Buffer::HasInstance(args[1])) {
 			// grab destination
 			allocResult = false;
-			// check that destination buffer has enough space
-			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
-			if(node::Buffer::Length(args[1]) < dest_len)
-				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 			result = (unsigned char*)node::Buffer::Data(args[1]);
 			argp++;
 		}
@@ -204,6 +200,9 @@ FUNC(EncodeIncr) {
 				if (col == line_size) col = 0; // allow this case
 			}
 		}
+		// check that destination buffer has enough space
+		if(!allocResult && node::Buffer::Length(args[1]) < YENC_MAX_SIZE(arg_len, line_size))
+			RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	}
 	
 	Local<Object> ret = NEW_OBJECT;
-- 
2.43.0


From 375319bce5fd739ba789ac6421e2a4d8ffb31d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 12/24] fix: failure to allocate memory for a result crashed
 the process instead of throwing

---
 src/yencode.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index d5ec62e..08a36cc 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -22,6 +22,13 @@ static void free_buffer(char* data, void* _size) {
 	free(data);
 }
 
+// shrink an allocated result down to the amount used; if this can't be done, the original allocation remains usable
+static inline unsigned char* shrink_result(unsigned char* buf, size_t len) {
+	if(len == 0) return buf; // avoid implementation defined `realloc(p, 0)`
+	unsigned char* ret = (unsigned char*)realloc(buf, len);
+	return ret ? ret : buf;
+}
+
 // TODO: encode should return col num for incremental processing
 //       line limit + return input consumed
 //       async processing?
@@ -130,8 +137,9 @@ FUNC(Encode) {
 	size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 	
 	unsigned char *result = (unsigned char*) malloc(dest_len);
+	if(!result) RETURN_ERROR("Out of memory");
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, true);
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_result(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -218,13 +226,14 @@ FUNC(EncodeIncr) {
 		// allocate enough memory to handle worst case requirements
 		size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 		result = (unsigned char*) malloc(dest_len);
+		if(!result) RETURN_ERROR("Out of memory");
 	}
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
 	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
 	if(allocResult) {
-		result = (unsigned char*)realloc(result, len);
+		result = shrink_result(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
@@ -247,8 +256,9 @@ FUNC(Decode) {
 		isRaw = ARG_TO_BOOL(args[1]);
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
+	if(!result) RETURN_ERROR("Out of memory");
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_result(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -308,11 +318,14 @@ FUNC(DecodeIncr) {
 	sp = (const unsigned char*)newSrc;
 #endif
 	
-	if(allocResult) result = (unsigned char*) malloc(arg_len);
+	if(allocResult) {
+		result = (unsigned char*) malloc(arg_len);
+		if(!result) RETURN_ERROR("Out of memory");
+	}
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult) result = shrink_result(result, len);
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
-- 
2.43.0


From c020e8c3287db5d4a31eadae38bf7232cddde576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 13/24] fix: column returned by the encoder was wrong if the
 data ended at the end of a line

---
 src/encoder.cc       | 2 ++
 src/encoder_common.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/encoder.cc b/src/encoder.cc
index b0642fb..fbc7bcd 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -107,8 +107,10 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			if (RapidYenc::escapedLUT[c] && c != '.'-42) {
 				memcpy(p, &RapidYenc::escapedLUT[c], sizeof(uint16_t));
 				p += 2;
+				col += 2;
 			} else {
 				*(p++) = c + 42;
+				col++;
 			}
 		}
 		
diff --git a/src/encoder_common.h b/src/encoder_common.h
index 8e4975c..4031305 100644
--- a/src/encoder_common.h
+++ b/src/encoder_common.h
@@ -65,8 +65,10 @@ static size_t do_encode_simd(int line_size, int* colOffset, const unsigned char*
 				if (RapidYenc::escapedLUT[c] && c != '.'-42) {
 					memcpy(p, RapidYenc::escapedLUT + c, 2);
 					p += 2;
+					(*colOffset) += 2;
 				} else {
 					*(p++) = c + 42;
+					(*colOffset) += 1;
 				}
 				if(i == 0) break;
 				c = es[i++];
-- 
2.43.0


From 084bbd6f03aae16148d04735f0eabece56e90713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 14/24] fix: encodeIncr didn't accept or misinterpreted the
 column of a full line

---
 src/yencode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 08a36cc..0e13c03 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -203,9 +203,9 @@ FUNC(EncodeIncr) {
 			argp++;
 			if (args.Length() > argp) {
 				col = (int)ARG_TO_INT(args[argp]);
-				if (col > line_size || col < 0)
+				// a full line, which can be one character over the line size, needs to be followed by a newline
+				if (col > line_size+1 || col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
-				if (col == line_size) col = 0; // allow this case
 			}
 		}
 		// check that destination buffer has enough space
-- 
2.43.0


From 449efdced3530ebbaa3b17929049ccd13159f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 15/24] fix: report sizes beyond 2 GiB correctly from encodeTo,
 decodeTo, decodeChunk and encodeIncr

---
 src/yencode.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 0e13c03..d2e69d9 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -101,6 +101,9 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 #define MARK_EXT_MEM V8::AdjustAmountOfExternalAllocatedMemory
 #endif
 
+// sizes can exceed the 32-bit range of Integer::New
+#define NEW_SIZE(n) Number::New(ISOLATE (double)(n))
+
 #if NODE_VERSION_AT_LEAST(12, 0, 0)
 # define SET_OBJ(obj, key, val) (obj)->Set(isolate->GetCurrentContext(), NEW_STRING(key), val).Check()
 #else
@@ -174,7 +177,7 @@ FUNC(EncodeTo) {
 		RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, true);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( NEW_SIZE(len) );
 }
 
 FUNC(EncodeIncr) {
@@ -231,7 +234,7 @@ FUNC(EncodeIncr) {
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "written", NEW_SIZE(len));
 	if(allocResult) {
 		result = shrink_result(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
@@ -282,7 +285,7 @@ FUNC(DecodeTo) {
 		isRaw = ARG_TO_BOOL(args[2]);
 	
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, NULL);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( NEW_SIZE(len) );
 }
 
 
@@ -332,8 +335,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	Local<Object> ret = NEW_OBJECT;
-	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "read", NEW_SIZE(sp - src));
+	SET_OBJ(ret, "written", NEW_SIZE(len));
 	if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
-- 
2.43.0


From 64e2c67988f211c6c28193ff7612bc599845d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 16/24] fix: take linear time for long words on yEnc control
 lines

The property expression retried from every character of a word, so a
control line of a few hundred KB without '=' stalled from_post for minutes.
---
 index.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index f761a69..9788b92 100644
--- a/index.js
+++ b/index.js
@@ -7,7 +7,7 @@ var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray :
 
 var nl = toBuffer([13, 10]);
 var RE_BADCHAR = /[\r\n\0]/g;
-var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
+var RE_YPROP = /(?:^|[^a-z_0-9])[0-9]*([a-z_][a-z_0-9]*)=/; // tied to where a word starts, so that long words don't take quadratic time
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
 
@@ -86,11 +86,12 @@ var decoderParseLines = function(lines, ydata) {
 		// parse props
 		var m = line.match(RE_YPROP);
 		while(m) {
-			if(m.index != 0) {
-				warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional data ignored: "' + line.substring(0, m.index) + '"'));
-			}
 			var prop = m[1], val;
 			var valPos = m.index + m[0].length;
+			var propPos = valPos - prop.length - 1;
+			if(propPos != 0) {
+				warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional data ignored: "' + line.substring(0, propPos) + '"'));
+			}
 			if(tag == 'begin' && prop == 'name') {
 				// special treatment of filename - the value is the rest of the line (can include spaces)
 				val = line.substring(valPos);
-- 
2.43.0


From 74dbc9416d18a55e937a4e2459e81897d9a289aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 17/24] fix: keep the LF of a line break intact on big-endian
 machines

---
 src/encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.cc b/src/encoder.cc
index fbc7bcd..aae7f12 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -124,7 +124,7 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			col = 2;
 		} else {
 			// another option may be to just write the EOL and let the first char be handled by the faster methods above, but it appears that writing the extra byte here is generally faster...
-			uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)(c+42), 0);
+			uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)((c+42) & 0xff), 0);
 			memcpy(p, &w, sizeof(w));
 			p += 3;
 			col = 1;
-- 
2.43.0


From aa79519064261ff97e8dfa40c45b3359a1200fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 18/24] fix: decode runs of = on RISC-V processors with vectors
 of 512 bits or more

---
 src/decoder_rvv.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/decoder_rvv.cc b/src/decoder_rvv.cc
index d2315ff..0050925 100644
--- a/src/decoder_rvv.cc
+++ b/src/decoder_rvv.cc
@@ -31,10 +31,11 @@ static inline vbool4_t mask_lshift(vbool4_t m, unsigned shiftIn, size_t vl) {
 }
 template<int shift>
 static inline vbool64_t mask_lshift(vbool64_t m, unsigned shiftIn, size_t vl) {
+	size_t bytes = (vl+7)/8; // vl isn't necessarily a multiple of 8 here
 	vuint8m1_t mv = RV_VEC_CAST(64, 8, m);
-	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vl/8);
-	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vl/8);
-	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vl/8);
+	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, bytes);
+	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, bytes);
+	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, bytes);
 	
 	return RV(vmor_mm_b64)(
 		RV_MASK_CAST(64, 8, mvl), RV_MASK_CAST(64, 8, mvr), vl
@@ -226,9 +227,9 @@ HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, long& len, unsigned
 					unsigned vl64 = vl2/64;
 					vbool64_t carry = RV(vmadc_vv_u64m1_b64)(cmpEq64, evenStart64, vl64);
 					carry = mask_lshift<1>(carry, 0, vl64);
-					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, 1);
+					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, vl64);
 					while(RV(vcpop_m_b64)(carry, vl64)) {
-						vbool64_t nextCarry = RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64);
+						vbool64_t nextCarry = RV(vmand_mm_b64)(RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64), carry, vl64);
 						oddGroups64 = RV(vadd_vx_u64m1_mu)(carry, oddGroups64, oddGroups64, 1, vl64);
 						carry = mask_lshift<1>(nextCarry, 0, vl64);
 					}
-- 
2.43.0


From ce61e388bf94fbb1963de0121ff0dd8f3a07202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 19/24] fix: don't read unaligned words when computing short
 CRCs on 32-bit ARM

---
 src/crc_arm.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crc_arm.cc b/src/crc_arm.cc
index 6eb6815..d983839 100644
--- a/src/crc_arm.cc
+++ b/src/crc_arm.cc
@@ -115,6 +115,14 @@ static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
 		}
 #endif
 	}
+#ifndef __aarch64__
+	// a compiler may merge the word reads below into LDM/LDRD, which fault if the address isn't word aligned
+	else if ((uintptr_t)src & (sizeof(WORD_T)-1)) {
+		while (len-- > 0)
+			crc = __crc32b(crc, *(src++));
+		return crc;
+	}
+#endif
 	
 	const WORD_T* srcW = (const WORD_T*)src;
 	
-- 
2.43.0


From 0bcfbd780bb95a8b18d9fbff7756fe32236d2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 20/24] fix: handle inputs of 2 GiB and more where long has 32
 bits (64-bit Windows)

---
 src/crc_arm.cc          | 6 +++---
 src/crc_folding.cc      | 4 ++--
 src/crc_folding_256.cc  | 4 ++--
 src/decoder.cc          | 4 ++--
 src/decoder_avx2_base.h | 6 +++---
 src/decoder_common.h    | 8 ++++----
 src/decoder_neon.cc     | 4 ++--
 src/decoder_neon64.cc   | 4 ++--
 src/decoder_rvv.cc      | 4 ++--
 src/decoder_sse_base.h  | 6 +++---
 src/encoder.cc          | 2 +-
 src/encoder_common.h    | 2 +-
 src/encoder_neon.cc     | 4 ++--
 13 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/crc_arm.cc b/src/crc_arm.cc
index d983839..d8efc1c 100644
--- a/src/crc_arm.cc
+++ b/src/crc_arm.cc
@@ -93,7 +93,7 @@ static uint32_t crc32_multiply_arm(uint32_t a, uint32_t b) {
 
 
 // inspired/stolen off https://github.com/jocover/crc32_armv8/blob/master/crc32_armv8.c
-static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
+static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, intptr_t len) {
 	
 	// initial alignment
 	if (len >= 16) { // 16 is an arbitrary number; it just needs to be >=8
@@ -132,7 +132,7 @@ static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
 	const unsigned SPLIT_WORDS_LOG = 10;  // make sure it's at least 2
 	const unsigned SPLIT_WORDS = 1<<SPLIT_WORDS_LOG;
 	const unsigned blockCoeff = RapidYenc::crc_power[SPLIT_WORDS_LOG + WORDSIZE_LOG + 3];
-	while(len >= (long)(sizeof(WORD_T)*SPLIT_WORDS*2)) {
+	while(len >= (intptr_t)(sizeof(WORD_T)*SPLIT_WORDS*2)) {
 		// compute 2x CRCs concurrently to leverage piplining
 		uint32_t crc2 = 0;
 		for(unsigned i=0; i<SPLIT_WORDS; i+=4) {
@@ -198,7 +198,7 @@ static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
 }
 
 static uint32_t do_crc32_incremental_arm(const void* data, size_t length, uint32_t init) {
-	return ~arm_crc_calc(~init, (const unsigned char*)data, (long)length);
+	return ~arm_crc_calc(~init, (const unsigned char*)data, (intptr_t)length);
 }
 
 
diff --git a/src/crc_folding.cc b/src/crc_folding.cc
index 1af8b14..5581cdf 100644
--- a/src/crc_folding.cc
+++ b/src/crc_folding.cc
@@ -136,7 +136,7 @@ ALIGN_TO(16, static const unsigned crc_mask[4]) = {
 };
 
 
-static uint32_t crc_fold(const unsigned char *src, long len, uint32_t initial) {
+static uint32_t crc_fold(const unsigned char *src, intptr_t len, uint32_t initial) {
     unsigned long algn_diff;
     __m128i xmm_t0, xmm_t1, xmm_t2, xmm_t3;
 
@@ -352,7 +352,7 @@ done:
 }
 
 static uint32_t do_crc32_incremental_clmul(const void* data, size_t length, uint32_t init) {
-	return crc_fold((const unsigned char*)data, (long)length, init);
+	return crc_fold((const unsigned char*)data, (intptr_t)length, init);
 }
 
 
diff --git a/src/crc_folding_256.cc b/src/crc_folding_256.cc
index 28b0757..914ecaa 100644
--- a/src/crc_folding_256.cc
+++ b/src/crc_folding_256.cc
@@ -98,7 +98,7 @@ ALIGN_TO(16, static const unsigned crc_k[]) = {
 };
 
 
-static uint32_t crc_fold(const unsigned char *src, long len, uint32_t initial) {
+static uint32_t crc_fold(const unsigned char *src, intptr_t len, uint32_t initial) {
 	__m128i xmm_t0 = _mm_clmulepi64_si128(
 		_mm_cvtsi32_si128(~initial),
 		_mm_cvtsi32_si128(0xdfded7ec),
@@ -207,7 +207,7 @@ static uint32_t crc_fold(const unsigned char *src, long len, uint32_t initial) {
 }
 
 static uint32_t do_crc32_incremental_clmul(const void* data, size_t length, uint32_t init) {
-	return crc_fold((const unsigned char*)data, (long)length, init);
+	return crc_fold((const unsigned char*)data, (intptr_t)length, init);
 }
 
 void RapidYenc::crc_clmul256_set_funcs() {
diff --git a/src/decoder.cc b/src/decoder.cc
index 2b0cbe7..85c4c90 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -15,7 +15,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 	
 	const unsigned char *es = src + len; // end source pointer
 	unsigned char *p = dest; // destination pointer
-	long i = -(long)len; // input position
+	intptr_t i = -(intptr_t)len; // input position
 	unsigned char c; // input character
 	
 	if(len < 1) return 0;
@@ -151,7 +151,7 @@ static RapidYenc::YencDecoderEnd do_decode_end_scalar(const unsigned char** src,
 	
 	const unsigned char *es = (*src) + len; // end source pointer
 	unsigned char *p = *dest; // destination pointer
-	long i = -(long)len; // input position
+	intptr_t i = -(intptr_t)len; // input position
 	unsigned char c; // input character
 	
 	if(len < 1) return YDEC_END_NONE;
diff --git a/src/decoder_avx2_base.h b/src/decoder_avx2_base.h
index ca46a27..224ed4e 100644
--- a/src/decoder_avx2_base.h
+++ b/src/decoder_avx2_base.h
@@ -52,7 +52,7 @@ static HEDLEY_ALWAYS_INLINE __m256i force_align_read_256(const void* p) {
 namespace RapidYenc {
 
 template<bool isRaw, bool searchEnd, enum YEncDecIsaLevel use_isa>
-HEDLEY_ALWAYS_INLINE void do_decode_avx2(const uint8_t* src, long& len, unsigned char*& p, unsigned char& _escFirst, uint16_t& _nextMask) {
+HEDLEY_ALWAYS_INLINE void do_decode_avx2(const uint8_t* src, intptr_t& len, unsigned char*& p, unsigned char& _escFirst, uint16_t& _nextMask) {
 	HEDLEY_ASSUME(_escFirst == 0 || _escFirst == 1);
 	HEDLEY_ASSUME(_nextMask == 0 || _nextMask == 1 || _nextMask == 2);
 	uintptr_t escFirst = _escFirst;
@@ -322,7 +322,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_avx2(const uint8_t* src, long& len, unsigned
 						if(LIKELIHOOD(0.002, matchEnd)) {
 							// terminator found
 							// there's probably faster ways to do this, but reverting to scalar code should be good enough
-							len += (long)i;
+							len += (intptr_t)i;
 							_nextMask = decoder_set_nextMask<isRaw>(src+i, mask);
 							break;
 						}
@@ -415,7 +415,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_avx2(const uint8_t* src, long& len, unsigned
 							));
 						}
 						if(endFound) {
-							len += (long)i;
+							len += (intptr_t)i;
 							_nextMask = decoder_set_nextMask<isRaw>(src+i, mask);
 							break;
 						}
diff --git a/src/decoder_common.h b/src/decoder_common.h
index 0febde1..1723fc2 100644
--- a/src/decoder_common.h
+++ b/src/decoder_common.h
@@ -23,7 +23,7 @@ namespace RapidYenc {
 
 
 
-template<bool isRaw, bool searchEnd, void(&kernel)(const uint8_t*, long&, unsigned char*&, unsigned char&, uint16_t&)>
+template<bool isRaw, bool searchEnd, void(&kernel)(const uint8_t*, intptr_t&, unsigned char*&, unsigned char&, uint16_t&)>
 static inline RapidYenc::YencDecoderEnd _do_decode_simd(size_t width, const unsigned char** src, unsigned char** dest, size_t len, RapidYenc::YencDecoderState* state) {
 	using namespace RapidYenc;
 	
@@ -121,7 +121,7 @@ static inline RapidYenc::YencDecoderEnd _do_decode_simd(size_t width, const unsi
 		escFirst = (*pState == YDEC_STATE_EQ || *pState == YDEC_STATE_CRLFEQ);
 		
 		// our algorithm may perform an aligned load on the next part, of which we consider 2 bytes (for \r\n. sequence checking)
-		long dLen = (long)(len - lenBuffer);
+		intptr_t dLen = (intptr_t)(len - lenBuffer);
 		dLen = (dLen + (width-1)) & ~(width-1);
 		
 		kernel((const uint8_t*)(*src) + dLen, dLen, p, escFirst, nextMask);
@@ -155,11 +155,11 @@ static inline RapidYenc::YencDecoderEnd _do_decode_simd(size_t width, const unsi
 	return YDEC_END_NONE;
 }
 
-template<bool isRaw, bool searchEnd, size_t width, void(&kernel)(const uint8_t*, long&, unsigned char*&, unsigned char&, uint16_t&)>
+template<bool isRaw, bool searchEnd, size_t width, void(&kernel)(const uint8_t*, intptr_t&, unsigned char*&, unsigned char&, uint16_t&)>
 static RapidYenc::YencDecoderEnd do_decode_simd(const unsigned char** src, unsigned char** dest, size_t len, RapidYenc::YencDecoderState* state) {
 	return _do_decode_simd<isRaw, searchEnd, kernel>(width, src, dest, len, state);
 }
-template<bool isRaw, bool searchEnd, size_t(&getWidth)(), void(&kernel)(const uint8_t*, long&, unsigned char*&, unsigned char&, uint16_t&)>
+template<bool isRaw, bool searchEnd, size_t(&getWidth)(), void(&kernel)(const uint8_t*, intptr_t&, unsigned char*&, unsigned char&, uint16_t&)>
 static RapidYenc::YencDecoderEnd do_decode_simd(const unsigned char** src, unsigned char** dest, size_t len, RapidYenc::YencDecoderState* state) {
 	return _do_decode_simd<isRaw, searchEnd, kernel>(getWidth(), src, dest, len, state);
 }
diff --git a/src/decoder_neon.cc b/src/decoder_neon.cc
index ac325c5..97d7c67 100644
--- a/src/decoder_neon.cc
+++ b/src/decoder_neon.cc
@@ -56,7 +56,7 @@ static bool neon_vect_is_nonzero(uint8x16_t v) {
 namespace RapidYenc {
 
 template<bool isRaw, bool searchEnd>
-HEDLEY_ALWAYS_INLINE void do_decode_neon(const uint8_t* src, long& len, unsigned char*& p, unsigned char& escFirst, uint16_t& nextMask) {
+HEDLEY_ALWAYS_INLINE void do_decode_neon(const uint8_t* src, intptr_t& len, unsigned char*& p, unsigned char& escFirst, uint16_t& nextMask) {
 	HEDLEY_ASSUME(escFirst == 0 || escFirst == 1);
 	HEDLEY_ASSUME(nextMask == 0 || nextMask == 1 || nextMask == 2);
 	uint8x16_t yencOffset = escFirst ? vmakeq_u8(42+64,42,42,42,42,42,42,42,42,42,42,42,42,42,42,42) : vdupq_n_u8(42);
@@ -78,7 +78,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_neon(const uint8_t* src, long& len, unsigned
 	
 	decoder_set_nextMask<isRaw>(src, len, nextMask);
 	
-	long i;
+	intptr_t i;
 	for(i = -len; i; i += sizeof(uint8x16_t)*2) {
 		uint8x16x2_t data = vld1q_u8_x2_align(src+i, 32);
 		uint8x16_t dataA = data.val[0];
diff --git a/src/decoder_neon64.cc b/src/decoder_neon64.cc
index 0ab42a1..c518016 100644
--- a/src/decoder_neon64.cc
+++ b/src/decoder_neon64.cc
@@ -47,7 +47,7 @@ static HEDLEY_ALWAYS_INLINE uint8x16_t mergeCompares(uint8x16_t a, uint8x16_t b,
 namespace RapidYenc {
 
 template<bool isRaw, bool searchEnd>
-HEDLEY_ALWAYS_INLINE void do_decode_neon(const uint8_t* src, long& len, unsigned char*& p, unsigned char& escFirst, uint16_t& nextMask) {
+HEDLEY_ALWAYS_INLINE void do_decode_neon(const uint8_t* src, intptr_t& len, unsigned char*& p, unsigned char& escFirst, uint16_t& nextMask) {
 	HEDLEY_ASSUME(escFirst == 0 || escFirst == 1);
 	HEDLEY_ASSUME(nextMask == 0 || nextMask == 1 || nextMask == 2);
 	uint8x16_t nextMaskMix = vdupq_n_u8(0);
@@ -59,7 +59,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_neon(const uint8_t* src, long& len, unsigned
 	
 	decoder_set_nextMask<isRaw>(src, len, nextMask);
 	
-	long i;
+	intptr_t i;
 	for(i = -len; i; i += sizeof(uint8x16_t)*4) {
 		uint8x16x4_t data = _vld1q_u8_x4(src+i);
 		uint8x16_t dataA = data.val[0];
diff --git a/src/decoder_rvv.cc b/src/decoder_rvv.cc
index 0050925..c3eb169 100644
--- a/src/decoder_rvv.cc
+++ b/src/decoder_rvv.cc
@@ -63,7 +63,7 @@ static inline vuint16m2_t set_first_vu16(vuint16m2_t src, uint16_t item, size_t
 namespace RapidYenc {
 
 template<bool isRaw, bool searchEnd>
-HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, long& len, unsigned char*& outp, unsigned char& escFirst, uint16_t& nextMask) {
+HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, intptr_t& len, unsigned char*& outp, unsigned char& escFirst, uint16_t& nextMask) {
 	HEDLEY_ASSUME(escFirst == 0 || escFirst == 1);
 	HEDLEY_ASSUME(nextMask == 0 || nextMask == 1 || nextMask == 2);
 	
@@ -87,7 +87,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, long& len, unsigned
 	decoder_set_nextMask<isRaw>(src, len, nextMask);
 	
 	// TODO: consider exploiting partial vector capability
-	long inpos;
+	intptr_t inpos;
 	for(inpos = -len; inpos; inpos += vl2) {
 		vuint8m2_t data = RV(vle8_v_u8m2)(src + inpos, vl2);
 		
diff --git a/src/decoder_sse_base.h b/src/decoder_sse_base.h
index 042faf9..3ad9c56 100644
--- a/src/decoder_sse_base.h
+++ b/src/decoder_sse_base.h
@@ -97,7 +97,7 @@ static HEDLEY_ALWAYS_INLINE __m128i sse2_compact_vect(uint32_t mask, __m128i dat
 namespace RapidYenc {
 
 template<bool isRaw, bool searchEnd, enum YEncDecIsaLevel use_isa>
-HEDLEY_ALWAYS_INLINE void do_decode_sse(const uint8_t* src, long& len, unsigned char*& p, unsigned char& _escFirst, uint16_t& _nextMask) {
+HEDLEY_ALWAYS_INLINE void do_decode_sse(const uint8_t* src, intptr_t& len, unsigned char*& p, unsigned char& _escFirst, uint16_t& _nextMask) {
 	HEDLEY_ASSUME(_escFirst == 0 || _escFirst == 1);
 	HEDLEY_ASSUME(_nextMask == 0 || _nextMask == 1 || _nextMask == 2);
 	uintptr_t escFirst = _escFirst;
@@ -371,7 +371,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_sse(const uint8_t* src, long& len, unsigned
 						if(LIKELIHOOD(0.001, matchEnd)) {
 							// terminator found
 							// there's probably faster ways to do this, but reverting to scalar code should be good enough
-							len += (long)i;
+							len += (intptr_t)i;
 							_nextMask = decoder_set_nextMask<isRaw>(src+i, mask);
 							break;
 						}
@@ -481,7 +481,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_sse(const uint8_t* src, long& len, unsigned
 						}
 						
 						if(endFound) {
-							len += (long)i;
+							len += (intptr_t)i;
 							_nextMask = decoder_set_nextMask<isRaw>(src+i, mask);
 							break;
 						}
diff --git a/src/encoder.cc b/src/encoder.cc
index aae7f12..3fade7c 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -30,7 +30,7 @@ const uint16_t RapidYenc::escapedLUT[256] = { // escaped sequences for character
 size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigned char* HEDLEY_RESTRICT src, unsigned char* HEDLEY_RESTRICT dest, size_t len, int doEnd) {
 	unsigned char* es = (unsigned char*)src + len;
 	unsigned char *p = dest; // destination pointer
-	long i = -(long)len; // input position
+	intptr_t i = -(intptr_t)len; // input position
 	unsigned char c, escaped; // input character; escaped input character
 	int col = *colOffset;
 	
diff --git a/src/encoder_common.h b/src/encoder_common.h
index 4031305..7e887c7 100644
--- a/src/encoder_common.h
+++ b/src/encoder_common.h
@@ -36,7 +36,7 @@ static size_t do_encode_simd(int line_size, int* colOffset, const unsigned char*
 	kernel(line_size, colOffset, es, p, len);
 	
 	// scalar loop to process remaining
-	long i = -(long)len;
+	intptr_t i = -(intptr_t)len;
 	if(*colOffset == 0 && i < 0) {
 		uint8_t c = es[i++];
 		if (LIKELIHOOD(0.0273, RapidYenc::escapedLUT[c] != 0)) {
diff --git a/src/encoder_neon.cc b/src/encoder_neon.cc
index e3faab2..dec8714 100644
--- a/src/encoder_neon.cc
+++ b/src/encoder_neon.cc
@@ -55,7 +55,7 @@ static HEDLEY_ALWAYS_INLINE int clz_n(uint32_t v) {
 static uint8x16_t ALIGN_TO(16, shufLUT[256]);
 static uint16_t expandLUT[256];
 
-static HEDLEY_ALWAYS_INLINE void encode_eol_handle_pre(const uint8_t* HEDLEY_RESTRICT es, long& i, uint8_t*& p, long& col, long lineSizeOffset) {
+static HEDLEY_ALWAYS_INLINE void encode_eol_handle_pre(const uint8_t* HEDLEY_RESTRICT es, intptr_t& i, uint8_t*& p, long& col, long lineSizeOffset) {
 	uint8x16_t oDataA = vld1q_u8(es + i);
 	uint8x16_t oDataB = vld1q_u8(es + i + sizeof(uint8x16_t));
 	uint8x16_t dataA = oDataA;
@@ -267,7 +267,7 @@ HEDLEY_ALWAYS_INLINE void do_encode_neon(int line_size, int* colOffset, const ui
 	if(len <= INPUT_OFFSET || line_size < (int)sizeof(uint8x16_t)*4) return;
 	
 	uint8_t *p = dest; // destination pointer
-	long i = -(long)len; // input position
+	intptr_t i = -(intptr_t)len; // input position
 	long lineSizeOffset = -line_size +32; // line size plus vector length
 	long col = *colOffset - line_size +1;
 	
-- 
2.43.0


From e64c0f813ee0a5a021ae0ba8d9d32720a85beac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:21 +0000
Subject: [PATCH 21/24] fix: from_post works without a receiver (`const {
 from_post } = require('yencode')`)

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 9788b92..57876b6 100644
--- a/index.js
+++ b/index.js
@@ -236,7 +236,7 @@ module.exports = {
 		var sp = yencStart;
 		var p = bufferFind(data, '\r\n', yencStart+8);
 		while(p > 0) {
-			var line = bufferSlice.call(data, sp, p).toString(this.encoding).trim();
+			var line = bufferSlice.call(data, sp, p).toString(module.exports.encoding).trim();
 			lines.push(line);
 			sp = p+2;
 			if(line.substring(0, 6) == '=yend ') { // no data in post
@@ -270,7 +270,7 @@ module.exports = {
 				ret.yencEnd = p;
 			} else
 				ret.yencEnd = p+2;
-			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(this.encoding).trim();
+			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(module.exports.encoding).trim();
 			
 			warnings = warnings.concat(decoderParseLines([endLine], ydata));
 		}
-- 
2.43.0


From 6d647f6bb141ce2a3c465847b07f960acc0ca957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 22/24] fix: minSize doesn't count a newline after a full last
 line

---
 README.md | 2 +-
 index.js  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index ade7422..b9ff91c 100644
--- a/README.md
+++ b/README.md
@@ -72,7 +72,7 @@ For usage with *encodeTo*, the *escape_ratio* must be 1.
 
 Returns the minimum possible size for a raw yEnc encoded message of *length* bytes. Unlike `maxSize`, this does not include alignment provisions for *yencode*‘s implementation of yEnc.
 
-This is equivalent to `maxSize(length, line_size, 0) - 2` (`maxSize` adds a 2 to provision for an early end-of-line due to a line offset being used).
+This is `maxSize(length, line_size, 0)` without its provisions (for alignment, and for an early end-of-line due to a line offset being used), and without a newline following a full last line.
 
 ### Buffer decode(Buffer data, bool stripDots=false)
 
diff --git a/index.js b/index.js
index 57876b6..b21bca4 100644
--- a/index.js
+++ b/index.js
@@ -173,7 +173,7 @@ module.exports = {
 	minSize: function(length, line_size) {
 		if(!length) return 0;
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / (line_size||128)); // newlines (there's none after the last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0


From 8bf786b7bf18541d3a5903399c49d7e2ccf8d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 23/24] fix: read properties and lines of posts named like
 inherited ones (constructor, __proto__)

---
 index.js | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index b21bca4..89a238a 100644
--- a/index.js
+++ b/index.js
@@ -72,6 +72,12 @@ else
 		return -1;
 	};
 
+// names of lines and properties come from the post, so can clash with what objects inherit ('constructor', '__proto__')
+var hasOwn = Object.prototype.hasOwnProperty;
+var setOwn = function(obj, key, value) {
+	Object.defineProperty(obj, key, {value: value, configurable: true, enumerable: true, writable: true});
+};
+
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
@@ -101,20 +107,20 @@ var decoderParseLines = function(lines, ydata) {
 				val = (p<0 ? line.substring(valPos) : line.substring(valPos, p));
 				line = line.substring(valPos + val.length +1);
 			}
-			if(prop in yprops) {
+			if(hasOwn.call(yprops, prop)) {
 				warnings.push(DecoderWarning('duplicate_property', 'Duplicate property encountered: `' + prop + '`'));
 			}
-			yprops[prop] = val;
+			setOwn(yprops, prop, val);
 			m = line.match(RE_YPROP);
 		}
 		if(line != '') {
 			warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional end-of-line data ignored: "' + line + '"'));
 		}
 		
-		if(tag in ydata) {
+		if(hasOwn.call(ydata, tag)) {
 			warnings.push(DecoderWarning('duplicate_line', 'Duplicate line encountered: `' + tag + '`'));
 		}
-		ydata[tag] = yprops;
+		setOwn(ydata, tag, yprops);
 	}
 	return warnings;
 };
-- 
2.43.0


From 17b1168d025d1c9f03dc5955415957d817496086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:34 +0000
Subject: [PATCH 24/24] fix: throw instead of aborting the process when Node
 refuses to create the result Buffer

---
 src/yencode.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index d2e69d9..3725075 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -70,7 +70,8 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 # endif
 # define NEW_OBJECT Object::New(isolate)
 # if NODE_VERSION_AT_LEAST(3, 0, 0) // iojs3
-#  define NEW_BUFFER(...) node::Buffer::New(ISOLATE __VA_ARGS__).ToLocalChecked()
+// an empty handle, with an exception thrown, if Node refuses to create the Buffer (e.g. exceeds its size limit)
+#  define NEW_BUFFER(...) node::Buffer::New(ISOLATE __VA_ARGS__).FromMaybe(Local<Object>())
 # else
 #  define NEW_BUFFER(...) node::Buffer::New(ISOLATE __VA_ARGS__)
 # endif
@@ -237,7 +238,9 @@ FUNC(EncodeIncr) {
 	SET_OBJ(ret, "written", NEW_SIZE(len));
 	if(allocResult) {
 		result = shrink_result(result, len);
-		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
+		Local<Object> output = NEW_BUFFER((char*)result, len, free_buffer, (void*)len);
+		if(output.IsEmpty()) RETURN_UNDEF;
+		SET_OBJ(ret, "output", output);
 		MARK_EXT_MEM(len);
 	}
 	SET_OBJ(ret, "col", Integer::New(ISOLATE col));
@@ -338,7 +341,9 @@ FUNC(DecodeIncr) {
 	SET_OBJ(ret, "read", NEW_SIZE(sp - src));
 	SET_OBJ(ret, "written", NEW_SIZE(len));
 	if(allocResult) {
-		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
+		Local<Object> output = NEW_BUFFER((char*)result, len, free_buffer, (void*)len);
+		if(output.IsEmpty()) RETURN_UNDEF;
+		SET_OBJ(ret, "output", output);
 		MARK_EXT_MEM(len);
 	}
 	SET_OBJ(ret, "ended", Integer::New(ISOLATE (int)ended));
@@ -357,6 +362,7 @@ static inline Local<Object> pack_crc32(
 #endif
 uint32_t crc) {
 	Local<Object> buff = NEW_BUFFER(4);
+	if(buff.IsEmpty()) return buff;
 	unsigned char* d = (unsigned char*)node::Buffer::Data(buff);
 	d[0] = (unsigned char)(crc >> 24) & 0xFF;
 	d[1] = (unsigned char)(crc >> 16) & 0xFF;
-- 
2.43.0

