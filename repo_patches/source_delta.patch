From 987de435493de4812d9e6f15b59f2f46394f52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 01/14] fix: decodeTo throws when the output buffer is too
 small

The README documents an error for an output smaller than the input, but 0 was
returned, which is indistinguishable from an empty decode.
---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..be6e5b8 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -266,7 +266,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From 76d9331c225962843533c344a6f684b7c3435942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 02/14] fix: encodeIncr checks the output size against the
 given line size

The space required was computed before line_size was read, so with short lines
a too small output buffer was accepted and overrun.
---
 src/yencode.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index be6e5b8..abba5fc 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -184,10 +184,6 @@ FUNC(EncodeIncr) {
 		if(node::Buffer::HasInstance(args[1])) {
 			// grab destination
 			allocResult = false;
-			// check that destination buffer has enough space
-			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
-			if(node::Buffer::Length(args[1]) < dest_len)
-				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 			result = (unsigned char*)node::Buffer::Data(args[1]);
 			argp++;
 		}
@@ -204,6 +200,12 @@ FUNC(EncodeIncr) {
 				if (col == line_size) col = 0; // allow this case
 			}
 		}
+		if (!allocResult) {
+			// check that destination buffer has enough space
+			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
+			if(node::Buffer::Length(args[1]) < dest_len)
+				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
+		}
 	}
 	
 	Local<Object> ret = NEW_OBJECT;
-- 
2.43.0


From dbdb65c5073db5ba688599b5f1d1617e5909e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 03/14] fix: decoding to nothing gives an ordinary empty
 Buffer, not a detached one

---
 src/yencode.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index abba5fc..cc820e4 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -251,6 +251,11 @@ FUNC(Decode) {
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
+	if (len == 0) {
+		// realloc to 0 gives NULL, which makes for a detached (unusable) Buffer
+		free(result);
+		RETURN_VAL( NEW_BUFFER(0) );
+	}
 	result = (unsigned char*)realloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
@@ -315,7 +320,7 @@ FUNC(DecodeIncr) {
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult && len) result = (unsigned char*)realloc(result, len);
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
@@ -325,8 +330,14 @@ FUNC(DecodeIncr) {
 	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
 	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
 	if(allocResult) {
-		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
-		MARK_EXT_MEM(len);
+		if(len) {
+			SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
+			MARK_EXT_MEM(len);
+		} else {
+			// a Buffer can't be made out of NULL memory (it'd be detached)
+			free(result);
+			SET_OBJ(ret, "output", NEW_BUFFER(0));
+		}
 	}
 	SET_OBJ(ret, "ended", Integer::New(ISOLATE (int)ended));
 	SET_OBJ(ret, "state", Integer::New(ISOLATE state));
-- 
2.43.0


From d968fcacea5578a008be64094f205dca5447a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 04/14] fix: strip every CR, LF and NUL from file names written
 to =ybegin

The pattern only matched the three character sequence CR LF NUL, so line breaks in a
file name ended up in the header line.
---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 9be2d49..153ec30 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From 86a4c8b61d5a3fe3270dacaf0bf67876f362082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 05/14] fix: honour the encoding property when writing file
 names

module.exports is reassigned, so exports.encoding was always undefined.
---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 153ec30..43483d6 100644
--- a/index.js
+++ b/index.js
@@ -198,7 +198,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
@@ -364,7 +364,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From c8c0c1896df8017f552b0629ad672b25a4ff4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 06/14] fix: post() calls an encodeCrc function which does not
 exist

Every call threw a ReferenceError.
---
 index.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 43483d6..1044dcd 100644
--- a/index.js
+++ b/index.js
@@ -199,12 +199,11 @@ module.exports = {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
 		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
-		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + y.crc32(data).toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From 8c3c7d124b12a6c0dc45c5023f82b1a352f13f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 07/14] fix: decodeChunk never returns for a state with no
 exact match

The fallback loop increments a variable other than its counter.
---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 1044dcd..c3c8e97 100644
--- a/index.js
+++ b/index.js
@@ -151,7 +151,7 @@ module.exports = {
 		};
 		var state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From e377a12a04c0725e234d0dc3563dac6b88aea6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 08/14] fix: decodeChunk with no data returns an output buffer
 which is not the supplied one

Also make `ended` a boolean there, as it is documented to be.
---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index c3c8e97..87f3b66 100644
--- a/index.js
+++ b/index.js
@@ -145,8 +145,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		var state = decodePrev.indexOf(prev);
-- 
2.43.0


From 93dff63b3c43b6b66c3c69b4a0af7cf76a692ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 09/14] fix: decodeChunk ignores the output buffer in the
 documented argument order

The documentation gives decodeChunk(data, state, output).
---
 index.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 87f3b66..7b60cfc 100644
--- a/index.js
+++ b/index.js
@@ -133,8 +133,10 @@ module.exports = {
 	decodeChunk: function(data, output, prev) {
 		// both output and prev are optional
 		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
-			prev = output;
-			output = null;
+			// output omitted, or the documented order (data, state, output)
+			var given = output;
+			output = Buffer.isBuffer(prev) ? prev : null;
+			if(given !== null || output) prev = given;
 		}
 		if(prev === null || typeof prev === 'undefined')
 			prev = '\r\n';
-- 
2.43.0


From 6189f69c07988384abd9e0897ff54022eb260b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 10/14] fix: minSize counts a newline after the last line

A full last line is not followed by a newline.
---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 7b60cfc..7a02ea7 100644
--- a/index.js
+++ b/index.js
@@ -173,7 +173,7 @@ module.exports = {
 	minSize: function(length, line_size) {
 		if(!length) return 0;
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / (line_size||128)); // newlines (there is none after the last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0


From 1d75c53bb8d60d621574f684ac8a84c29888919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 11/14] fix: YEncoder.encode changes its state before refusing
 data

The part number and CRC were already updated when an error was thrown, so that a
corrected call was refused or got a wrong CRC.
---
 index.js | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/index.js b/index.js
index 7a02ea7..2165388 100644
--- a/index.js
+++ b/index.js
@@ -386,20 +386,22 @@ YEncoder.prototype = {
 	encode: function(data) {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		this.part++;
-		if(this.part > this.parts)
+		if(this.part >= this.parts)
 			throw new Error('Exceeded number of specified yEnc parts');
 		var end = this.pos + data.length;
 		if(end > this.size)
 			throw new Error('Exceeded total file size');
+		var isLast = (this.part+1 == this.parts);
+		if(isLast && end != this.size)
+			throw new Error('File size doesn\'t match total data length');
 		
+		// nothing is changed if the data was refused above
+		this.part++;
 		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
 		this.crc = y.crc32_combine(this.crc, crc, data.length);
-		if(this.part == this.parts) {
+		if(isLast) {
 			// final part treated slightly differently
-			if(end != this.size)
-				throw new Error('File size doesn\'t match total data length');
 			fullCrc = ' crc32='+this.crc.toString('hex');
 			this.yInfo = null;
 		}
-- 
2.43.0


From 63d970359634d8e7729099ca8cb2642f7fe2d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 12/14] fix: from_post treats names inherited from
 Object.prototype as present

A post having a `constructor=1` property was reported to have a duplicate, and
`__proto__` was not returned.
---
 index.js | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 2165388..d33de9b 100644
--- a/index.js
+++ b/index.js
@@ -72,6 +72,14 @@ else
 		return -1;
 	};
 
+// keys come from the post, so may be names which every object inherits
+var hasProp = function(obj, key) {
+	return Object.prototype.hasOwnProperty.call(obj, key);
+};
+var setProp = function(obj, key, val) {
+	Object.defineProperty(obj, key, {value: val, configurable: true, enumerable: true, writable: true});
+};
+
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
@@ -100,20 +108,20 @@ var decoderParseLines = function(lines, ydata) {
 				val = (p<0 ? line.substring(valPos) : line.substring(valPos, p));
 				line = line.substring(valPos + val.length +1);
 			}
-			if(prop in yprops) {
+			if(hasProp(yprops, prop)) {
 				warnings.push(DecoderWarning('duplicate_property', 'Duplicate property encountered: `' + prop + '`'));
 			}
-			yprops[prop] = val;
+			setProp(yprops, prop, val);
 			m = line.match(RE_YPROP);
 		}
 		if(line != '') {
 			warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional end-of-line data ignored: "' + line + '"'));
 		}
 		
-		if(tag in ydata) {
+		if(hasProp(ydata, tag)) {
 			warnings.push(DecoderWarning('duplicate_line', 'Duplicate line encountered: `' + tag + '`'));
 		}
-		ydata[tag] = yprops;
+		setProp(ydata, tag, yprops);
 	}
 	return warnings;
 };
-- 
2.43.0


From 2d5b60b7f3f13bcf62a52582678e29d23ec05ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 13/14] fix: from_post fails for posts with no data if nothing
 follows the =yend line

The line is also recognised if it has no properties.
---
 index.js | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/index.js b/index.js
index d33de9b..5783c15 100644
--- a/index.js
+++ b/index.js
@@ -240,15 +240,14 @@ module.exports = {
 		ret.yencStart = yencStart;
 		
 		// find all start lines
-		var lines = [];
+		var lines = [], isEnd = false, noEndNewline = false;
 		var sp = yencStart;
 		var p = bufferFind(data, '\r\n', yencStart+8);
 		while(p > 0) {
-			var line = bufferSlice.call(data, sp, p).toString(this.encoding).trim();
-			lines.push(line);
+			lines.push(bufferSlice.call(data, sp, p).toString(this.encoding).trim());
 			sp = p+2;
-			if(line.substring(0, 6) == '=yend ') { // no data in post
-				ret.yencEnd = sp;
+			if(isEnd) { // no data in post
+				ret.yencEnd = noEndNewline ? p : sp;
 				break;
 			}
 			
@@ -256,13 +255,20 @@ module.exports = {
 				ret.dataStart = sp;
 				break;
 			}
+			isEnd = (bufferSlice.call(data, sp, sp+6).toString('hex') == '3d79656e6420' /*=yend */);
 			p = bufferFind(data, '\r\n', sp);
+			if(p < 0 && isEnd) {
+				noEndNewline = true;
+				p = data.length;
+			}
 		}
 		if(!ret.dataStart && !ret.yencEnd) // reached end of data but '=yend' not found
 			return DecoderError('no_end_found', 'yEnd end marker not found');
 		
 		var ydata = {};
 		var warnings = decoderParseLines(lines, ydata);
+		if(noEndNewline)
+			warnings.push(DecoderWarning('missing_yend_newline', 'No line terminator found for =yend line'));
 		
 		if(!ret.yencEnd) {
 			var yencEnd = bufferFindRev(bufferSlice.call(data, ret.dataStart), '\r\n=yend ');
-- 
2.43.0


From 596336159a0d4876ec6340f4c1ee76bb92e5fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 14/14] fix: file names can add header lines if encoding is a
 single byte one

Characters such as U+010D become a line break once encoded to latin1.
---
 index.js | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 5783c15..0b2b72d 100644
--- a/index.js
+++ b/index.js
@@ -11,6 +11,12 @@ var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
 
+var encodeFilename = function(filename) {
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	// single byte encodings can turn other characters into these
+	return toBuffer(filename.toString('binary').replace(RE_BADCHAR, ''), 'binary');
+};
+
 var DecoderError = function(code, message) {
 	var err = new Error(message);
 	err.code = code;
@@ -208,7 +214,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+		filename = encodeFilename(filename);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -379,7 +385,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	filename = encodeFilename(filename);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0

