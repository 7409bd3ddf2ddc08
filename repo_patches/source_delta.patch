From 35d71b128253f40622c41d1fa9e6212ab584f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 001/104] fix: RunLength decoding of truncated data

---
 pdfmajor/parser/PDFStream/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index eae568f..e8fa873 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -126,11 +126,14 @@ def rldecode(data):
         if length == 128:
             break
         if length >= 0 and length < 128:
-            for j in range(i+1,(i+1)+(length+1)):
+            for j in range(i+1,min((i+1)+(length+1), len(data))):
                 decoded+=int2byte(data[j])
             
             i = (i+1) + (length+1)
         if length > 128:
+            if i+1 >= len(data):
+                # truncated data
+                break
             run = int2byte(data[i+1])*(257-length)
             decoded+=run
             i = (i+1) + 1
-- 
2.43.0


From d5ec4fbf67ba2e2d24b86b9208706bf9375f6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 002/104] fix: high-order overflow of octal string escapes is
 ignored

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 707e575..2cf71d1 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -299,7 +299,7 @@ class PSBaseParser(object):
             self.oct += c
             return i+1
         if self.oct:
-            self._curtoken += int2byte(int(self.oct, 8))
+            self._curtoken += int2byte(int(self.oct, 8) & 0xff)
             self._current_parse_func = self._parse_string
             return i
         if c in ESC_STRING:
-- 
2.43.0


From 56cde7443d1cfed2d6b0d075c161b46fc0b3b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 003/104] fix: backslash before an undefined character or CR LF
 in strings

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 2cf71d1..ced510c 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -304,9 +304,23 @@ class PSBaseParser(object):
             return i
         if c in ESC_STRING:
             self._curtoken += int2byte(ESC_STRING[c])
+        elif c == b'\r':
+            # line continuation
+            self._current_parse_func = self._parse_string_2
+            return i+1
+        elif c != b'\n':
+            # only the backslash is ignored
+            self._curtoken += c
         self._current_parse_func = self._parse_string
         return i+1
 
+    def _parse_string_2(self, s, i):
+        # the end of line in a line continuation may be CR LF
+        if s[i:i+1] == b'\n':
+            i += 1
+        self._current_parse_func = self._parse_string
+        return i
+
     def _parse_wopen(self, s, i):
         c = s[i:i+1]
         if c == b'<':
-- 
2.43.0


From 3d8c6acd46d10be104b9a9b8847cf66c8070aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 004/104] fix: the last token is lost when the data ends right
 after it

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index ced510c..d6ef499 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -353,7 +353,16 @@ class PSBaseParser(object):
 
     def nexttoken(self):
         while not self._tokens:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the end of data also ends the last token
+                i = 0
+                while i < 1:
+                    i = self._current_parse_func(b'\n', i)
+                if not self._tokens:
+                    raise
+                break
             self.charpos = self._current_parse_func(self.buf, self.charpos)
         token = self._tokens.pop(0)
         log.debug('nexttoken: %r', token)
-- 
2.43.0


From 0f797dbe13d01dd78b0f6a7f68fde1af8f18895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 005/104] fix: a last line without end of line (forwards) or
 first line (backwards) is lost

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index d6ef499..426a837 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -81,7 +81,13 @@ class PSBaseParser(object):
         linepos = self.bufpos + self.charpos
         eol = False
         while 1:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the last line may have no end of line
+                if not linebuf:
+                    raise
+                break
             if eol:
                 c = self.buf[self.charpos:self.charpos+1]
                 # handle b'\r\n'
@@ -126,6 +132,8 @@ class PSBaseParser(object):
                 yield s[n:] + buf
                 s = s[:n]
                 buf = b''
+        if buf:
+            yield buf
         return
 
     def _parse_main(self, s, i):
-- 
2.43.0


From 1eee4fde347737fa18d7072a81d115f9a65978fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 006/104] fix: NUL is white space

---
 pdfmajor/parser/PSStackParser/constants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 970a9c4..82d7cde 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -15,14 +15,14 @@ KEYWORD_DICT_END = KWD(b'>>')
 ##  PSBaseParser
 ##
 EOL = re.compile(br'[\r\n]')
-SPC = re.compile(br'\s')
-NONSPC = re.compile(br'\S')
+SPC = re.compile(br'[\s\x00]')
+NONSPC = re.compile(br'[^\s\x00]')
 HEX = re.compile(br'[0-9a-fA-F]')
-END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s]')
-END_HEX_STRING = re.compile(br'[^\s0-9a-fA-F]')
+END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s\x00]')
+END_HEX_STRING = re.compile(br'[^\s\x000-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
-END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s]')
+END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s\x00]')
 END_STRING = re.compile(br'[()\134]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 9cf5b5a53f2174a852406e38594865a330a534b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 007/104] fix: null in object streams

---
 pdfmajor/parser/PDFParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index daf443d..840d54d 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -169,6 +169,10 @@ class PDFStreamParser(PDFParser):
                 # stream; the obj and endobj keywords are not used.
                 raise PDFSyntaxError('Keyword endobj found in stream')
             return
+        elif token is self.KEYWORD_NULL:
+            # null object
+            self.push((pos, None))
+            return
         # others
         self.push((pos, token))
         return
-- 
2.43.0


From a7ca69ba3d1b8acd42feeaadb634fda0220812a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 008/104] fix: ASCIIHex: white space within a pair of digits,
 data after the EOD marker

---
 pdfmajor/utils/ascii85.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index ec05158..2037972 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -47,6 +47,7 @@ def ascii85decode(data):
 # asciihexdecode(data)
 hex_re = re.compile(b'([a-f\d]{2})', re.IGNORECASE) # pylint: disable=W1401
 trail_re = re.compile(b'^(?:[a-f\d]{2}|\s)*([a-f\d])[\s>]*$', re.IGNORECASE) # pylint: disable=W1401
+space_re = re.compile(br'[\s\x00]')
 
 
 def asciihexdecode(data):
@@ -63,6 +64,9 @@ def asciihexdecode(data):
         i=int(x,16)
         return int2byte(i)
 
+    # white space may stand anywhere, also within a pair of digits;
+    # nothing after the EOD marker counts
+    data = space_re.sub(b'', data[:data.index(b'>')] if b'>' in data else data)
     out=b''
     for x in hex_re.findall(data):
         out+=decode(x)
-- 
2.43.0


From 1b37c2d65fe7709965550791ff1214ffec92f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 009/104] fix: PNG predictors: Sub and Average filters, Paeth
 filter, first row of multi-component images

---
 pdfmajor/utils/generic.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index e6e3149..90f041a 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -33,7 +33,8 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
     nbytes = colors * columns * bitspercomponent // 8
     i = 0
     buf = b''
-    line0 = b'\x00' * columns
+    bpp = colors * bitspercomponent // 8
+    line0 = b'\x00' * nbytes
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
@@ -43,22 +44,26 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
             # PNG none
             line2 += line1
         elif ft == 1:
-            # PNG sub (UNTESTED)
-            c = 0
-            for b in line1:
-                c = (c+b) & 255
-                line2 += int2byte(c)
+            # PNG sub
+            for (j, b) in enumerate(line1):
+                a = line2[j-bpp] if j >= bpp else 0
+                line2 += int2byte((a+b) & 255)
         elif ft == 2:
             # PNG up
             for (a, b) in zip(line0, line1):
                 c = (a+b) & 255
                 line2 += int2byte(c)
         elif ft == 3:
-            # PNG average (UNTESTED)
-            c = 0
-            for (a, b) in zip(line0, line1):
-                c = ((c+a+b)//2) & 255
-                line2 += int2byte(c)
+            # PNG average
+            for (j, (a, b)) in enumerate(zip(line0, line1)):
+                c = line2[j-bpp] if j >= bpp else 0
+                line2 += int2byte(((c+a)//2+b) & 255)
+        elif ft == 4:
+            # PNG paeth
+            for (j, (a, b)) in enumerate(zip(line0, line1)):
+                (c, d) = (line2[j-bpp], line0[j-bpp]) if j >= bpp else (0, 0)
+                p = c+a-d
+                line2 += int2byte((min((c, a, d), key=lambda x: abs(p-x))+b) & 255)
         else:
             # unsupported
             raise ValueError("Unsupported predictor value: %d" % ft)
-- 
2.43.0


From 5b4478ca08f3d71555c258d2e52eb1f2e1808ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 010/104] fix: LZW data without a clear code or with an
 undefined first code

---
 pdfmajor/utils/lzw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 03d0dc7..13c8aa6 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -56,7 +56,11 @@ class LZWDecoder(object):
             self.nbits = 9
         elif code == 257:
             pass
+        elif self.table is None:
+            raise CorruptDataError
         elif not self.prevbuf:
+            if code >= len(self.table):
+                raise CorruptDataError
             x = self.prevbuf = self.table[code]
         else:
             if code < len(self.table):
-- 
2.43.0


From 007729c78720991ffc4e691cd98d77c062601ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 011/104] fix: LZW decoding stops at the end-of-data code

---
 pdfmajor/utils/lzw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 13c8aa6..b2de5ef 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -87,6 +87,8 @@ class LZWDecoder(object):
                 code = self.readbits(self.nbits)
             except EOFError:
                 break
+            if code == 257:
+                break
             try:
                 x = self.feed(code)
             except CorruptDataError:
-- 
2.43.0


From a83a539a40ea3e92153cf2c39c0d91cc880b1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 012/104] fix: exception classes that are raised but not
 defined or imported

---
 pdfmajor/execptions.py                            | 9 +++++++++
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 ++
 pdfmajor/parser/PDFDocument/PDFXRef.py            | 2 +-
 pdfmajor/parser/PDFDocument/__init__.py           | 3 ++-
 pdfmajor/parser/PDFStream/__init__.py             | 2 ++
 pdfmajor/parser/PDFStream/util.py                 | 2 ++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index fa8cdf6..7a9de88 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -63,6 +63,15 @@ class PDFTypeError(PDFException):
 class PDFSyntaxError(PDFException):
     pass
 
+class PDFNotImplementedError(PDFException):
+    pass
+
+class PDFEncryptionError(PDFException):
+    pass
+
+class PDFPasswordIncorrect(PDFEncryptionError):
+    pass
+
 class PDFTextExtractionNotAllowed(PDFException):
     pass
 
diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 71b9bc1..9a5a0c8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -3,6 +3,8 @@ import hashlib as md5
 from Crypto.Cipher import ARC4, AES
 from Crypto.Hash import SHA256
 
+from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
+
 from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 07b507e..4b2b3d1 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError
+from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 44790cb..55fe1f7 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -12,7 +12,8 @@ from pdfmajor.execptions import (
     PSEOF,
     PDFObjectNotFound, 
     PDFTypeError,
-    PDFSyntaxError
+    PDFSyntaxError,
+    PDFEncryptionError
 )
 
 from ...utils import settings, choplist, decode_text
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 82ec8c0..a86ede8 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,5 +1,7 @@
 import zlib
 
+from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
+
 from ...utils import lzwdecode
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index e8fa873..e64ac43 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,5 @@
+from pdfmajor.execptions import PDFTypeError
+
 from .PDFObjRef import PDFObjRef
 from ...utils import settings, isnumber, int2byte
 
-- 
2.43.0


From 70af4aa0dbe4bb181cadf367c453ad2aa519c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 013/104] fix: indirect or short filter and parameter lists

---
 pdfmajor/parser/PDFStream/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index a86ede8..69bb0fd 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -60,8 +60,8 @@ class PDFStream(PDFObject):
         return default
 
     def get_filters(self):
-        filters = self.get_any(('F', 'Filter'))
-        params = self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {})
+        filters = resolve1(self.get_any(('F', 'Filter')))
+        params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
         if not filters:
             return []
         if not isinstance(filters, list):
@@ -74,9 +74,12 @@ class PDFStream(PDFObject):
         # resolve filter if possible
         _filters = []
         for fltr in filters:
-            if hasattr(fltr, 'resolve'):
-                fltr = fltr.resolve()[0]
+            fltr = resolve1(fltr)
+            if isinstance(fltr, list):
+                fltr = fltr[0]
             _filters.append(fltr)
+        params = [resolve1(p) for p in params]
+        params += [None] * (len(_filters) - len(params))
         return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     def decode(self):
-- 
2.43.0


From 883774321344d058bc87d3039dc525d95fc03f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 014/104] fix: CCITT output with array.tobytes

---
 pdfmajor/parser/PDFStream/ccitt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index e1d47b9..b58afb5 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -541,7 +541,7 @@ class CCITTFaxDecoder(CCITTG4Parser):
         for (i, b) in enumerate(bits):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
-        self._buf += bytes.tostring()
+        self._buf += bytes.tobytes()
         return
 
 
-- 
2.43.0


From c48317d35074b966df3888186744a605889b8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 015/104] fix: default number of CCITT columns

---
 pdfmajor/parser/PDFStream/ccitt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index b58afb5..65cf92c 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -546,8 +546,9 @@ class CCITTFaxDecoder(CCITTG4Parser):
 
 
 def ccittfaxdecode(data, params):
+    params = params or {}
     K = params.get('K')
-    cols = params.get('Columns')
+    cols = params.get('Columns', 1728)
     bytealign = params.get('EncodedByteAlign')
     reversed = params.get('BlackIs1')
     if K == -1:
-- 
2.43.0


From 79622a90e06d8768f500128ce5a97500407542b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 016/104] fix: PNG predictor for every bit depth; unsupported
 predictors and fax encodings reported as such

---
 pdfmajor/parser/PDFStream/ccitt.py |  4 ++--
 pdfmajor/utils/generic.py          | 12 +++++-------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index 65cf92c..3c71402 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -12,7 +12,7 @@
 
 import sys
 import array
-from pdfmajor.execptions import EOFB, InvalidData, ByteSkip
+from pdfmajor.execptions import EOFB, InvalidData, ByteSkip, PDFNotImplementedError
 from abc import abstractmethod
 
 def get_bytes(data):
@@ -554,7 +554,7 @@ def ccittfaxdecode(data, params):
     if K == -1:
         parser = CCITTFaxDecoder(cols, bytealign=bytealign, reversed=reversed)
     else:
-        raise ValueError(K)
+        raise PDFNotImplementedError('Unsupported CCITT encoding: K=%r' % K)
     parser.feedbytes(data)
     return parser.close()
 
diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 90f041a..d0c0709 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -1,6 +1,8 @@
 import struct
 import chardet  
 
+from pdfmajor.execptions import PDFNotImplementedError
+
 # from sys import maxint as INF #doesn't work anymore under Python3,
 # but PDF still uses 32 bits ints
 int2byte = struct.Struct(">B").pack
@@ -26,14 +28,10 @@ def compatible_encode_method(bytesorstring, encoding='utf-8', erraction='ignore'
 ##  PNG Predictor
 ##
 def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
-    if bitspercomponent != 8:
-        # unsupported
-        raise ValueError("Unsupported `bitspercomponent': %d" %
-                         bitspercomponent)
-    nbytes = colors * columns * bitspercomponent // 8
+    nbytes = (colors * columns * bitspercomponent + 7) // 8
     i = 0
     buf = b''
-    bpp = colors * bitspercomponent // 8
+    bpp = max(1, colors * bitspercomponent // 8)
     line0 = b'\x00' * nbytes
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
@@ -66,7 +64,7 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
                 line2 += int2byte((min((c, a, d), key=lambda x: abs(p-x))+b) & 255)
         else:
             # unsupported
-            raise ValueError("Unsupported predictor value: %d" % ft)
+            raise PDFNotImplementedError("Unsupported predictor value: %d" % ft)
         buf += line2
         line0 = line2
     return buf
-- 
2.43.0


From 5debd4e738e91db1a595bc08e505efe54e76ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 017/104] fix: tokens at the joint of two content streams are
 fused; EI at the end of a stream

---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 98ef0da..0f027a0 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -28,7 +28,8 @@ class PDFContentParser(PSStackParser):
                 self.istream += 1
             else:
                 raise PSEOF('Unexpected EOF, file truncated?')
-            self.fp = BytesIO(strm.get_data())
+            # a token never continues in the next stream
+            self.fp = BytesIO(strm.get_data() + b'\n')
         return
 
     def seek(self, pos):
-- 
2.43.0


From 2fffefae40f8abb8529f043ea7a6ef1c5f06f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 018/104] fix: inline image data ending in E

---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 0f027a0..9155b6a 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -66,7 +66,8 @@ class PDFContentParser(PSStackParser):
                 elif i < len(target) and c == (int2byte(target[i])):
                     i += 1
                 else:
-                    i = 0
+                    # this may also be the first byte of the marker
+                    i = int(c == int2byte(target[0]))
             else:
                 try:
                     j = self.buf.index(target[0], self.charpos)
-- 
2.43.0


From a1db516a40fefc6e7d5be409c341a1187f4618a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 019/104] fix: stream length: a right one is used, a wrong or
 missing one is not

---
 pdfmajor/parser/PDFDocument/__init__.py |  1 +
 pdfmajor/parser/PDFParser.py            | 31 ++++++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 55fe1f7..9d64bae 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -82,6 +82,7 @@ class PDFDocument(object):
             xref = PDFXRefFallback()
             xref.load(parser)
             self.xrefs.append(xref)
+            parser.fallback = False
         for xref in self.xrefs:
             trailer = xref.get_trailer()
             if not trailer:
diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 840d54d..4ed20cc 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -1,5 +1,6 @@
 
 import logging
+import re
 from io import BytesIO, TextIOWrapper
 from ..utils import settings
 from pdfmajor.execptions import (
@@ -16,6 +17,8 @@ from .PDFStream import dict_value
 
 log = logging.getLogger(__name__)
 
+ENDSTREAM = re.compile(br'[\s\x00]*endstream')
+
 
 
 ##  PDFParser
@@ -84,12 +87,14 @@ class PDFParser(PSStackParser):
             ((_, dic),) = self.pop(1) # pylint: disable=E0632
             dic = dict_value(dic)
             objlen = 0
-            if not self.fallback:
-                try:
-                    objlen = int_value(dic['Length'])
-                except KeyError:
-                    if settings.STRICT:
-                        raise PDFSyntaxError('/Length is undefined: %r' % dic)
+            try:
+                length = dic['Length']
+                # nothing can be looked up while scanning for objects
+                if not (self.fallback and isinstance(length, PDFObjRef)):
+                    objlen = max(0, int_value(length))
+            except KeyError:
+                if settings.STRICT:
+                    raise PDFSyntaxError('/Length is undefined: %r' % dic)
             self.seek(pos)
             try:
                 (_, line) = self.nextline()  # 'stream'
@@ -99,7 +104,12 @@ class PDFParser(PSStackParser):
                 return
             pos += len(line)
             self.fp.seek(pos)
-            data = bytearray(self.fp.read(objlen))
+            data = self.fp.read(objlen)
+            # the declared length is only right if endstream follows
+            scan = not ENDSTREAM.match(self.fp.read(32))
+            if scan:
+                objlen = 0
+                (rawdata, data) = (data, bytearray())
             self.seek(pos+objlen)
             while 1:
                 try:
@@ -107,15 +117,18 @@ class PDFParser(PSStackParser):
                 except PSEOF:
                     if settings.STRICT:
                         raise PDFSyntaxError('Unexpected EOF')
+                    if scan and not self.fallback:
+                        # no endstream at all
+                        data = rawdata
                     break
                 if b'endstream' in line:
                     i = line.index(b'endstream')
                     objlen += i
-                    if self.fallback:
+                    if scan:
                         data += line[:i]
                     break
                 objlen += len(line)
-                if self.fallback:
+                if scan:
                     data += line
             data = bytes(data)
             self.seek(pos+objlen)
-- 
2.43.0


From bacc0520ed5b2bb3fa7c42da8e1b6b5f9f5a85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 020/104] fix: only one end of line is removed after inline
 image data

---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 9155b6a..4a22f1e 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -78,7 +78,7 @@ class PDFContentParser(PSStackParser):
                     data += self.buf[self.charpos:]
                     self.charpos = len(self.buf)
         data = data[:-(len(target)+1)]  # strip the last part
-        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])$', b'', data)
+        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])\Z', b'', data)
         return (pos, data)
 
     def flush(self):
-- 
2.43.0


From ed1bf5f530d9a1d931b1253bef3aa09a9418e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 021/104] fix: malformed numbers or trailers in cross-reference
 tables

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4b2b3d1..b43361c 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
+from pdfmajor.execptions import PSEOF, PSSyntaxError, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
@@ -61,10 +61,9 @@ class PDFXRef(PDFBaseXRef):
             f = line.strip().split(b' ')
             if len(f) != 2:
                 raise PDFNoValidXRef('Trailer not found: %r: line=%r' % (parser, line))
-            try:
-                (start, nobjs) = map(int, f)
-            except ValueError:
+            if not (f[0].isdigit() and f[1].isdigit()):
                 raise PDFNoValidXRef('Invalid line: %r: line=%r' % (parser, line))
+            (start, nobjs) = map(int, f)
             for objid in range(start, start+nobjs):
                 try:
                     (_, line) = parser.nextline()
@@ -74,6 +73,8 @@ class PDFXRef(PDFBaseXRef):
                 if len(f) != 3:
                     raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
                 (pos, genno, use) = f
+                if not (pos.isdigit() and genno.isdigit()):
+                    raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
                 if use != b'n':
                     continue
                 self.offsets[objid] = (None, int(pos), int(genno))
@@ -84,8 +85,11 @@ class PDFXRef(PDFBaseXRef):
     def load_trailer(self, parser):
         try:
             (_, kwd) = parser.nexttoken()
-            assert kwd is KWD(b'trailer'), str(kwd)
+            if kwd is not KWD(b'trailer'):
+                raise PDFNoValidXRef('Trailer not found: %r' % kwd)
             (_, dic) = parser.nextobject()
+        except PSSyntaxError as e:
+            raise PDFNoValidXRef('Invalid trailer: %s' % e)
         except PSEOF:
             x = parser.pop(1)
             if not x:
-- 
2.43.0


From 2c6045f4cb96b5d4ea8f2ba5cab2a220541616eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 022/104] fix: cross-reference streams: listing of several
 subsections, missing entries, field widths

---
 pdfmajor/parser/PDFDocument/PDFXRef.py |  8 +++++++-
 pdfmajor/utils/generic.py              | 18 +++---------------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index b43361c..052a51c 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -205,13 +205,17 @@ class PDFXRefStream(PDFBaseXRef):
         return self.trailer
 
     def get_objids(self):
+        index = 0
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
-                offset = self.entlen * i
+                offset = self.entlen * (index+i)
                 ent = self.data[offset:offset+self.entlen]
+                if len(ent) < self.entlen:
+                    return
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
                     yield start+i
+            index += nobjs
         return
 
     def get_pos(self, objid):
@@ -226,6 +230,8 @@ class PDFXRefStream(PDFBaseXRef):
             raise KeyError(objid)
         offset = self.entlen * index
         ent = self.data[offset:offset+self.entlen]
+        if len(ent) < self.entlen:
+            raise KeyError(objid)
         f1 = nunpack(ent[:self.fl1], 1)
         f2 = nunpack(ent[self.fl1:self.fl1+self.fl2])
         f3 = nunpack(ent[self.fl1+self.fl2:])
diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index d0c0709..fa8cda0 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -129,22 +129,10 @@ def choplist(n, seq):
 
 # nunpack
 def nunpack(s, default=0):
-    """Unpacks 1 to 4 or 8 byte integers (big endian)."""
-    l = len(s)
-    if not l:
+    """Unpacks big endian integers of any length."""
+    if not s:
         return default
-    elif l == 1:
-        return ord(s)
-    elif l == 2:
-        return struct.unpack('>H', s)[0]
-    elif l == 3:
-        return struct.unpack('>L', b'\x00'+s)[0]
-    elif l == 4:
-        return struct.unpack('>L', s)[0]
-    elif l == 8:
-        return struct.unpack('>Q', s)[0]
-    else:
-        raise TypeError('invalid length: %d' % l)
+    return int.from_bytes(s, 'big')
 
 ##  Plane
 ##
-- 
2.43.0


From 2f33c99c471dbee83b80c727eb53f79c2ddb6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 023/104] fix: damaged cross-reference sections and trailers:
 scan for objects of every revision, no endless loop

---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 34 +++++++++++++++++--------
 pdfmajor/parser/PDFDocument/__init__.py | 32 +++++++++++++++--------
 2 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 052a51c..f067e02 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,13 +2,13 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PSSyntaxError, PDFSyntaxError, PDFNoValidXRef
+from pdfmajor.execptions import PSEOF, PSException, PSSyntaxError, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
 from ..PDFParser import PDFStreamParser
 from ..PDFStream import PDFStream
-from ..PDFStream import dict_value
+from ..PDFStream import dict_value, list_value
 
 from .constants import LITERAL_OBJSTM, LITERAL_XREF
 
@@ -130,9 +130,14 @@ class PDFXRefFallback(PDFXRef):
                 break
             if line.startswith(b'trailer'):
                 parser.seek(pos)
-                self.load_trailer(parser)
+                try:
+                    self.load_trailer(parser)
+                except PDFNoValidXRef:
+                    pass
                 log.info('trailer: %r', self.trailer)
-                break
+                # the objects of later revisions follow
+                parser.seek(pos+len(line))
+                continue
             line=line.decode('latin-1') #default pdf encoding
             m = self.PDFOBJ_CUE.match(line)
             if not m:
@@ -143,7 +148,12 @@ class PDFXRefFallback(PDFXRef):
             self.offsets[objid] = (None, pos, genno)
             # expand ObjStm.
             parser.seek(pos)
-            (_, obj) = parser.nextobject()
+            try:
+                (_, obj) = parser.nextobject()
+            except PSException:
+                # damaged object
+                parser.seek(pos+len(line))
+                continue
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
                 stream = PDFStream.validated_stream(obj)
                 try:
@@ -185,14 +195,16 @@ class PDFXRefStream(PDFBaseXRef):
         (_, genno) = parser.nexttoken()  # ignored
         (_, kwd) = parser.nexttoken()
         (_, stream) = parser.nextobject()
-        if not isinstance(stream, PDFStream) or stream['Type'] is not LITERAL_XREF:
+        if not isinstance(stream, PDFStream) or stream.get('Type') is not LITERAL_XREF:
             raise PDFNoValidXRef('Invalid PDF stream spec.')
-        size = stream['Size']
-        index_array = stream.get('Index', (0, size))
-        if len(index_array) % 2 != 0:
-            raise PDFSyntaxError('Invalid index number')
+        index_array = list_value(stream.get('Index', [0, stream.get('Size')]))
+        widths = list_value(stream.get('W'))
+        if len(index_array) % 2 != 0 or not all(isinstance(x, int) and x >= 0 for x in index_array):
+            raise PDFNoValidXRef('Invalid index number')
+        if len(widths) != 3 or not all(isinstance(x, int) and x >= 0 for x in widths):
+            raise PDFNoValidXRef('Invalid field widths')
         self.ranges.extend(choplist(2, index_array))
-        (self.fl1, self.fl2, self.fl3) = stream['W']
+        (self.fl1, self.fl2, self.fl3) = widths
         self.data = stream.get_data()
         self.entlen = self.fl1+self.fl2+self.fl3
         self.trailer = stream.attrs
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 9d64bae..1d6970c 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -10,6 +10,8 @@ from pdfmajor.execptions import (
     PDFDestinationNotFound, 
     PDFNoValidXRef,
     PSEOF,
+    PSException,
+    PDFException,
     PDFObjectNotFound, 
     PDFTypeError,
     PDFSyntaxError,
@@ -67,6 +69,7 @@ class PDFDocument(object):
         self._parser = None
         self._cached_objs = {}
         self._parsed_objs = {}
+        self._xref_positions = set()
         self._parser = parser
         self._parser.set_document(self)
         self.is_printable = self.is_modifiable = self.is_extractable = True
@@ -83,23 +86,22 @@ class PDFDocument(object):
             xref.load(parser)
             self.xrefs.append(xref)
             parser.fallback = False
-        for xref in self.xrefs:
-            trailer = xref.get_trailer()
-            if not trailer:
-                continue
+        # newest first
+        trailers = [xref.get_trailer() for xref in self.xrefs]
+        for trailer in trailers:
             # If there's an encryption info, remember it.
             if 'Encrypt' in trailer:
-                #assert not self.encryption, str(self.encryption)
                 self.encryption = (list_value(trailer['ID']),
                                    dict_value(trailer['Encrypt']))
                 self._initialize_password(password)
-            if 'Info' in trailer:
+                break
+        for trailer in trailers:
+            if 'Info' in trailer and not self.info:
                 self.info.append(dict_value(trailer['Info']))
-            if 'Root' in trailer:
+            if 'Root' in trailer and self.catalog is None:
                 # Every PDF file must have exactly one /Root dictionary.
                 self.catalog = dict_value(trailer['Root'])
-                break
-        else:
+        if self.catalog is None:
             raise PDFSyntaxError('No /Root object! - Is this really a PDF?')
         if self.catalog.get('Type') is not LITERAL_CATALOG:
             if settings.STRICT:
@@ -298,11 +300,18 @@ class PDFDocument(object):
         else:
             raise PDFNoValidXRef('Unexpected EOF')
         log.info('xref found: pos=%r', prev)
+        if prev is None or not prev.isdigit():
+            raise PDFNoValidXRef('Invalid startxref: %r' % prev)
         return int(prev)
 
     # read xref table
     def read_xref_from(self, parser, start, xrefs):
         """Reads XRefs from the given location."""
+        if start < 0:
+            raise PDFNoValidXRef('Invalid xref position: %r' % start)
+        if start in self._xref_positions:
+            return
+        self._xref_positions.add(start)
         parser.seek(start)
         parser.reset()
         try:
@@ -315,7 +324,10 @@ class PDFDocument(object):
             parser.seek(pos)
             parser.reset()
             xref = PDFXRefStream()
-            xref.load(parser)
+            try:
+                xref.load(parser)
+            except (PSException, PDFException) as e:
+                raise PDFNoValidXRef('Invalid xref stream: %s' % e)
         else:
             if token is parser.KEYWORD_XREF:
                 parser.nextline()
-- 
2.43.0


From 4fa3aff073b17c1b2a3f89c60cdd480580d6c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 024/104] fix: objects needed to read themselves, offsets
 shortly before the object, damaged newer revisions

---
 pdfmajor/parser/PDFDocument/__init__.py | 61 ++++++++++++++-----------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 1d6970c..915cc05 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -69,6 +69,7 @@ class PDFDocument(object):
         self._parser = None
         self._cached_objs = {}
         self._parsed_objs = {}
+        self._pending_objs = set()
         self._xref_positions = set()
         self._parser = parser
         self._parser.set_document(self)
@@ -147,7 +148,7 @@ class PDFDocument(object):
             if settings.STRICT:
                 raise PDFSyntaxError('Not a stream object: %r' % stream)
         try:
-            n = stream['N']
+            n = int_value(stream['N'])
         except KeyError:
             if settings.STRICT:
                 raise PDFSyntaxError('N is not defined: %r' % stream)
@@ -173,13 +174,12 @@ class PDFDocument(object):
         #to solve https://github.com/pdfminer/pdfminer.six/issues/56
         #assert objid1 == objid, str((objid1, objid))
         if objid1 != objid:
-            x = []
+            x = [objid1, genno, kwd]
             while kwd is not self.KEYWORD_OBJ:
                 (_,kwd) = self._parser.nexttoken()
                 x.append(kwd)
-            if x:
-                objid1 = x[-2]
-                genno = x[-1]
+            objid1 = x[-3]
+            genno = x[-2]
         # #### end hack around malformed pdf files
         if objid1 != objid:
             raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))
@@ -197,33 +197,42 @@ class PDFDocument(object):
         log.debug('getobj: objid=%r', objid)
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
+        elif objid in self._pending_objs:
+            # the object is needed to read itself
+            raise PDFObjectNotFound(objid)
         else:
-            for xref in self.xrefs:
-                try:
-                    (strmid, index, genno) = xref.get_pos(objid)
-                except KeyError:
-                    continue
-                try:
-                    if strmid is not None:
-                        stream = PDFStream.validated_stream(self.getobj(strmid))
-                        obj = self._getobj_objstm(stream, index, objid)
-                    else:
-                        obj = self._getobj_parse(index, objid)
-                        if self.decipher:
-                            obj = decipher_all(self.decipher, objid, genno, obj)
-
-                    if isinstance(obj, PDFStream):
-                        obj.set_objid(objid, genno)
-                    break
-                except (PSEOF, PDFSyntaxError):
-                    continue
-            else:
-                raise PDFObjectNotFound(objid)
+            self._pending_objs.add(objid)
+            try:
+                (obj, genno) = self._read_obj(objid)
+            finally:
+                self._pending_objs.discard(objid)
             log.debug('register: objid=%r: %r', objid, obj)
             if self.caching:
                 self._cached_objs[objid] = (obj, genno)
         return obj
 
+    def _read_obj(self, objid):
+        for xref in self.xrefs:
+            try:
+                (strmid, index, genno) = xref.get_pos(objid)
+            except KeyError:
+                continue
+            try:
+                if strmid is not None:
+                    stream = PDFStream.validated_stream(self.getobj(strmid))
+                    obj = self._getobj_objstm(stream, index, objid)
+                else:
+                    obj = self._getobj_parse(index, objid)
+                    if self.decipher:
+                        obj = decipher_all(self.decipher, objid, genno, obj)
+
+                if isinstance(obj, PDFStream):
+                    obj.set_objid(objid, genno)
+                return (obj, genno)
+            except (PSException, PDFSyntaxError, PDFObjectNotFound):
+                continue
+        raise PDFObjectNotFound(objid)
+
     def get_outlines(self):
         if 'Outlines' not in self.catalog:
             raise PDFNoOutlines
-- 
2.43.0


From 7f7761f7a60ced1f696d08ed8ba7719ff838f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 025/104] fix: R and stream keywords without operands

---
 pdfmajor/parser/PDFParser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 4ed20cc..6600d8f 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -79,13 +79,14 @@ class PDFParser(PSStackParser):
                 (objid, genno) = (int(objid), int(genno)) # pylint: disable=E0632
                 obj = PDFObjRef(self.doc, objid, genno) # pylint: disable=E0632
                 self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            except (TypeError, ValueError):
+                if settings.STRICT:
+                    raise PSSyntaxError('Invalid reference')
 
         elif token is self.KEYWORD_STREAM:
             # stream object
-            ((_, dic),) = self.pop(1) # pylint: disable=E0632
-            dic = dict_value(dic)
+            objs = self.pop(1)
+            dic = dict_value(objs[0][1]) if objs else {}
             objlen = 0
             try:
                 length = dic['Length']
@@ -173,8 +174,9 @@ class PDFStreamParser(PDFParser):
                 (objid, genno) = (int(objid), int(genno))
                 obj = PDFObjRef(self.doc, objid, genno)
                 self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            except (TypeError, ValueError):
+                if settings.STRICT:
+                    raise PSSyntaxError('Invalid reference')
             return
         elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
             if settings.STRICT:
-- 
2.43.0


From 033c4bb56e85704a8bf1791e9639ab1959360ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 026/104] fix: take the trailer dictionary, not the object
 after it

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index f067e02..6192d8d 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -88,10 +88,14 @@ class PDFXRef(PDFBaseXRef):
             if kwd is not KWD(b'trailer'):
                 raise PDFNoValidXRef('Trailer not found: %r' % kwd)
             (_, dic) = parser.nextobject()
+            x = parser.popall()
+            if x:
+                # an object that follows the dictionary was completed first
+                (_, dic) = x[0]
         except PSSyntaxError as e:
             raise PDFNoValidXRef('Invalid trailer: %s' % e)
         except PSEOF:
-            x = parser.pop(1)
+            x = parser.popall()
             if not x:
                 raise PDFNoValidXRef('Unexpected EOF - file corrupted')
             (_, dic) = x[0]
-- 
2.43.0


From fffe16fe71727824bf41f4429b755beb354b4c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 027/104] fix: use cross-reference streams as trailers when
 scanning for objects

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 6192d8d..37854b3 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -158,6 +158,10 @@ class PDFXRefFallback(PDFXRef):
                 # damaged object
                 parser.seek(pos+len(line))
                 continue
+            if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_XREF:
+                # the trailer of a cross-reference stream
+                self.trailer.update(obj.attrs)
+                continue
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
                 stream = PDFStream.validated_stream(obj)
                 try:
-- 
2.43.0


From 0567058fb9afd118861d0cc670c8b0adc8328278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 028/104] fix: page attributes are not inherited from the
 catalog

---
 pdfmajor/parser/PDFPage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c9844e9..3b5d780 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -102,7 +102,7 @@ class PDFPage(object):
         
         pages = False
         if 'Pages' in document.catalog:
-            for (objid, tree) in search(document.catalog['Pages'], document.catalog):
+            for (objid, tree) in search(document.catalog['Pages'], {}):
                 yield cls(document, objid, tree)
                 pages = True
         if not pages:
-- 
2.43.0


From 429565ae63dfb2911d32c91047b4f0641b0c45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 029/104] fix: list each page object once when there is no page
 tree

---
 pdfmajor/parser/PDFPage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 3b5d780..0d15c02 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -107,8 +107,12 @@ class PDFPage(object):
                 pages = True
         if not pages:
             # fallback when /Pages is missing.
+            visited = set()
             for xref in document.xrefs:
                 for objid in xref.get_objids():
+                    if objid in visited:
+                        continue
+                    visited.add(objid)
                     try:
                         obj = document.getobj(objid)
                         if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
-- 
2.43.0


From 60a0b7beead2c9b42a05c9d3e9447c3dc337806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 030/104] fix: do not enter a page tree node again from its own
 descendants

---
 pdfmajor/parser/PDFPage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 0d15c02..e768fe0 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -76,13 +76,16 @@ class PDFPage(object):
 
     @classmethod
     def create_pages(cls, document: PDFDocument):
-        def search(obj, parent):
+        def search(obj, parent, ancestors=()):
             if isinstance(obj, int):
                 objid = obj
                 tree = dict_value(document.getobj(objid)).copy()
             else:
                 objid = obj.objid
                 tree = dict_value(obj).copy()
+            if objid in ancestors:
+                log.warning('Pages: loop at objid=%r', objid)
+                return
             for (k, v) in parent.items():
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
                     tree[k] = v
@@ -94,7 +97,7 @@ class PDFPage(object):
             if tree_type is LITERAL_PAGES and 'Kids' in tree:
                 log.debug('Pages: Kids=%r', tree['Kids'])
                 for c in list_value(tree['Kids']):
-                    for x in search(c, tree):
+                    for x in search(c, tree, ancestors+(objid,)):
                         yield x
             elif tree_type is LITERAL_PAGE:
                 log.debug('Page: %r', tree)
-- 
2.43.0


From cef84f0fe6040f54941785e35a12942ca45af5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 031/104] fix: resolve references inside the page boxes

---
 pdfmajor/parser/PDFPage.py        | 6 +++---
 pdfmajor/parser/PDFStream/util.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index e768fe0..e782fd8 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -4,7 +4,7 @@ import logging
 from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound
 from ..utils import settings
 from .constants import LIT
-from .PDFStream import resolve1, int_value, list_value, dict_value
+from .PDFStream import resolve1, resolve_all, int_value, list_value, dict_value
 from .PDFParser import PDFParser
 from .PDFDocument import PDFDocument
 
@@ -52,9 +52,9 @@ class PDFPage(object):
         self.attrs = dict_value(attrs)
         self.lastmod = resolve1(self.attrs.get('LastModified'))
         self.resources = resolve1(self.attrs.get('Resources', dict()))
-        self.mediabox = resolve1(self.attrs['MediaBox'])
+        self.mediabox = resolve_all(self.attrs['MediaBox'])
         if 'CropBox' in self.attrs:
-            self.cropbox = resolve1(self.attrs['CropBox'])
+            self.cropbox = resolve_all(self.attrs['CropBox'])
         else:
             self.cropbox = self.mediabox
         self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index e64ac43..8e96f16 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -30,7 +30,7 @@ def resolve_all(x, default=None):
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-        for (k, v) in x.iteritems():
+        for (k, v) in x.items():
             x[k] = resolve_all(v, default=default)
     return x
 
-- 
2.43.0


From b3e9a6757856b0f98a52277821666c10d1c9ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 032/104] fix: references that lead back to themselves resolve
 to the default

---
 pdfmajor/parser/PDFStream/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index 8e96f16..025e797 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -14,7 +14,11 @@ def resolve1(x, default=None):
     If this is an array or dictionary, it may still contains
     some indirect objects inside.
     """
+    visited = set()
     while isinstance(x, PDFObjRef):
+        if x.objid in visited:
+            return default
+        visited.add(x.objid)
         x = x.resolve(default=default)
     return x
 
@@ -25,8 +29,7 @@ def resolve_all(x, default=None):
     Make sure there is no indirect reference within the nested object.
     This procedure might be slow.
     """
-    while isinstance(x, PDFObjRef):
-        x = x.resolve(default=default)
+    x = resolve1(x, default=default)
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-- 
2.43.0


From 358c0a30bfcf377f32baef7a865962439249bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 033/104] fix: object number 0 is reported as not found

---
 pdfmajor/parser/PDFDocument/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 915cc05..65800f4 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -191,7 +191,8 @@ class PDFDocument(object):
 
     # can raise PDFObjectNotFound
     def getobj(self, objid):
-        assert objid != 0
+        if objid == 0:
+            raise PDFObjectNotFound(objid)
         if not self.xrefs:
             raise ParserError('PDFDocument is not initialized')
         log.debug('getobj: objid=%r', objid)
-- 
2.43.0


From aae703990812e7729672aa20b95f202aba5553e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 034/104] fix: the page limit holds together with a page
 selection

---
 pdfmajor/parser/PDFPage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index e782fd8..bbcf970 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -137,9 +137,9 @@ class PDFPage(object):
             raise PDFTextExtractionNotAllowed('Text extraction is not allowed: %r' % fp)
         # Process each page contained in the document.
         for (pageno, page) in enumerate(cls.create_pages(doc)):
+            if maxpages and maxpages <= pageno:
+                break
             if pagenos and (pageno not in pagenos):
                 continue
             yield page
-            if maxpages and maxpages <= pageno+1:
-                break
         return
-- 
2.43.0


From 69b9250d3c38cc5e28a3ffab76c1c65ade5734fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 035/104] fix: iterating a page again starts from its initial
 state

---
 pdfmajor/interpreter/PageInterpreter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1471dc8..477b4f2 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -24,17 +24,23 @@ class PageInterpreter:
         self.height = y1-y0
         self.width = x1-x0
 
+        self.ctm = ctm
+        self.ignore_bad_chars = ignore_bad_chars
+
         # Init State
+        self.init_state()
+
+    def init_state(self):
         self.state: PDFStateStack = prep_state(
             PDFStateStack(), 
-            ctm=ctm, 
-            resources=page.resources, 
+            ctm=self.ctm, 
+            resources=self.page.resources, 
             font_cache=self.font_cache,
-            ignore_bad_chars=ignore_bad_chars
+            ignore_bad_chars=self.ignore_bad_chars
         )
-
     
     def __iter__(self):
+        self.init_state()
         for item in process_command_stream(
             streams=list_value(self.page.contents),
             font_cache=self.font_cache,
-- 
2.43.0


From 2609ae1a376675f749b4bb1c5a37a769a79e3be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 036/104] fix: a document can be iterated again after an
 abandoned iteration or preloading

---
 pdfmajor/interpreter/__init__.py | 40 ++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index dcb4d32..9162c65 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import List
 
 from pdfmajor.execptions import EmptyDocumentError
@@ -35,7 +36,7 @@ class PDFInterpreter:
         self.pagenos = pagenos
         self.ignore_bad_chars = ignore_bad_chars
         self.debug_level = debug_level
-        self.__pages = []
+        self.__pages = None
         if preload:
             for _ in self.__load_pages():
                 pass
@@ -43,28 +44,33 @@ class PDFInterpreter:
     def __load_pages(self):
         set_log_level(self.debug_level)
         log.info("Opening file...")
+        # the objects of the pages are read when they are needed, which can be
+        # after the iteration ended or was abandoned
         with open(self.input_file_path, 'rb') as input_file:
-            font_cache = {}
-            log.info("Parsing file...")
-            pages = PDFPage.get_pages(
-                input_file, 
-                pagenos=self.pagenos, 
-                maxpages=self.maxpages, 
-                password=self.password, 
-                caching=self.caching, 
-                check_extractable=self.check_extractable
-            )
-            for page_num, page in enumerate(pages):
-                self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-                yield self.__pages[-1]
-            log.info(f"Done Reading {len(self.__pages)} pages.")
+            input_data = BytesIO(input_file.read())
+        font_cache = {}
+        log.info("Parsing file...")
+        pages = PDFPage.get_pages(
+            input_data, 
+            pagenos=self.pagenos, 
+            maxpages=self.maxpages, 
+            password=self.password, 
+            caching=self.caching, 
+            check_extractable=self.check_extractable
+        )
+        loaded = []
+        for page_num, page in enumerate(pages):
+            loaded.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
+            yield loaded[-1]
+        log.info(f"Done Reading {len(loaded)} pages.")
         set_log_level(logging.WARNING)
         
-        if len(self.__pages) == 0:
+        if len(loaded) == 0:
             raise EmptyDocumentError("No pages found in pdf-file")
+        self.__pages = loaded
     
     def __iter__(self):
-        if len(self.__pages) > 0:
+        if self.__pages is not None:
             set_log_level(self.debug_level)
             for page in self.__pages:
                 yield page
-- 
2.43.0


From 484ccb012bdbdac0a6660040367c4a8b472989a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 037/104] fix: permission words written as unsigned numbers

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 9a5a0c8..aeaed73 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -76,7 +76,7 @@ class PDFStandardSecurityHandler(object):
         password = (password + self.PASSWORD_PADDING)[:32]  # 1
         hash = md5.md5(password)  # 2
         hash.update(self.o)  # 3
-        hash.update(struct.pack('<l', self.p))  # 4
+        hash.update(struct.pack('<L', self.p & 0xffffffff))  # 4
         hash.update(self.docid[0])  # 5
         if self.r >= 4:
             if not self.encrypt_metadata:
-- 
2.43.0


From 2c9f82f6b7c83c93280f9cd067781ad47c9b90df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 038/104] fix: no password given means the empty password

---
 pdfmajor/converters/json.py             | 2 +-
 pdfmajor/parser/PDFDocument/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 2e3197d..47eaf17 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -25,7 +25,7 @@ def convert_to_json(
     dont_export_images: bool = False,
     codec: str = 'utf-8',
     maxpages: int = 0, 
-    password: str = Optional[None], 
+    password: Optional[str] = None, 
     caching: bool = True, 
     check_extractable: bool = True,
     ignore_bad_chars: bool = False,
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 65800f4..0b4c427 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -94,7 +94,7 @@ class PDFDocument(object):
             if 'Encrypt' in trailer:
                 self.encryption = (list_value(trailer['ID']),
                                    dict_value(trailer['Encrypt']))
-                self._initialize_password(password)
+                self._initialize_password('' if password is None else password)
                 break
         for trailer in trailers:
             if 'Info' in trailer and not self.info:
-- 
2.43.0


From 0a793f8564f15a7ece91cc7ad16ce6614805ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 039/104] fix: passwords outside latin-1 are reported as
 incorrect

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index aeaed73..916ae57 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -90,7 +90,11 @@ class PDFStandardSecurityHandler(object):
         return result[:n]
 
     def authenticate(self, password):
-        password = password.encode("latin1")
+        try:
+            password = password.encode("latin1")
+        except UnicodeEncodeError:
+            # not a possible password
+            return None
         key = self.authenticate_user_password(password)
         if key is None:
             key = self.authenticate_owner_password(password)
-- 
2.43.0


From 962d253e9784c347c29cb41abd94f6d177426c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 040/104] fix: remove the padding of AES encrypted strings and
 streams

---
 .../parser/PDFDocument/PDFSecurityHandler.py     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 916ae57..ac552b3 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -192,7 +192,19 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
         hash = md5.md5(key)
         key = hash.digest()[:min(len(key), 16)]
-        return AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(key, data)
+
+    def decrypt_aes(self, key, data):
+        # initialization vector, then whole blocks, the last one padded
+        (iv, data) = (data[:16], data[16:])
+        data = data[:len(data)//16*16]
+        if not data:
+            return b''
+        data = AES.new(key, mode=AES.MODE_CBC, IV=iv).decrypt(data)
+        n = data[-1]
+        if 1 <= n <= 16:
+            data = data[:-n]
+        return data
 
 
 class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
@@ -237,4 +249,4 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         return None
 
     def decrypt_aes256(self, objid, genno, data):
-        return AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(self.key, data)
-- 
2.43.0


From aaf2db716e60211452417620f961475bd78d8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 041/104] fix: decrypt the strings of stream dictionaries

---
 pdfmajor/parser/PDFDocument/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 0b4c427..86579ef 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -225,7 +225,10 @@ class PDFDocument(object):
                 else:
                     obj = self._getobj_parse(index, objid)
                     if self.decipher:
-                        obj = decipher_all(self.decipher, objid, genno, obj)
+                        if isinstance(obj, PDFStream):
+                            obj.attrs = decipher_all(self.decipher, objid, genno, obj.attrs)
+                        else:
+                            obj = decipher_all(self.decipher, objid, genno, obj)
 
                 if isinstance(obj, PDFStream):
                     obj.set_objid(objid, genno)
-- 
2.43.0


From 147942b567580fcb6fd0414e007d0ac4cd4186e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 042/104] fix: a code range may list fewer texts than it has
 codes

---
 pdfmajor/parser/cmapdb/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 68d9cff..25bcf42 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -380,8 +380,8 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for i in range(e1-s1+1):
-                        self.cmap.add_cid2unichr(s1+i, code[i])
+                    for (i, c) in enumerate(code[:max(0, e1-s1+1)]):
+                        self.cmap.add_cid2unichr(s1+i, c)
                 else:
                     var = code[-4:]
                     base = nunpack(var)
-- 
2.43.0


From 9b4bb4b6fed0c1397e8449d32b397235f208fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 043/104] fix: code ranges that start with an empty or the last
 possible text

---
 pdfmajor/parser/cmapdb/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 25bcf42..84f2e12 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -388,7 +388,7 @@ class CMapParser(PSStackParser):
                     prefix = code[:-4]
                     vlen = len(var)
                     for i in range(e1-s1+1):
-                        x = prefix+struct.pack('>L', base+i)[-vlen:]
+                        x = prefix+struct.pack('>L', (base+i) & 0xffffffff)[4-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
             return
 
-- 
2.43.0


From 047d026973d424fee4210a58c3c5db604a7b0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 044/104] fix: glyph names as texts of single codes in
 ToUnicode maps

---
 pdfmajor/parser/cmapdb/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 84f2e12..039028c 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -175,7 +175,10 @@ class FileUnicodeMap(UnicodeMap):
         assert isinstance(cid, int), str(type(cid))
         if isinstance(code, PSLiteral):
             # Interpret as an Adobe glyph name.
-            self.cid2unichr[cid] = name2unicode(code.name)
+            try:
+                self.cid2unichr[cid] = name2unicode(code.name)
+            except KeyError:
+                log.debug('unknown glyph name: %r', code)
         elif isinstance(code, bytes):
             # Interpret as UTF-16BE.
             self.cid2unichr[cid] = code.decode('UTF-16BE', 'ignore')
@@ -398,7 +401,7 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDBFCHAR:
             objs = [obj for (__, obj) in self.popall()]
             for (cid, code) in choplist(2, objs):
-                if isinstance(cid, bytes) and isinstance(code, bytes):
+                if isinstance(cid, bytes) and isinstance(code, (bytes, PSLiteral)):
                     self.cmap.add_cid2unichr(nunpack(cid), code)
             return
 
-- 
2.43.0


From 76d0df5e441bc90500908410acfe7b99fcb9b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 045/104] fix: strings of odd length with identity code maps

---
 pdfmajor/parser/cmapdb/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 039028c..0f2e3ad 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -120,7 +120,7 @@ class IdentityCMap(CMapBase):
     def decode(self, code):
         n = len(code)//2
         if n:
-            return struct.unpack('>%dH' % n, code)
+            return struct.unpack('>%dH' % n, code[:n*2])
         else:
             return ()
 
-- 
2.43.0


From 30ce069db91fae74ab7a59d3fc9cb17f12404776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 046/104] fix: merging and dumping of code maps

---
 pdfmajor/parser/cmapdb/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 0f2e3ad..f57ac14 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -77,7 +77,7 @@ class CMap(CMapBase):
         assert isinstance(cmap, CMap), str(type(cmap))
 
         def copy(dst, src):
-            for (k, v) in src.iteritems():
+            for (k, v) in src.items():
                 if isinstance(v, dict):
                     d = {}
                     dst[k] = d
@@ -104,7 +104,7 @@ class CMap(CMapBase):
         if code2cid is None:
             code2cid = self.code2cid
             code = ()
-        for (k, v) in sorted(code2cid.iteritems()):
+        for (k, v) in sorted(code2cid.items()):
             c = code+(k,)
             if isinstance(v, int):
                 out.write('code %r = cid %d\n' % (c, v))
-- 
2.43.0


From dbdc72a2eb88521459c681b4d291776517b1b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 047/104] fix: glyph names of the forms uniXXXX and uXXXXXX

---
 pdfmajor/utils/encoding/__init__.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 5c339bb..5140eb2 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -3,6 +3,8 @@ from .glyphlist import glyphname2unicode
 from .latin_enc import LATIN_ENCODING
 
 STRIP_NAME = re.compile(r'[0-9]+')
+UNI_NAME = re.compile(r'uni(([0-9A-F]{4})+)$')
+U_NAME = re.compile(r'u([0-9A-F]{4,6})$')
 
 ##  name2unicode
 ##
@@ -10,8 +12,24 @@ def name2unicode(name):
     """Converts Adobe glyph names to Unicode numbers."""
     if name in glyphname2unicode:
         return glyphname2unicode[name]
-    m = STRIP_NAME.search(name)
-    if not m:
+    if not isinstance(name, str):
         raise KeyError(name)
-    return chr(int(m.group(0)))
+    m = UNI_NAME.match(name)
+    if m:
+        digits = m.group(1)
+        codes = [int(digits[i:i+4], 16) for i in range(0, len(digits), 4)]
+    else:
+        m = U_NAME.match(name)
+        if m:
+            codes = [int(m.group(1), 16)]
+        else:
+            m = STRIP_NAME.search(name)
+            if not m:
+                raise KeyError(name)
+            codes = [int(m.group(0)[:8])]
+    for code in codes:
+        if 0xd800 <= code <= 0xdfff or code > 0x10ffff:
+            # not a character
+            raise KeyError(name)
+    return ''.join(chr(code) for code in codes)
 
-- 
2.43.0


From ca122e71227f3c32deb5c13b39ed546ad62bd41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 048/104] fix: references in the width data of fonts

---
 .../commands/state/PDFTextState/PDFFont/fonts.py          | 8 ++++----
 .../commands/state/PDFTextState/PDFFont/util.py           | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 51b66a2..3042c58 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -34,7 +34,7 @@ class PDFType1Font(PDFSimpleFont):
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
             widths = list_value(spec.get('Widths', [0]*256))
-            widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+            widths = dict((i+firstchar, resolve1(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
@@ -63,7 +63,7 @@ class PDFType3Font(PDFSimpleFont):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
         widths = list_value(spec.get('Widths', [0]*256))
-        widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+        widths = dict((i+firstchar, resolve1(w)) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
         else:
@@ -137,7 +137,7 @@ class PDFCIDFont(PDFFont):
             # writing mode: vertical
             widths = get_widths2(list_value(spec.get('W2', [])))
             self.disps = dict((cid, (vx, vy)) for (cid, (_, (vx, vy))) in iter(widths.items()))
-            (vy, w) = spec.get('DW2', [880, -1000])
+            (vy, w) = map(resolve1, list_value(spec.get('DW2', [880, -1000])))
             self.default_disp = (None, vy)
             widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))
             default_width = w
@@ -146,7 +146,7 @@ class PDFCIDFont(PDFFont):
             self.disps = {}
             self.default_disp = 0
             widths = get_widths(list_value(spec.get('W', [])))
-            default_width = spec.get('DW', 1000)
+            default_width = num_value(spec.get('DW', 1000))
         PDFFont.__init__(self, descriptor, widths, default_width=default_width)
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index fc01caf..bf3e977 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,3 +1,4 @@
+from pdfmajor.parser.PDFStream import resolve1
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
 
 
@@ -5,11 +6,12 @@ def get_widths(seq):
     widths = {}
     r = []
     for v in seq:
+        v = resolve1(v)
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
                 for (i, w) in enumerate(v):
-                    widths[char1+i] = w
+                    widths[char1+i] = resolve1(w)
                 r = []
         elif isnumber(v):
             r.append(v)
@@ -27,10 +29,11 @@ def get_widths2(seq):
     widths = {}
     r = []
     for v in seq:
+        v = resolve1(v)
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
-                for (i, (w, vx, vy)) in enumerate(choplist(3, v)):
+                for (i, (w, vx, vy)) in enumerate(choplist(3, map(resolve1, v))):
                     widths[char1+i] = (w, (vx, vy))
                 r = []
         elif isnumber(v):
-- 
2.43.0


From 00798e4f0f1380a9fdea9b0de9091540d8e2f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 049/104] fix: a default width of zero is a default width

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 341add3..2e6c712 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -34,7 +34,9 @@ class PDFFont(object):
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
-        self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
+        if default_width is None:
+            default_width = num_value(descriptor.get('MissingWidth', 0))
+        self.default_width = default_width
         self.leading = num_value(descriptor.get('Leading', 0))
         self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
         self.hscale = self.vscale = .001
-- 
2.43.0


From 8eba74d41f0f3bd6deccc1ff9704e1b4eaad3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 050/104] fix: leading zeros in the numbers of glyph names

---
 pdfmajor/utils/encoding/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 5140eb2..a36dc30 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -26,7 +26,7 @@ def name2unicode(name):
             m = STRIP_NAME.search(name)
             if not m:
                 raise KeyError(name)
-            codes = [int(m.group(0)[:8])]
+            codes = [int(m.group(0).lstrip('0')[:8] or '0')]
     for code in codes:
         if 0xd800 <= code <= 0xdfff or code > 0x10ffff:
             # not a character
-- 
2.43.0


From e3325bcef06b57fdc9fb249590a2ffefae5a713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 051/104] fix: code 173 of WinAnsiEncoding is a hyphen

---
 pdfmajor/utils/encoding/latin_enc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/latin_enc.py b/pdfmajor/utils/encoding/latin_enc.py
index 2b73bac..a5126b3 100644
--- a/pdfmajor/utils/encoding/latin_enc.py
+++ b/pdfmajor/utils/encoding/latin_enc.py
@@ -214,7 +214,7 @@ LATIN_ENCODING = [
   ('slash', 47, 47, 47, 47),
   ('space', 32, 32, 32, 32),
   ('space', None, 202, 160, None),
-  ('space', None, 202, 173, None),
+  ('hyphen', None, None, 173, None),
   ('sterling', 163, 163, 163, 163),
   ('t', 116, 116, 116, 116),
   ('thorn', None, None, 254, 254),
-- 
2.43.0


From 20da572a2b99a5962265a9574a987b927f5b4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 052/104] fix: k sets the non-stroking colour

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index cb6838f..1134d7b 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -318,7 +318,7 @@ def set_stroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
 # setcmyk-non-stroking
 @PDFCommands.add('k')
 def set_nonstroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
-    stack.graphics.set_stroke_color(
+    stack.graphics.set_nostroke_color(
         stack.colorspace_map['DeviceCMYK'], 
         c, m, y, k
     )
-- 
2.43.0


From 7ee7b0e694b4baa03dc8f26cb93226884e0546eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 053/104] fix: colour operators select their colour space

---
 pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
index 4a24fbe..47802b0 100644
--- a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
@@ -19,11 +19,13 @@ class PDFGraphicState(object):
     def set_stroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.scolspace
+        self.scolspace = colspace
         self.scolor = PDFColor(colspace, *values)
 
     def set_nostroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.ncolspace
+        self.ncolspace = colspace
         self.ncolor = PDFColor(colspace, *values)
 
     def copy(self):
-- 
2.43.0


From 0a4bafe1b556d8f15c154459a0912057681b1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 054/104] fix: sc and SC with too few components are errors

---
 pdfmajor/interpreter/commands/commands.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 1134d7b..b7820e9 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -329,6 +329,8 @@ def set_stroke_colorspace_custom(stack: PDFStateStack) -> PDFStateStack:
     if stack.graphics.scolspace is None:
         raise InvalidOperation('No colorspace specified!')
     components = stack.pop(stack.graphics.scolspace.ncomponents)
+    if len(components) < stack.graphics.scolspace.ncomponents:
+        raise InvalidOperation('Too few color components: %r' % components)
     stack.graphics.set_stroke_color(
         stack.graphics.scolspace,
         *components
@@ -340,6 +342,8 @@ def set_nonstroke_colorspace_custom(stack: PDFStateStack) -> PDFStateStack:
     if stack.graphics.ncolspace is None:
         raise InvalidOperation('No colorspace specified!')
     components = stack.pop(stack.graphics.ncolspace.ncomponents)
+    if len(components) < stack.graphics.ncolspace.ncomponents:
+        raise InvalidOperation('Too few color components: %r' % components)
     stack.graphics.set_nostroke_color(
         stack.graphics.ncolspace,
         *components
-- 
2.43.0


From b18b053ef7ef7120ba8b1c53f9c4f7113ebe5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 055/104] fix: ET without BT is an error

---
 pdfmajor/interpreter/commands/commands.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index b7820e9..680dc9e 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -363,6 +363,8 @@ def begin_text(stack: PDFStateStack) -> PDFStateStack:
 
 @PDFCommands.add('ET')
 def end_text(stack: PDFStateStack) -> PDFStateStack:
+    if stack.current_textblock is None:
+        raise InvalidOperation("No TextBlock initilized")
     stack.complete_layout_items.append(stack.current_textblock)
     stack.current_textblock = None
     return stack
-- 
2.43.0


From 9c0713349e63b758100d575b41a5252070ad31e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 056/104] fix: operands do not outlive their operator

---
 pdfmajor/interpreter/commands/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8eb3c73..41a10ab 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -43,6 +43,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     func(state)
             else:
                 log.debug('Unknown operator: %r (i.e. %r)' % (name, method))
+            # operands never outlive the operator that follows them
+            state.argstack = []
             # history.write(name, 
             #     None if func is None else func.__name__
             # , args)
-- 
2.43.0


From a8427847c3eb618737ddf6de2e50deaec82ace59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 057/104] fix: CS and cs make the initial color of the color
 space current

---
 pdfmajor/interpreter/commands/commands.py        | 16 ++++++++++++----
 .../state/PDFGraphicState/PDFColorSpace.py       | 11 +++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 680dc9e..320e0bb 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -251,19 +251,27 @@ def curve_close_only(stack: PDFStateStack) -> PDFStateStack:
 @PDFCommands.add('CS')
 def set_stroke_colorspace(stack: PDFStateStack, name: str) -> PDFStateStack:
     try:
-        stack.graphics.scolspace = stack.colorspace_map[literal_name(name)]
-        return stack
+        colspace = stack.colorspace_map[literal_name(name)]
     except KeyError:
         raise InvalidOperation('Undefined ColorSpace: %r' % name)
+    if colspace is None:
+        stack.graphics.scolspace = None
+    else:
+        stack.graphics.set_stroke_color(colspace, *colspace.initial_values)
+    return stack
 
 # setcolorspace-non-strokine
 @PDFCommands.add('cs')
 def set_nonstroke_colorspace(stack: PDFStateStack, name: str) -> PDFStateStack:
     try:
-        stack.graphics.ncolspace = stack.colorspace_map[literal_name(name)]
-        return stack
+        colspace = stack.colorspace_map[literal_name(name)]
     except KeyError:
         raise InvalidOperation('Undefined ColorSpace: %r' % name)
+    if colspace is None:
+        stack.graphics.ncolspace = None
+    else:
+        stack.graphics.set_nostroke_color(colspace, *colspace.initial_values)
+    return stack
 
 # setgray-stroking
 @PDFCommands.add('G')
diff --git a/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py b/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py
index 0560259..81d2324 100644
--- a/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py
+++ b/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py
@@ -7,6 +7,17 @@ class PDFColorSpace(object):
         self.name: str = name
         self.ncomponents: int = ncomponents
 
+    @property
+    def initial_values(self) -> tuple:
+        """The color that selecting this color space makes current."""
+        if self.name == 'Pattern':
+            return ()
+        elif self.name == 'DeviceCMYK':
+            return (0, 0, 0, 1)
+        elif self.name in ('Separation', 'DeviceN'):
+            return (1,) * self.ncomponents
+        return (0,) * self.ncomponents
+
     def __repr__(self):
         return '<PDFColorSpace: %s, ncomponents=%d>' % (self.name, self.ncomponents)
 
-- 
2.43.0


From 72238419c6bf0eb7c01d8d61b17e5d3723222d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 058/104] fix: indirect number of components of ICC based color
 spaces

---
 pdfmajor/interpreter/commands/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/utils.py b/pdfmajor/interpreter/commands/utils.py
index 1d7fce2..13cfdb1 100644
--- a/pdfmajor/interpreter/commands/utils.py
+++ b/pdfmajor/interpreter/commands/utils.py
@@ -1,5 +1,5 @@
 from pdfmajor.parser.PDFParser import PDFStream
-from pdfmajor.parser.PDFStream import list_value, dict_value, resolve1
+from pdfmajor.parser.PDFStream import int_value, list_value, dict_value, resolve1
 from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
 from pdfmajor.parser.PSStackParser import literal_name
 from pdfmajor.parser.constants import LITERAL_PDF, LITERAL_TEXT
@@ -13,7 +13,7 @@ def get_colorspace(spec):
     else:
         name = literal_name(spec)
     if name == 'ICCBased' and isinstance(spec, list) and 2 <= len(spec):
-        return PDFColorSpace(name, PDFStream.validated_stream(spec[1])['N'])
+        return PDFColorSpace(name, int_value(PDFStream.validated_stream(spec[1])['N']))
     elif name == 'DeviceN' and isinstance(spec, list) and 2 <= len(spec):
         return PDFColorSpace(name, len(list_value(spec[1])))
     else:
-- 
2.43.0


From 509ce15f35d9b0a50836445934c6ea46eef719a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 059/104] fix: boxes and kinds of painted paths

---
 .../commands/state/layout/__init__.py         | 39 +++++++------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 624ce81..4f1c8c6 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -82,32 +82,19 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor,
             )
-    else:
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
-        for path in paths:
-            if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
-                x0 = min(x0, path.points[0].x)
-                y0 = min(y0, path.points[0].y)
-                x1 = max(x1, path.points[0].x)
-                y1 = max(y1, path.points[0].y)
-            elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
-                x0 = min(x0, path.points[2].x)
-                y0 = min(y0, path.points[2].y)
-                x1 = max(x1, path.points[2].x)
-                y1 = max(y1, path.points[2].y)
-            elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
-                x0 = min(x0, path.points[1].x)
-                y0 = min(y0, path.points[1].y)
-                x1 = max(x1, path.points[1].x)
-                y1 = max(y1, path.points[1].y)
-        return LTCurve(
-            linewidth=gstate.linewidth, 
-            paths=paths,
-            bbox=Bbox(x0,y0,x1,y1), 
-            evenodd=evenodd,
-            stroke=gstate.scolor, 
-            fill=gstate.ncolor
-        )
+    # the last point of every segment is on the path
+    bbox = Bbox.from_points([
+        apply_matrix_pt(ctm, (path.points[-1].x, path.points[-1].y))
+        for path in paths if path.points
+    ])
+    return LTCurve(
+        linewidth=gstate.linewidth, 
+        paths=paths,
+        bbox=bbox, 
+        evenodd=evenodd,
+        stroke=gstate.scolor, 
+        fill=gstate.ncolor
+    )
 
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
-- 
2.43.0


From f8244dbd0ccc7ea821bfdb415bb6f8df0664493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 060/104] fix: the double quote operator moves to the next line

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 320e0bb..a7bd057 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -485,7 +485,7 @@ def add_quoted_char_blocks(stack: PDFStateStack, b: bytes) -> PDFStateStack:
 def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> PDFStateStack:
     stack.text.wordspace = wordspace
     stack.text.charspace = charspace
-    return add_char_blocks(stack, [b])
+    return add_char_blocks(nextline(stack), [b])
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-- 
2.43.0


From 7c1956554fbfc11918204c14f2c1693870961bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 061/104] fix: character space follows every glyph

---
 .../commands/state/layout/utils/textdecoder.py         | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 816175f..409c65f 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -22,31 +22,25 @@ def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
 
 def __render_string_along(idx: int, seq: bytearray, 
     textstate: PDFTextState, dxscale: float, color: PDFColor):
-    needcharspace = False
     char_meta_datas = []
     for obj in seq:
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
-            needcharspace = True
         else:
             for cid in textstate.font.decode(obj):
-                if needcharspace:
-                    textstate.linematrix[idx] += textstate.charspace
-                
                 text = textstate.to_unichr(cid)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
                 adv, bbox = __compute_char_bbox(matrix, cid, textstate)
-                textstate.linematrix[idx] += adv
+                textstate.linematrix[idx] += adv + textstate.charspace
 
                 char_meta_datas.append(
                     ( text, bbox )
                 )
                 if cid == 32 and textstate.wordspace:
                     textstate.linematrix[idx] += textstate.wordspace
-                needcharspace = True
-                
+
     return (char_meta_datas, textstate, color)
 
 def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
-- 
2.43.0


From 3c5d6e294e569f8f626a3fe314db32bdfb0c3179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 062/104] fix: horizontal scaling in vertical writing mode

---
 .../commands/state/layout/utils/textdecoder.py   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 409c65f..a231dbc 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -4,20 +4,21 @@ from ....state import PDFTextState, PDFColor
 def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
     textstate.matrix = mult_matrix(textstate.matrix, ctm)
     textstate.scaling = textstate.scaling * .01
-    textstate.charspace = textstate.charspace * textstate.scaling
-    textstate.wordspace = textstate.wordspace * textstate.scaling
     
     if textstate.font.is_multibyte():
         textstate.wordspace = 0
-    dxscale = .001 * textstate.fontsize * textstate.scaling
+    dxscale = .001 * textstate.fontsize
 
     if textstate.font.is_vertical():
         return __render_string_along(1,
             seq, textstate, dxscale, color
         )
     else:
+        # the horizontal scaling applies to horizontal displacements only
+        textstate.charspace = textstate.charspace * textstate.scaling
+        textstate.wordspace = textstate.wordspace * textstate.scaling
         return __render_string_along(0,
-            seq, textstate, dxscale, color
+            seq, textstate, dxscale * textstate.scaling, color
         )
 
 def __render_string_along(idx: int, seq: bytearray, 
@@ -51,17 +52,17 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
 
     textwidth = font.char_width(char_id)
     textdisp = font.char_disp(char_id)
-    adv = textwidth * fontsize * scaling
+    adv = textwidth * fontsize
 
     # compute the boundary rectangle.
     if font.is_vertical():
         # vertical
-        width = font.get_width() * fontsize
+        width = font.get_width() * fontsize * scaling
         (vx, vy) = textdisp
         if vx is None:
             vx = width * 0.5
         else:
-            vx = vx * fontsize * .001
+            vx = vx * fontsize * scaling * .001
         vy = (1000 - vy) * fontsize * .001
         tx = -vx
         ty = vy + rise
@@ -69,6 +70,7 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
         bur = (tx+width, ty)
     else:
         # horizontal
+        adv = adv * scaling
         height = font.get_height() * fontsize
         descent = font.get_descent() * fontsize
         ty = descent + rise
-- 
2.43.0


From 68819c57fc34bddd8af0d5c34a4f2822ff6ada85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 063/104] fix: boxes of rotated and slanted glyphs

---
 .../commands/state/layout/utils/textdecoder.py       | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index a231dbc..d443d80 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -76,11 +76,9 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
         ty = descent + rise
         bll = (0, ty)
         bur = (adv, ty+height)
-    (x0, y0) = apply_matrix_pt(matrix, bll)
-    (x1, y1) = apply_matrix_pt(matrix, bur)
-    if x1 < x0:
-        (x0, x1) = (x1, x0)
-    if y1 < y0:
-        (y0, y1) = (y1, y0)
+    box = Bbox.from_points([
+        apply_matrix_pt(matrix, (x, y))
+        for x in (bll[0], bur[0]) for y in (bll[1], bur[1])
+    ])
     
-    return (adv, ((x0, y0), (x1, y1)))
\ No newline at end of file
+    return (adv, ((box.x0, box.y0), (box.x1, box.y1)))
\ No newline at end of file
-- 
2.43.0


From 56c64c3b74d92e717487ef82b94694f4ce87c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 064/104] fix: showing an empty string

---
 pdfmajor/interpreter/commands/state/layout/LTTextBlock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
index 517c8b7..5bea248 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
@@ -22,6 +22,9 @@ class LTTextBlock(LTContainer):
     
     def add_char_block(self, seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
         (char_meta_datas, textstate, color) = decode_text_seq(seq, ctm, textstate, color)
+        if not char_meta_datas:
+            # nothing was shown
+            return
         char_block = LTCharBlock(
             chars=char_meta_datas,
             color=color,
-- 
2.43.0


From 6baa0a72cf95bb536a662f06263ad5d66bb8eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 065/104] fix: boxes of points with large coordinates

---
 pdfmajor/utils/types.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/utils/types.py b/pdfmajor/utils/types.py
index f649e53..73230a1 100644
--- a/pdfmajor/utils/types.py
+++ b/pdfmajor/utils/types.py
@@ -37,10 +37,8 @@ class Bbox:
     @classmethod
     def from_points(cls, pts: List[Point]):
         """Converts a list of points to a Boundary box."""
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
-        for (x, y) in pts:
-            x0 = min(x0, x)
-            y0 = min(y0, y)
-            x1 = max(x1, x)
-            y1 = max(y1, y)
-        return Bbox(x0, y0, x1, y1)
\ No newline at end of file
+        xs = [x for (x, _) in pts]
+        ys = [y for (_, y) in pts]
+        if not xs:
+            return Bbox(INF, INF, -INF, -INF)
+        return Bbox(min(xs), min(ys), max(xs), max(ys))
\ No newline at end of file
-- 
2.43.0


From cbd4152fc0883990814cae32456086f378ec5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 066/104] fix: width and height of rotated pages

---
 pdfmajor/interpreter/PageInterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 477b4f2..d6ec5a5 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -23,6 +23,8 @@ class PageInterpreter:
         self.page_num = page_num
         self.height = y1-y0
         self.width = x1-x0
+        if page.rotate in (90, 270):
+            (self.width, self.height) = (self.height, self.width)
 
         self.ctm = ctm
         self.ignore_bad_chars = ignore_bad_chars
-- 
2.43.0


From 0f4c803b4b1cc9809bc9598b858e205fc11b441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 067/104] fix: media boxes given by other corners

---
 pdfmajor/interpreter/PageInterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index d6ec5a5..cdedf16 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -8,6 +8,9 @@ class PageInterpreter:
 
     def __init__(self, page: PDFPage, page_num: int, font_cache: dict = None, ignore_bad_chars = False):
         (x0, y0, x1, y1) = page.mediabox
+        # any two opposite corners
+        (x0, x1) = (min(x0, x1), max(x0, x1))
+        (y0, y1) = (min(y0, y1), max(y0, y1))
         if page.rotate == 90:
             ctm = [0, -1, 1, 0, -y0, x1]
         elif page.rotate == 180:
-- 
2.43.0


From 1173ad96991ee691f2a7c8cab423a622500c2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 068/104] fix: matrix and box of form objects

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 4f1c8c6..f5d8fb0 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -108,14 +108,15 @@ def make_image(obj, ctm):
     )
 
 def make_xobject(obj, bbox, ctm, matrix, resources):
-    (x, y, w, h) = bbox
+    (x0, y0, x1, y1) = bbox
+    t_matrix = mult_matrix(matrix, ctm)
     return LTXObject(
         name=str(id(obj)),
         bbox=Bbox.from_points([
-            apply_matrix_pt(matrix, (p, q))
-            for (p, q) in ((x, y), (x+w, y), (x, y+h), (x+w, y+h))
+            apply_matrix_pt(t_matrix, (p, q))
+            for (p, q) in ((x0, y0), (x1, y0), (x0, y1), (x1, y1))
         ]),
         xobj_stream=obj,
         resources=resources,
-        t_matrix = ctm
+        t_matrix = t_matrix
     )
\ No newline at end of file
-- 
2.43.0


From ff4924c75cf3d688d78062af778bea401e587b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 069/104] fix: forms inherit the text parameters of their
 invoker

---
 pdfmajor/interpreter/commands/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 41a10ab..4bbbfbd 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -61,6 +61,7 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     font_cache=font_cache
                 )
                 xobj_state.graphics = state.graphics.copy()
+                xobj_state.text = state.text.copy()
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-- 
2.43.0


From b85c160b332b72b4804d29653160fe3b942fe061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 070/104] fix: forms that invoke themselves

---
 pdfmajor/interpreter/commands/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 4bbbfbd..4a71030 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -1,6 +1,6 @@
 from typing import List
 
-from pdfmajor.execptions import CommandProcessorError
+from pdfmajor.execptions import CommandProcessorError, InvalidOperation
 from pdfmajor.parser.PDFContentParser import PDFContentParser, PDFStream
 from pdfmajor.parser.PSStackParser import PSKeyword, keyword_name
 from pdfmajor.utils import get_logger
@@ -18,7 +18,7 @@ from .utils import init_resources
 
 log = get_logger('process_command_stream')
 
-def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
+def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None, invokers: tuple = ()):
     if font_cache is None:
         font_cache = {}
     parser = PDFContentParser(streams)
@@ -54,6 +54,10 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
         
         for complete_item in state.complete_layout_items:
             if isinstance(complete_item, LTXObject):
+                stream = complete_item.stream
+                form = id(stream) if stream.objid is None else stream.objid
+                if form in invokers:
+                    raise InvalidOperation(f"Form {form} invokes itself")
                 xobj_state = prep_state(
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
@@ -63,9 +67,10 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 xobj_state.graphics = state.graphics.copy()
                 xobj_state.text = state.text.copy()
                 for item in process_command_stream(
-                    [complete_item.stream], 
+                    [stream], 
                     font_cache=font_cache, 
-                    state=xobj_state
+                    state=xobj_state,
+                    invokers=invokers+(form,)
                 ):
                     complete_item.add(item)
             yield complete_item
-- 
2.43.0


From 9135a93b7198086dec37049421db5c8689cf9f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 071/104] fix: references in the dictionaries of forms

---
 pdfmajor/interpreter/commands/commands.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index a7bd057..5dab4ab 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -1,7 +1,7 @@
 from pdfmajor.execptions import InvalidOperation
 from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value
+from pdfmajor.parser.PDFStream import PDFStream, resolve1, resolve_all, list_value, dict_value
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
 
 from .PDFCommands import PDFCommands
@@ -504,10 +504,10 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
     except KeyError:
         raise InvalidOperation('Undefined xobject id: %r' % xobjid)
     # log.info('Processing xobj: %r', xobj)
-    subtype = xobj.get('Subtype')
+    subtype = resolve1(xobj.get('Subtype'))
     if subtype is LITERAL_FORM and 'BBox' in xobj:
-        bbox = list_value(xobj['BBox'])
-        matrix = list_value(xobj.get('Matrix', MATRIX_IDENTITY))
+        bbox = resolve_all(xobj['BBox'])
+        matrix = resolve_all(xobj.get('Matrix', MATRIX_IDENTITY))
         # According to PDF reference 1.7 section 4.9.1, XObjects in
         # earlier PDFs (prior to v1.2) use the page's Resources entry
         # instead of having their own Resources entry.
-- 
2.43.0


From 528b3b11ad0c46e8d16913dc81132b5a7a8c3472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 072/104] fix: references in the dictionaries of images

---
 .../interpreter/commands/state/layout/LTImage.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f2e7bc1..23fbcb9 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,7 +5,7 @@ import PIL as pillow
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, resolve1, LITERALS_DCT_DECODE
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
@@ -22,11 +22,11 @@ class LTImage(LTComponent):
         LTComponent.__init__(self, bbox)
         self.name = name
         self.stream = stream
-        self.srcsize = (stream.get_any(('W', 'Width')),
-                        stream.get_any(('H', 'Height')))
-        self.imagemask = stream.get_any(('IM', 'ImageMask'))
-        self.bits = stream.get_any(('BPC', 'BitsPerComponent'), 1)
-        self.colorspace = stream.get_any(('CS', 'ColorSpace'))
+        self.srcsize = (resolve1(stream.get_any(('W', 'Width'))),
+                        resolve1(stream.get_any(('H', 'Height'))))
+        self.imagemask = resolve1(stream.get_any(('IM', 'ImageMask')))
+        self.bits = resolve1(stream.get_any(('BPC', 'BitsPerComponent'), 1))
+        self.colorspace = resolve1(stream.get_any(('CS', 'ColorSpace')))
         if not isinstance(self.colorspace, list):
             self.colorspace = [self.colorspace]
         return
-- 
2.43.0


From ee7343d6db07cbd3cc087067f02c26f9abaebab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 073/104] fix: inline images with unabbreviated keys

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 5dab4ab..9d4ae09 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -489,7 +489,7 @@ def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> P
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-    if 'W' in obj and 'H' in obj:
+    if obj.get_any(('W', 'Width')) is not None and obj.get_any(('H', 'Height')) is not None:
         stack.complete_layout_items.append(make_image(
             obj,  stack.t_matrix
         ))
-- 
2.43.0


From 76818a27cf8508549868f423d296a31161f6c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 074/104] fix: size, depth and color space of exported images

---
 pdfmajor/BMPWriter/__init__.py                       |  2 +-
 .../interpreter/commands/state/layout/LTImage.py     | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 2e93a9a..ba0ad70 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -13,7 +13,7 @@ class BMPWriter(object):
 
     @classmethod
     def write_all(cls, fp, stream: PDFStream, bits: int, width: float, height: float, step: float):
-        bmp = cls(fp, 1, width, height)
+        bmp = cls(fp, bits, width, height)
         data = stream.get_data()
         i = 0
         for y in range(height):
diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 23fbcb9..9dad98f 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -13,6 +13,9 @@ from ._base import LTComponent
 LITERAL_DEVICE_GRAY = LIT('DeviceGray')
 LITERAL_DEVICE_RGB = LIT('DeviceRGB')
 LITERAL_DEVICE_CMYK = LIT('DeviceCMYK')
+# with the abbreviations of inline images
+LITERALS_GRAY = (LITERAL_DEVICE_GRAY, LIT('G'))
+LITERALS_RGB = (LITERAL_DEVICE_RGB, LIT('RGB'))
 
 ##  LTImage
 ##
@@ -39,14 +42,13 @@ class LTImage(LTComponent):
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
-        width = self.bbox.width
-        height = self.bbox.height
+        (width, height) = self.srcsize
         bits = self.bits
 
         if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 or
-                bits == 8 and self.colorspace in (LITERAL_DEVICE_RGB, LITERAL_DEVICE_GRAY)):
+                bits == 8 and self.colorspace[0] in LITERALS_RGB + LITERALS_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
             ext = '.b%dw%dh%d.img' % (bits, width, height)
@@ -70,9 +72,9 @@ class LTImage(LTComponent):
                     fp.write(raw_data)
             elif bits == 1:
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_RGB:
+            elif bits == 8 and self.colorspace[0] in LITERALS_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_GRAY:
+            elif bits == 8 and self.colorspace[0] in LITERALS_GRAY:
                 BMPWriter.write_all(fp, stream, 8, width, height, width)
             else:
                 fp.write(stream.get_data())
-- 
2.43.0


From 38f37230307a9fe8a4499f776d2394326eeb46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 075/104] fix: rows of exported bitmaps

---
 pdfmajor/BMPWriter/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index ba0ad70..fdd09d9 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -55,6 +55,9 @@ class BMPWriter(object):
         return
 
     def write_line(self, y, data):
+        if self.bits == 24:
+            # bitmaps store blue, green, red
+            data = b''.join(data[i:i+3][::-1] for i in range(0, len(data), 3))
         self.fp.seek(self.pos1 - (y+1)*self.linesize)
-        self.fp.write(data)
+        self.fp.write(data.ljust(self.linesize, b'\0'))
         return
-- 
2.43.0


From 3ed1f341f6f3d350606f931e8885f5ccfd434445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 076/104] fix: export of JPEG images

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 9dad98f..8629436 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -1,7 +1,7 @@
 import os
 from io import BytesIO
 
-import PIL as pillow
+from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
@@ -45,7 +45,7 @@ class LTImage(LTComponent):
         (width, height) = self.srcsize
         bits = self.bits
 
-        if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
+        if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 or
                 bits == 8 and self.colorspace[0] in LITERALS_RGB + LITERALS_GRAY):
@@ -61,11 +61,11 @@ class LTImage(LTComponent):
         
         with open(path, 'wb') as fp:
             if ext == '.jpg':
-                raw_data = stream.get_rawdata()
+                raw_data = stream.get_data()
                 if LITERAL_DEVICE_CMYK in self.colorspace:
                     ifp = BytesIO(raw_data)
-                    i = pillow.Image.open(ifp)
-                    i = pillow.ImageChops.invert(i)
+                    i = Image.open(ifp)
+                    i = ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
-- 
2.43.0


From db70a9fc86911625aa44db775a1306f036b7567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 077/104] fix: JSON strings, keys and numbers are always valid
 JSON

---
 pdfmajor/converters/writers/json.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 90ff2ff..b76f697 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -1,9 +1,16 @@
+from math import isfinite
 from typing import Set
 from json import dumps as json_dump
 from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+def json_number(val: float or int) -> str:
+    """JSON can only carry finite numbers."""
+    if val is None or isinstance(val, float) and not isfinite(val):
+        return 'null'
+    return str(val)
+
 @contextmanager
 def JSONMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -42,16 +49,15 @@ class JSONMakerObject:
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self.write(f'"{key}": {val}', prefix=',\n')
+                self.write(f'{json_dump(key)}: {val}', prefix=',\n')
             else:
-                self.write(f'"{key}": {val}', prefix='\n')
+                self.write(f'{json_dump(key)}: {val}', prefix='\n')
  
     def number(self, key: str, val: float or int):
-        self.write_prop(key, val)
+        self.write_prop(key, json_number(val))
     
     def string(self, key: str, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(key, f'"{val_sant}"')
+        self.write_prop(key, json_dump(str(val)))
     
     @contextmanager
     def object(self, key: str):
@@ -106,11 +112,10 @@ class JSONMakerArray:
             self.write(f'{val}', prefix='\n')
 
     def number(self, val: float or int):
-        self.write_prop(val)
+        self.write_prop(json_number(val))
     
     def string(self, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(f'"{val_sant}"')
+        self.write_prop(json_dump(str(val)))
     
     @contextmanager
     def object(self):
-- 
2.43.0


From 3d779d2da245043c9ff3225fcbb230833a51b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 078/104] fix: JSON values are not escaped as HTML

---
 pdfmajor/converters/json.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 47eaf17..35f2a7b 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -7,15 +7,14 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_json(
@@ -73,7 +72,7 @@ def render(json: JSONMakerObject, item: LTItem):
             # if json.imagewriter is not None:
             #     name = json.imagewriter.export_image(item)
             json.string("type", 'img')
-            json.string("src", enc(item.name, None))
+            json.string("src", item.name)
             json.number("x0", item.x0)
             json.number("x1", item.x1)
             json.number("y0", item.y0)
@@ -100,7 +99,7 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
     json.number("y1", char_block.y1)
     if char_block.color.color_space is not None:
         json.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": char_block.color.color_space.name,
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -120,12 +119,12 @@ def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("y1", item.y1)
     if item.fill.color_space is not None:
         json.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": item.fill.color_space.name,
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         json.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": item.stroke.color_space.name,
             "value": normalize_color_values(item.stroke.values)
         })
                     
-- 
2.43.0


From d1a59ac81e5f05e3543f027f32fc73ac6e7a20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 079/104] fix: font descriptor entries never replace the fields
 of a block

---
 pdfmajor/converters/json.py  | 6 +++---
 pdfmajor/converters/utils.py | 9 +++++++++
 pdfmajor/converters/xml.py   | 6 +++---
 pdfmajor/converters/yaml.py  | 6 +++---
 4 files changed, 18 insertions(+), 9 deletions(-)
 create mode 100644 pdfmajor/converters/utils.py

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 35f2a7b..6683df3 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -1,6 +1,7 @@
 from typing import List, Optional
 
 from .writers.json import JSONMaker, JSONMakerObject, JSONMakerArray
+from .utils import font_attributes
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
@@ -102,15 +103,14 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
             "type": char_block.color.color_space.name,
             "value": normalize_color_values(char_block.color.values)
         })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            json.string(key, value)
     json.string("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in font_attributes(char_block.font.descriptor):
+        json.string(key, value)
 
 def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("x0", item.x0)
diff --git a/pdfmajor/converters/utils.py b/pdfmajor/converters/utils.py
new file mode 100644
index 0000000..ffc274a
--- /dev/null
+++ b/pdfmajor/converters/utils.py
@@ -0,0 +1,9 @@
+from typing import Iterator, Tuple
+
+def font_attributes(descriptor: dict) -> Iterator[Tuple[str, object]]:
+    """The entries of a font descriptor that converters write."""
+    for key, value in descriptor.items():
+        # names that are no UTF-8 are bytes
+        key = str(key)
+        if key != "Type" and "FontFile" not in key:
+            yield key, value
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 8aaaa26..4f8a07f 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -3,6 +3,7 @@ from typing import List
 from xml.sax import saxutils
 
 from .writers.xml import XMLMaker
+from .utils import font_attributes
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
@@ -116,9 +117,8 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
         "y1": char_block.y1,
         **get_color(char_block.color, codec=xml.codec),
     }
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            attr[convert_capcase_to_snakecase(key)] = value
+    for key, value in font_attributes(char_block.font.descriptor):
+        attr.setdefault(convert_capcase_to_snakecase(key), value)
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9697958..c53c8f8 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -1,6 +1,7 @@
 from typing import List
 
 from .writers.yaml import YAMLMaker, YAMLMakerObject, YAMLMakerArray
+from .utils import font_attributes
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
@@ -103,15 +104,14 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
             "type": enc(char_block.color.color_space.name).decode(),
             "value": normalize_color_values(char_block.color.values)
         })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            yaml.write(key, value)
     yaml.write("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in font_attributes(char_block.font.descriptor):
+        yaml.write(key, value)
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
     if isinstance(item, LTRect):
-- 
2.43.0


From dccb739d6ab0765633345f674c808e7a81efea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 080/104] fix: XML output is well formed whatever the document
 contains

---
 pdfmajor/converters/writers/xml.py | 30 ++++++++++++++++++++++++++----
 pdfmajor/converters/xml.py         | 14 ++++++--------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index 4d71dc1..b2fc07f 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -1,7 +1,25 @@
+import re
 from io import TextIOWrapper
 from contextlib import contextmanager
+from xml.sax import saxutils
 from pdfmajor.execptions import FileAccessException
 
+# characters that XML documents cannot contain
+ILLEGAL_CHARS_RE = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+ILLEGAL_NAME_RE = re.compile('[^A-Za-z0-9_.-]')
+
+def escape_text(text: str) -> str:
+    return saxutils.escape(ILLEGAL_CHARS_RE.sub('', text), {'\r': '&#13;'})
+
+def escape_attr(value) -> str:
+    return saxutils.escape(ILLEGAL_CHARS_RE.sub('', str(value)), {
+        '"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'
+    })
+
+def attr_name(name: str) -> str:
+    name = ILLEGAL_NAME_RE.sub('_', name)
+    return name if re.match('[A-Za-z_]', name) else '_' + name
+
 class XMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
         self.file_path = file_path
@@ -10,9 +28,9 @@ class XMLMaker:
     def __enter__(self):
         self.outfile = open(self.file_path, 'wb')
         if self.codec:
-            self.write_raw(f'<?xml version="1.0.0" encoding="{self.codec}" ?>')
+            self.write_raw(f'<?xml version="1.0" encoding="{self.codec}" ?>')
         else:
-            self.write_raw(f'<?xml version="1.0.0" ?>')
+            self.write_raw(f'<?xml version="1.0" ?>')
         self.__levels_deep = 0
         return self
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -22,7 +40,7 @@ class XMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -40,9 +58,13 @@ class XMLMaker:
             deep_space = ''
         if attrs is None:
             attrs = {}
+        names = {}
+        for name, value in attrs.items():
+            if value is not None:
+                names.setdefault(attr_name(name), escape_attr(value))
         attrs = " ".join([
             f'{name}="{value}"'
-            for name, value in attrs.items()
+            for name, value in names.items()
         ])
         if not singleton:
             self.write(f"<{tag_name} {attrs}>", lineend=lineend)
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 4f8a07f..e3d9ad9 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -1,8 +1,7 @@
 import re
 from typing import List
-from xml.sax import saxutils
 
-from .writers.xml import XMLMaker
+from .writers.xml import XMLMaker, escape_text
 from .utils import font_attributes
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
@@ -10,7 +9,6 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 FIRST_CAP_RE = re.compile('(.)([A-Z][a-z]+)')
 ALL_CAP_RE = re.compile('([a-z0-9])([A-Z])')
@@ -24,15 +22,15 @@ def normalize_color_values(values: list):
         if i > 0:
             ret += ','
         if isinstance(v, PSLiteral):
-            ret += enc(str(v.name)).decode()
+            ret += str(v.name)
         else:
-            ret += enc(str(v)).decode()
+            ret += str(v)
     return ret
 
 def get_color(col: PDFColor, prefix: str = 'color', codec = 'utf-8'):
     if col.color_space is not None:
         return {
-            f"{prefix}-type": enc(col.color_space.name).decode(),
+            f"{prefix}-type": col.color_space.name,
             f"{prefix}-values": normalize_color_values(col.values)
         }
     return {}
@@ -83,7 +81,7 @@ def render_page(xml: XMLMaker, ltpage: PageInterpreter):
             # if xml.imagewriter is not None:
             #     name = xml.imagewriter.export_image(item)
             xml.singleton('img', attrs={
-                'src': enc(name, None),
+                'src': name,
                 "x0": item.x0,
                 "x1": item.x1,
                 "y0": item.y0,
@@ -106,7 +104,7 @@ def place_char(xml: XMLMaker, char: LTChar):
         'y0': char.y0,
         'y1': char.y1,
     }, no_additional_char=True):
-        xml.write(saxutils.escape(char.get_text()), lineend='', deep_space="")
+        xml.write(escape_text(char.get_text()), lineend='', deep_space="")
 
 def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     attr = {
-- 
2.43.0


From bccc3b3bb8966698ed4c7a42a861be244ed997c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 081/104] fix: HTML output escapes text and attribute values

---
 pdfmajor/converters/html.py         | 6 +++---
 pdfmajor/converters/writers/html.py | 9 +++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 9b8b335..ec6984a 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -1,5 +1,5 @@
 from typing import List, Optional
-from .writers.html import HTMLMaker
+from .writers.html import HTMLMaker, escape_html
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
@@ -80,8 +80,8 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
                 'height': str(item.height) + "px",
                 'min-height': str(item.height) + "px",
                 'max-height': str(item.height) + "px",
-            }):
-                html.write(item.get_text())
+            }, no_additional_char=True):
+                html.write(escape_html(item.get_text()), lineend='', deep_space='')
         elif isinstance(item, LTTextBlock):
             with html.elm('span', {'class': 'text-block'}):
                 for char in item:
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index 89961e6..e1f7f25 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -1,9 +1,14 @@
 from typing import Optional
 from io import TextIOWrapper
 from contextlib import contextmanager
+from html import escape
 
 from pdfmajor.execptions import FileAccessException
 
+def escape_html(text) -> str:
+    # a literal carriage return would be read as a line feed
+    return escape(str(text)).replace('\r', '&#13;')
+
 class HTMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
         self.file_path = file_path
@@ -21,7 +26,7 @@ class HTMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -45,7 +50,7 @@ class HTMLMaker:
                 for name, value in css.items()
             ])
         attrs_str = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{escape_html(value)}"'
             for name, value in attrs.items()
         ])
         if not singleton:
-- 
2.43.0


From 78ae71c16cf3272b2320261bd6cf4add98b02c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 082/104] fix: HTML output of patterns without colours and of
 empty curves

---
 pdfmajor/converters/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index ec6984a..1fde686 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -121,7 +121,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
 def get_color(col: PDFColor, default: str = ""):
     if col.color_space is not None:
         if col.color_space.ncomponents == 1:
-            if type(col.values[0]) in [float, int]:
+            if col.values and type(col.values[0]) in [float, int]:
                 return f"rgba(0,0,0,{1 - float(col.values[0])})"
         elif col.color_space.ncomponents == 3:
             return f"rgb({','.join(map(str, col.values))})"
@@ -173,7 +173,7 @@ def create_svg_path(item: LTCurve):
             "viewBox": "0 0 %s %s" % ( item.width/item.height, 1 )
         })
     else:
-        dx = 1.0/(item.x1-item.x0)
+        dx = 1.0/max([(item.x1-item.x0),0.01])
         dy = 1.0
         svg_attr.update({
             "viewBox": "0 0 1 1"
-- 
2.43.0


From 0372073103f5ef18cf476782990c668d692da665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 083/104] fix: font weight of fonts whose name is no text

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 2e6c712..f3237b6 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -95,14 +95,15 @@ class PDFFont(object):
     def font_weight(self):
         if 'FontWeight' in self.descriptor.keys():
             return self.descriptor['FontWeight']
-        elif 'bold' in self.fontname.lower():
+        elif 'bold' in str(self.fontname).lower():
             return 'bold'
         else:
             return None
     
     @property
     def is_bold(self):
-        return self.font_weight == 'bold' or self.font_weight > 549
+        weight = self.font_weight
+        return weight == 'bold' or isinstance(weight, (int, float)) and weight > 549
 
 # PDFSimpleFont
 class PDFSimpleFont(PDFFont):
-- 
2.43.0


From 87e1dc9d7a9a316cae73e13c96bb4e3434d61299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 084/104] fix: YAML output quotes the texts of the document

---
 pdfmajor/converters/writers/yaml.py | 47 +++++++++++++++++++++++++++--
 pdfmajor/converters/yaml.py         | 20 ++++++------
 2 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6bdfefc..47fb747 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -1,8 +1,44 @@
-from json import dumps as json_dump
+import re
+from math import isfinite
 from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+PLAIN_KEY_RE = re.compile('[A-Za-z_][A-Za-z0-9_-]*')
+PLAIN_ITEM_RE = re.compile('[A-Za-z0-9_.+-]*')
+# words that YAML does not read as text
+RESERVED_WORDS = ('null', 'true', 'false', 'yes', 'no', 'on', 'off', 'y', 'n')
+# what a double quoted text cannot carry as it is
+ESCAPED_CHARS_RE = re.compile('[^\x20-\x21\x23-\x5b\x5d-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]')
+
+def escape_char(m) -> str:
+    return '\\' + m.group(0) if m.group(0) in '"\\' else '\\u%04x' % ord(m.group(0))
+
+def yaml_string(text: str) -> str:
+    return '"' + ESCAPED_CHARS_RE.sub(escape_char, text) + '"'
+
+def yaml_key(key: str) -> str:
+    if PLAIN_KEY_RE.fullmatch(key) and key.lower() not in RESERVED_WORDS:
+        return key
+    return yaml_string(key)
+
+def yaml_value(value) -> str:
+    if value is None:
+        return 'null'
+    if isinstance(value, float) and not isfinite(value):
+        return '.nan' if value != value else '.inf' if value > 0 else '-.inf'
+    if isinstance(value, dict):
+        return '{' + ', '.join(f'{yaml_key(k)}: {yaml_item(v)}' for k, v in value.items()) + '}'
+    if isinstance(value, (list, tuple)):
+        return '[' + ', '.join(yaml_item(v) for v in value) + ']'
+    return str(value)
+
+def yaml_item(value) -> str:
+    """A value inside brackets."""
+    if isinstance(value, str):
+        return f"'{value}'" if PLAIN_ITEM_RE.fullmatch(value) else yaml_string(value)
+    return yaml_value(value)
+
 @contextmanager
 def YAMLMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -47,12 +83,16 @@ class YAMLMakerObject(YAMLMakerWriter):
     def write(self, key: str, value: str):
         if key not in self.keys:
             self.keys.add(key)
+            entry = f'{yaml_key(key)}: {yaml_value(value)}'
             if len(self.keys) > 1:
-                self._write(f'{key}: {value}', prefix='\n')
+                self._write(entry, prefix='\n')
             else:
-                self._write(f'{key}: {value}', prefix='', 
+                self._write(entry, prefix='', 
                     append_deep=not self.parent_is_array
                 )
+
+    def string(self, key: str, text: str):
+        self.write(key, yaml_string(str(text)))
     
     @contextmanager
     def object(self, key: str):
@@ -93,6 +133,7 @@ class YAMLMakerArray(YAMLMakerWriter):
         self.childrencount = 0 
  
     def write(self, value: str = ""):
+        value = yaml_value(value)
         self.childrencount += 1
         if self.childrencount > 1:
             self._write(f'- {value}', prefix='\n')
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index c53c8f8..552e576 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -8,15 +8,14 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_yaml(
@@ -74,7 +73,7 @@ def render(yaml: YAMLMakerObject, item: LTItem):
         # if yaml.imagewriter is not None:
         #     name = yaml.imagewriter.export_image(item)
         yaml.write("type", 'img')
-        yaml.write("src", enc(item.name, None))
+        yaml.string("src", item.name)
         yaml.write("x0", item.x0)
         yaml.write("x1", item.x1)
         yaml.write("y0", item.y0)
@@ -101,17 +100,20 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("y1", char_block.y1)
     if char_block.color.color_space is not None:
         yaml.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": char_block.color.color_space.name,
             "value": normalize_color_values(char_block.color.values)
         })
-    yaml.write("text", 
+    yaml.string("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
     for key, value in font_attributes(char_block.font.descriptor):
-        yaml.write(key, value)
+        if isinstance(value, (int, float)):
+            yaml.write(key, value)
+        else:
+            yaml.string(key, value)
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
     if isinstance(item, LTRect):
@@ -136,11 +138,11 @@ def place_curve(yaml: YAMLMakerObject, item: LTCurve):
     yaml.write("y1", item.y1)
     if item.fill.color_space is not None:
         yaml.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": item.fill.color_space.name,
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         yaml.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": item.stroke.color_space.name,
             "value": normalize_color_values(item.stroke.values)
         })
\ No newline at end of file
-- 
2.43.0


From 09696d5990ed27268825545dcf2c0257061f34f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 085/104] fix: points with infinite coordinates are valid JSON

---
 pdfmajor/converters/writers/json.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index b76f697..f6ff708 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -11,6 +11,16 @@ def json_number(val: float or int) -> str:
         return 'null'
     return str(val)
 
+def finite_numbers(obj):
+    """The object with null for the numbers that JSON cannot carry."""
+    if isinstance(obj, dict):
+        return {key: finite_numbers(val) for key, val in obj.items()}
+    elif isinstance(obj, list):
+        return [finite_numbers(val) for val in obj]
+    elif isinstance(obj, float) and not isfinite(obj):
+        return None
+    return obj
+
 @contextmanager
 def JSONMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -72,7 +82,7 @@ class JSONMakerObject:
             yield child
     
     def place_object(self, key: str, obj: dict):
-        self.write_prop(key, json_dump(obj))
+        self.write_prop(key, json_dump(finite_numbers(obj)))
     
     
 
@@ -130,6 +140,6 @@ class JSONMakerArray:
             yield child
     
     def place_object(self, obj: dict):
-        self.write_prop(json_dump(obj))
+        self.write_prop(json_dump(finite_numbers(obj)))
     
     
\ No newline at end of file
-- 
2.43.0


From adb0dffa2fb0dd3dfbbbcef270968bdaf9597b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 086/104] fix: characters that YAML texts cannot carry are
 escaped

---
 pdfmajor/converters/writers/yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 47fb747..6c52cc1 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -9,7 +9,7 @@ PLAIN_ITEM_RE = re.compile('[A-Za-z0-9_.+-]*')
 # words that YAML does not read as text
 RESERVED_WORDS = ('null', 'true', 'false', 'yes', 'no', 'on', 'off', 'y', 'n')
 # what a double quoted text cannot carry as it is
-ESCAPED_CHARS_RE = re.compile('[^\x20-\x21\x23-\x5b\x5d-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]')
+ESCAPED_CHARS_RE = re.compile(r'[^\x20-\x21\x23-\x5b\x5d-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]')
 
 def escape_char(m) -> str:
     return '\\' + m.group(0) if m.group(0) in '"\\' else '\\u%04x' % ord(m.group(0))
-- 
2.43.0


From 77446ad7c1a837cf9cff656cfcc0f1e1eda20d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 087/104] fix: dictionaries whose keys are arrays or
 dictionaries are syntax errors

---
 pdfmajor/parser/PDFContentParser.py       | 6 +++++-
 pdfmajor/parser/PSStackParser/__init__.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 4a22f1e..ba20658 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -98,7 +98,11 @@ class PDFContentParser(PSStackParser):
                 (_, objs) = self.end_type('inline')
                 if len(objs) % 2 != 0:
                     raise PSTypeError('Invalid dictionary construct: %r' % objs)
-                d = dict((literal_name(k), v) for (k, v) in choplist(2, objs))
+                try:
+                    d = dict((literal_name(k), v) for (k, v) in choplist(2, objs))
+                except TypeError:
+                    # arrays and dictionaries cannot be keys
+                    raise PSTypeError('Invalid dictionary construct: %r' % objs)
                 (pos, data) = self.get_inline_data(pos+len(b'ID '))
                 obj = PDFStream(d, data)
                 self.push((pos, obj))
diff --git a/pdfmajor/parser/PSStackParser/__init__.py b/pdfmajor/parser/PSStackParser/__init__.py
index 7b790f1..595317f 100644
--- a/pdfmajor/parser/PSStackParser/__init__.py
+++ b/pdfmajor/parser/PSStackParser/__init__.py
@@ -135,7 +135,11 @@ class PSStackParser(PSBaseParser):
                     if len(objs) % 2 != 0:
                         raise PSSyntaxError('Invalid dictionary construct: %r' % objs)
                     # construct a Python dictionary.
-                    d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v is not None)
+                    try:
+                        d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v is not None)
+                    except TypeError:
+                        # arrays and dictionaries cannot be keys
+                        raise PSSyntaxError('Invalid dictionary construct: %r' % objs)
                     self.push((pos, d))
                 except PSTypeError as e:
                     if settings.STRICT:
-- 
2.43.0


From 3226bc830ade57fd980da9e224388d287f03e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 088/104] fix: character maps with operands that are missing or
 of other types

---
 pdfmajor/parser/cmapdb/__init__.py | 37 ++++++++++++++++--------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index f57ac14..28ecc09 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -22,7 +22,6 @@ import logging
 from pdfmajor.execptions import (
     CMapNotFound, 
     PSEOF, 
-    PSSyntaxError,
 )
 from ...utils import choplist, nunpack, name2unicode
 from ..PSStackParser import PSStackParser
@@ -74,7 +73,9 @@ class CMap(CMapBase):
         return '<CMap: %s>' % self.attrs.get('CMapName')
 
     def use_cmap(self, cmap):
-        assert isinstance(cmap, CMap), str(type(cmap))
+        if not isinstance(cmap, CMap):
+            # identity maps have no table
+            return
 
         def copy(dst, src):
             for (k, v) in src.items():
@@ -183,7 +184,8 @@ class FileUnicodeMap(UnicodeMap):
             # Interpret as UTF-16BE.
             self.cid2unichr[cid] = code.decode('UTF-16BE', 'ignore')
         elif isinstance(code, int):
-            self.cid2unichr[cid] = chr(code)
+            if 0 <= code < 0xd800 or 0xe000 <= code <= 0x10ffff:
+                self.cid2unichr[cid] = chr(code)
         else:
             raise TypeError(code)
         return
@@ -312,21 +314,20 @@ class CMapParser(PSStackParser):
             return
         #
         if token is self.KEYWORD_DEF:
-            try:
-                ((_, k), (_, v)) = self.pop(2)
+            objs = [obj for (_, obj) in self.pop(2)]
+            if len(objs) == 2 and isinstance(objs[0], PSLiteral):
+                (k, v) = objs
                 self.cmap.set_attr(literal_name(k), v)
-            except PSSyntaxError:
-                pass
             return
 
         if token is self.KEYWORD_USECMAP:
-            try:
-                ((_, cmapname),) = self.pop(1)
-                self.cmap.use_cmap(CMapDB.get_cmap(literal_name(cmapname)))
-            except PSSyntaxError:
-                pass
-            except CMapNotFound:
-                pass
+            for (_, cmapname) in self.pop(1):
+                if not isinstance(cmapname, PSLiteral):
+                    continue
+                try:
+                    self.cmap.use_cmap(CMapDB.get_cmap(str(literal_name(cmapname))))
+                except CMapNotFound:
+                    pass
             return
 
         if token is self.KEYWORD_BEGINCODESPACERANGE:
@@ -384,13 +385,15 @@ class CMapParser(PSStackParser):
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
                     for (i, c) in enumerate(code[:max(0, e1-s1+1)]):
-                        self.cmap.add_cid2unichr(s1+i, c)
-                else:
+                        if isinstance(c, (bytes, PSLiteral)):
+                            self.cmap.add_cid2unichr(s1+i, c)
+                elif isinstance(code, bytes):
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
-                    for i in range(e1-s1+1):
+                    # codes have two bytes at most
+                    for i in range(min(e1-s1+1, 0x10000)):
                         x = prefix+struct.pack('>L', (base+i) & 0xffffffff)[4-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
             return
-- 
2.43.0


From 23c396d91d9f543a98995ebe8c82750577060be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 089/104] fix: Type 1 font headers whose put lacks operands

---
 .../state/PDFTextState/PDFFont/Type1FontHeaderParser.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py
index bb4122e..01b46bd 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py
@@ -38,7 +38,10 @@ class Type1FontHeaderParser(PSStackParser):
 
     def do_keyword(self, pos, token):
         if token is self.KEYWORD_PUT:
-            ((_, key), (_, value)) = self.pop(2) # pylint: disable=E0632
+            objs = [obj for (_, obj) in self.pop(2)]
+            if len(objs) < 2:
+                return
+            (key, value) = objs
             if (isinstance(key, int) and
                 isinstance(value, PSLiteral)):
                 self.add_results((key, literal_name(value)))
-- 
2.43.0


From fac9c136363c4e49bc4d38a7de611f456ec23766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 090/104] fix: malformed object streams and entry widths in
 cross-reference sections

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 37854b3..38165dd 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -8,7 +8,7 @@ from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
 from ..PDFParser import PDFStreamParser
 from ..PDFStream import PDFStream
-from ..PDFStream import dict_value, list_value
+from ..PDFStream import dict_value, int_value, list_value
 
 from .constants import LITERAL_OBJSTM, LITERAL_XREF
 
@@ -178,10 +178,11 @@ class PDFXRefFallback(PDFXRef):
                         objs.append(obj)
                 except PSEOF:
                     pass
-                n = min(n, len(objs)//2)
+                n = min(int_value(n), len(objs)//2)
                 for index in range(n):
                     objid1 = objs[index*2]
-                    self.offsets[objid1] = (objid, index, 0)
+                    if isinstance(objid1, int):
+                        self.offsets[objid1] = (objid, index, 0)
         return
 
 ##  PDFXRefStream
@@ -209,7 +210,7 @@ class PDFXRefStream(PDFBaseXRef):
         widths = list_value(stream.get('W'))
         if len(index_array) % 2 != 0 or not all(isinstance(x, int) and x >= 0 for x in index_array):
             raise PDFNoValidXRef('Invalid index number')
-        if len(widths) != 3 or not all(isinstance(x, int) and x >= 0 for x in widths):
+        if len(widths) != 3 or not all(isinstance(x, int) and x >= 0 for x in widths) or not any(widths):
             raise PDFNoValidXRef('Invalid field widths')
         self.ranges.extend(choplist(2, index_array))
         (self.fl1, self.fl2, self.fl3) = widths
-- 
2.43.0


From 2ef765023f8ab7cb01dadc2dd4041c56fbc45447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 091/104] fix: operands of a wrong type are errors of the
 operator

---
 pdfmajor/interpreter/commands/__init__.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 4a71030..816a146 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -33,14 +33,17 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
             if method in PDFCommands.commands.keys():
                 func = PDFCommands.commands.get(method)
                 nargs = func.__code__.co_argcount-1
-                if nargs:
-                    args = state.pop(nargs)
-                    if len(args) == nargs:
-                        func(state, *args)
+                try:
+                    if nargs:
+                        args = state.pop(nargs)
+                        if len(args) == nargs:
+                            func(state, *args)
+                        else:
+                            raise CommandProcessorError(f"Invalid Number of Args provided {method}")
                     else:
-                        raise CommandProcessorError(f"Invalid Number of Args provided {method}")
-                else:
-                    func(state)
+                        func(state)
+                except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError) as e:
+                    raise InvalidOperation(f"Invalid operand of {method}: {e!r}")
             else:
                 log.debug('Unknown operator: %r (i.e. %r)' % (name, method))
             # operands never outlive the operator that follows them
-- 
2.43.0


From f4d96b7964124ec93dc1283cfa67fed8a117c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 092/104] fix: stream filters with malformed data or parameters

---
 pdfmajor/parser/PDFStream/__init__.py |  3 ++-
 pdfmajor/parser/PDFStream/ccitt.py    |  8 +++++++-
 pdfmajor/utils/ascii85.py             | 10 ++++++++--
 pdfmajor/utils/generic.py             |  6 ++++--
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 69bb0fd..f357b07 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -76,9 +76,10 @@ class PDFStream(PDFObject):
         for fltr in filters:
             fltr = resolve1(fltr)
             if isinstance(fltr, list):
-                fltr = fltr[0]
+                fltr = fltr[0] if fltr else None
             _filters.append(fltr)
         params = [resolve1(p) for p in params]
+        params = [p if isinstance(p, dict) else None for p in params]
         params += [None] * (len(_filters) - len(params))
         return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index 3c71402..95b5a3e 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -12,7 +12,7 @@
 
 import sys
 import array
-from pdfmajor.execptions import EOFB, InvalidData, ByteSkip, PDFNotImplementedError
+from pdfmajor.execptions import EOFB, InvalidData, ByteSkip, PDFNotImplementedError, PDFValueError
 from abc import abstractmethod
 
 def get_bytes(data):
@@ -545,10 +545,16 @@ class CCITTFaxDecoder(CCITTG4Parser):
         return
 
 
+# more than any device has
+MAX_COLUMNS = 1 << 24
+
+
 def ccittfaxdecode(data, params):
     params = params or {}
     K = params.get('K')
     cols = params.get('Columns', 1728)
+    if not isinstance(cols, int) or not 0 < cols <= MAX_COLUMNS:
+        raise PDFValueError('Invalid number of columns: %r' % (cols,))
     bytealign = params.get('EncodedByteAlign')
     reversed = params.get('BlackIs1')
     if K == -1:
diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index 2037972..de6aa42 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -31,16 +31,22 @@ def ascii85decode(data):
             n += 1
             b = b*85+(ord(c)-33)
             if n == 5:
+                if b > 0xffffffff:
+                    # corrupt data
+                    break
                 out += struct.pack('>L', b)
                 n = b = 0
         elif c == b'z':
-            assert n == 0, str(n)
+            if n:
+                # corrupt data
+                break
             out += b'\0\0\0\0'
         elif c == b'~':
             if n:
                 for _ in range(5-n):
                     b = b*85+84
-                out += struct.pack('>L', b)[:n-1]
+                if b <= 0xffffffff:
+                    out += struct.pack('>L', b)[:n-1]
             break
     return out
 
diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index fa8cda0..77e0411 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -1,7 +1,7 @@
 import struct
 import chardet  
 
-from pdfmajor.execptions import PDFNotImplementedError
+from pdfmajor.execptions import PDFNotImplementedError, PDFValueError
 
 # from sys import maxint as INF #doesn't work anymore under Python3,
 # but PDF still uses 32 bits ints
@@ -28,11 +28,13 @@ def compatible_encode_method(bytesorstring, encoding='utf-8', erraction='ignore'
 ##  PNG Predictor
 ##
 def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
+    if min(colors, columns, bitspercomponent) < 1:
+        raise PDFValueError("Invalid predictor parameters: %r" % ((colors, columns, bitspercomponent),))
     nbytes = (colors * columns * bitspercomponent + 7) // 8
     i = 0
     buf = b''
     bpp = max(1, colors * bitspercomponent // 8)
-    line0 = b'\x00' * nbytes
+    line0 = b'\x00' * min(nbytes, len(data))
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
-- 
2.43.0


From 6be613c12d46c9c6ff4a1c773c027b824e8b7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 093/104] fix: names of character maps cannot lead out of their
 directories

---
 pdfmajor/parser/cmapdb/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 28ecc09..324cfa4 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -227,6 +227,9 @@ class CMapDB(object):
     @classmethod
     def _load_data(klass, name):
         name = name.replace("\0", "")
+        if os.path.basename(name) != name:
+            # names come from documents: stay in the directories of the maps
+            raise CMapNotFound(name)
         filename = '%s.pickle.gz' % name
         log.info('loading: %r', name)
         cmap_paths = (os.environ.get('CMAP_PATH', '/usr/share/pdfminer/'),
-- 
2.43.0


From f6f4348846b67d2e4d2615129f09cbce3d23be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 094/104] fix: Type 0 fonts whose encoding is a reference, a
 stream or not a name

---
 .../commands/state/PDFTextState/PDFFont/fonts.py            | 6 +++++-
 pdfmajor/parser/cmapdb/__init__.py                          | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 3042c58..00269e3 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -93,7 +93,11 @@ class PDFCIDFont(PDFFont):
         self.cidcoding = '%s-%s' % (resolve1(self.cidsysteminfo.get('Registry', b'unknown')).decode("latin1"),
                                     resolve1(self.cidsysteminfo.get('Ordering', b'unknown')).decode("latin1"))
         try:
-            name = literal_name(spec['Encoding'])
+            encoding = resolve1(spec['Encoding'])
+            if isinstance(encoding, PDFStream):
+                # embedded: the name of the map it defines
+                encoding = resolve1(encoding.get_any(('CMapName',)))
+            name = literal_name(encoding)
         except KeyError:
             if strict:
                 raise FontError('Encoding is unspecified')
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 324cfa4..b6d9295 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -247,6 +247,8 @@ class CMapDB(object):
 
     @classmethod
     def get_cmap(klass, name):
+        if not isinstance(name, str):
+            raise CMapNotFound(name)
         if name == 'Identity-H':
             return IdentityCMap(WMode=0)
         elif name == 'Identity-V':
-- 
2.43.0


From e60fd722d7051267c6e9b9ac4f0aaf4f11596008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 095/104] fix: outlines with loops or very many entries on a
 level

---
 pdfmajor/parser/PDFDocument/__init__.py | 35 +++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 86579ef..7ee32e3 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -23,6 +23,7 @@ from ..PSStackParser import KWD
 from ..PSStackParser import literal_name
 from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all
 from ..PDFParser import PDFStreamParser, PDFStream
+from ..PDFStream.PDFObjRef import PDFObjRef
 
 from .PDFSecurityHandler import PDFStandardSecurityHandler
 from .PDFSecurityHandler import PDFStandardSecurityHandlerV4
@@ -241,21 +242,27 @@ class PDFDocument(object):
         if 'Outlines' not in self.catalog:
             raise PDFNoOutlines
 
+        visited = set()
+
         def search(entry, level):
-            entry = dict_value(entry)
-            if 'Title' in entry:
-                if 'A' in entry or 'Dest' in entry:
-                    title = decode_text(str_value(entry['Title']))
-                    dest = entry.get('Dest')
-                    action = entry.get('A')
-                    se = entry.get('SE')
-                    yield (level, title, dest, action, se)
-            if 'First' in entry and 'Last' in entry:
-                for x in search(entry['First'], level+1):
-                    yield x
-            if 'Next' in entry:
-                for x in search(entry['Next'], level):
-                    yield x
+            while entry is not None:
+                if isinstance(entry, PDFObjRef):
+                    if entry.objid in visited:
+                        # the entries form a loop
+                        return
+                    visited.add(entry.objid)
+                entry = dict_value(entry)
+                if 'Title' in entry:
+                    if 'A' in entry or 'Dest' in entry:
+                        title = decode_text(str_value(entry['Title']))
+                        dest = entry.get('Dest')
+                        action = entry.get('A')
+                        se = entry.get('SE')
+                        yield (level, title, dest, action, se)
+                if 'First' in entry and 'Last' in entry:
+                    for x in search(entry['First'], level+1):
+                        yield x
+                entry = entry.get('Next')
             return
         return search(self.catalog['Outlines'], 0)
 
-- 
2.43.0


From 0ba9e84660319fb2b5d5ddcb0c6d3ce51d97e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 096/104] fix: names outside the limits of the root, after
 another leaf or with empty values are looked up

---
 pdfmajor/parser/PDFDocument/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 7ee32e3..9cdd8c8 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -276,18 +276,19 @@ class PDFDocument(object):
 
         def lookup(d):
             if 'Limits' in d:
-                (k1, k2) = list_value(d['Limits'])
-                if key < k1 or k2 < key:
-                    return None
+                (k1, k2) = map(str_value, list_value(d['Limits']))
+                if not isinstance(key, bytes) or key < k1 or k2 < key:
+                    raise KeyError((cat, key))
             if 'Names' in d:
                 objs = list_value(d['Names'])
                 names = dict(choplist(2, objs))
                 return names[key]
             if 'Kids' in d:
                 for c in list_value(d['Kids']):
-                    v = lookup(dict_value(c))
-                    if v:
-                        return v
+                    try:
+                        return lookup(dict_value(c))
+                    except KeyError:
+                        pass
             raise KeyError((cat, key))
         return lookup(d0)
 
-- 
2.43.0


From 968fe53bc1fe827b018205a4d34a45ec4bd4e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 097/104] fix: embedded Type 1 fonts with the standard encoding
 keep it

---
 .../commands/state/PDFTextState/PDFFont/fonts.py         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 00269e3..d0c4964 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -39,10 +39,11 @@ class PDFType1Font(PDFSimpleFont):
         if 'Encoding' not in spec and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
             self.fontfile = PDFStream.validated_stream(descriptor.get('FontFile'))
-            length1 = int_value(self.fontfile['Length1'])
-            data = self.fontfile.get_data()[:length1]
-            parser = Type1FontHeaderParser(BytesIO(data))
-            self.cid2unicode = parser.get_encoding()
+            data = self.fontfile.get_data()
+            length1 = int_value(self.fontfile.get('Length1', len(data)))
+            parser = Type1FontHeaderParser(BytesIO(data[:length1]))
+            # a font without an encoding of its own has the standard one
+            self.cid2unicode = parser.get_encoding() or self.cid2unicode
         return
 
     def __repr__(self):
-- 
2.43.0


From df37f7bb1a655f0c68384903fa8ba8f30590f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 098/104] fix: character maps of embedded TrueType fonts are
 found and read

---
 .../PDFTextState/PDFFont/TrueTypeFont.py      | 116 ++++++++++--------
 1 file changed, 67 insertions(+), 49 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 55548a9..de6e0ed 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -23,64 +23,82 @@ class TrueTypeFont(object):
         return
 
     def create_unicode_map(self):
-        if 'cmap' not in self.tables:
+        if b'cmap' not in self.tables:
             raise CMapNotFound
-        (base_offset, _) = self.tables['cmap']
+        (base_offset, _) = self.tables[b'cmap']
         fp = self.fp
         fp.seek(base_offset)
-        (_, nsubtables) = struct.unpack('>HH', fp.read(4))
         subtables = []
-        for i in range(nsubtables):
-            subtables.append(struct.unpack('>HHL', fp.read(8)))
+        try:
+            (_, nsubtables) = struct.unpack('>HH', fp.read(4))
+            for i in range(nsubtables):
+                subtables.append(struct.unpack('>HHL', fp.read(8)))
+        except struct.error:
+            # truncated: use the subtables that are there
+            pass
         char2gid = {}
-        # Only supports subtable type 0, 2 and 4.
         for (_1, _2, st_offset) in subtables:
             fp.seek(base_offset+st_offset)
-            (fmttype, _, _) = struct.unpack('>HHH', fp.read(6))
-            if fmttype == 0:
-                char2gid.update(enumerate(struct.unpack('>256B', fp.read(256))))
-            elif fmttype == 2:
-                subheaderkeys = struct.unpack('>256H', fp.read(512))
-                firstbytes = [0]*8192
-                for (i, k) in enumerate(subheaderkeys):
-                    firstbytes[k//8] = i
-                nhdrs = max(subheaderkeys)//8 + 1
-                hdrs = []
-                for i in range(nhdrs):
-                    (firstcode, entcount, delta, offset) = struct.unpack('>HHhH', fp.read(8))
-                    hdrs.append((i, firstcode, entcount, delta, fp.tell()-2+offset))
-                for (i, firstcode, entcount, delta, pos) in hdrs:
-                    if not entcount:
-                        continue
-                    first = firstcode + (firstbytes[i] << 8)
-                    fp.seek(pos)
-                    for c in range(entcount):
-                        gid = struct.unpack('>H', fp.read(2))
-                        if gid:
-                            gid += delta
-                        char2gid[first+c] = gid
-            elif fmttype == 4:
-                (segcount, _1, _2, _3) = struct.unpack('>HHHH', fp.read(8))
-                segcount //= 2
-                ecs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
-                fp.read(2)
-                scs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
-                idds = struct.unpack('>%dh' % segcount, fp.read(2*segcount))
-                pos = fp.tell()
-                idrs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
-                for (ec, sc, idd, idr) in zip(ecs, scs, idds, idrs):
-                    if idr:
-                        fp.seek(pos+idr)
-                        for c in range(sc, ec+1):
-                            char2gid[c] = (struct.unpack('>H', fp.read(2))[0] + idd) & 0xffff
-                    else:
-                        for c in range(sc, ec+1):
-                            char2gid[c] = (c + idd) & 0xffff
-            else:
-                assert False, str(('Unhandled', fmttype))
+            try:
+                self._read_subtable(char2gid)
+            except struct.error:
+                # truncated: keep the characters that are there
+                pass
         # create unicode map
         unicode_map = FileUnicodeMap()
         for (char, gid) in char2gid.items():
-            unicode_map.add_cid2unichr(gid, char)
+            # glyph 0 stands for characters the font does not have
+            if gid:
+                unicode_map.add_cid2unichr(gid, char)
         return unicode_map
 
+    def _read_subtable(self, char2gid):
+        # Only supports subtable type 0, 2 and 4.
+        fp = self.fp
+        (fmttype, _, _) = struct.unpack('>HHH', fp.read(6))
+        if fmttype == 0:
+            char2gid.update(enumerate(struct.unpack('>256B', fp.read(256))))
+        elif fmttype == 2:
+            subheaderkeys = struct.unpack('>256H', fp.read(512))
+            firstbytes = [0]*8192
+            for (i, k) in enumerate(subheaderkeys):
+                firstbytes[k//8] = i
+            # the first one is for codes of a single byte
+            firstbytes[0] = 0
+            nhdrs = max(subheaderkeys)//8 + 1
+            hdrs = []
+            for i in range(nhdrs):
+                (firstcode, entcount, delta, offset) = struct.unpack('>HHhH', fp.read(8))
+                hdrs.append((i, firstcode, entcount, delta, fp.tell()-2+offset))
+            for (i, firstcode, entcount, delta, pos) in hdrs:
+                if not entcount:
+                    continue
+                first = firstcode + (firstbytes[i] << 8)
+                fp.seek(pos)
+                for c in range(entcount):
+                    (gid,) = struct.unpack('>H', fp.read(2))
+                    if gid:
+                        gid = (gid + delta) & 0xffff
+                    char2gid[first+c] = gid
+        elif fmttype == 4:
+            (segcount, _1, _2, _3) = struct.unpack('>HHHH', fp.read(8))
+            segcount //= 2
+            ecs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
+            fp.read(2)
+            scs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
+            idds = struct.unpack('>%dh' % segcount, fp.read(2*segcount))
+            pos = fp.tell()
+            idrs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
+            for (i, (ec, sc, idd, idr)) in enumerate(zip(ecs, scs, idds, idrs)):
+                if idr:
+                    # relative to the place of the offset itself
+                    fp.seek(pos+2*i+idr)
+                    for c in range(sc, ec+1):
+                        (gid,) = struct.unpack('>H', fp.read(2))
+                        if gid:
+                            gid = (gid + idd) & 0xffff
+                        char2gid[c] = gid
+                else:
+                    for c in range(sc, ec+1):
+                        char2gid[c] = (c + idd) & 0xffff
+
-- 
2.43.0


From e6fc17dc92a719b43f3d1d588ddfe450243ef499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 099/104] fix: the spatial index finds objects at negative
 coordinates, with empty boxes and after repeated insertions

---
 pdfmajor/utils/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 77e0411..39a0a35 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -103,8 +103,7 @@ def csort(objs, key):
 # drange
 def drange(v0, v1, d):
     """Returns a discrete range."""
-    assert v0 < v1, str((v0, v1, d))
-    return range(int(v0)//d, int(v1+d)//d)
+    return range(int(v0//d), int(v1//d)+1)
 
 # pick
 def pick(seq, func, maxobj=None):
@@ -186,6 +185,8 @@ class Plane(object):
 
     # add(obj): place an object.
     def add(self, obj):
+        if obj in self._objs:
+            return
         for k in self._getrange((obj.x0, obj.y0, obj.x1, obj.y1)):
             if k not in self._grid:
                 r = []
@@ -205,6 +206,7 @@ class Plane(object):
             except (KeyError, ValueError):
                 pass
         self._objs.remove(obj)
+        self._seq.remove(obj)
         return
 
     # find(): finds objects that are in a certain area.
-- 
2.43.0


From d2cbb6758eab477ffed38f45ed1e22c6cf5e8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 100/104] fix: the default of a string value is bytes

---
 pdfmajor/parser/PDFStream/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index 025e797..c0bf281 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -82,7 +82,7 @@ def str_value(x):
     if not isinstance(x, bytes):
         if settings.STRICT:
             raise PDFTypeError('String required: %r' % x)
-        return ''
+        return b''
     return x
 
 
-- 
2.43.0


From bbb715e7b50c26228390288ea7911e68fc058bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:39 +0000
Subject: [PATCH 101/104] fix: the path of a shape is in page coordinates, like
 its box

---
 .../commands/state/layout/__init__.py         | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index f5d8fb0..4b1c12d 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -1,7 +1,7 @@
 from typing import List
 from pdfmajor.utils import apply_matrix_pt, INF, Bbox, Point, MATRIX_IDENTITY, mult_matrix
 
-from ..Curves import CurvePath
+from ..Curves import CurvePath, CurvePoint
 from ..PDFGraphicState import PDFGraphicState, PDFColor
 from ..PDFTextState import PDFTextState
 
@@ -24,6 +24,13 @@ def make_char_block(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
 
 def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[CurvePath]):
     shape = ''.join(x.method.value for x in paths)
+    page_paths = [
+        CurvePath(path.method, *(
+            CurvePoint(ctm, *apply_matrix_pt(ctm, (pt.x, pt.y)))
+            for pt in path.points
+        ))
+        for path in paths
+    ]
     if shape == 'ml':
         # horizontal/vertical line
         pt0 = paths[0].points[0]
@@ -33,7 +40,7 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         if x0 == x1:
             return LTVerticalLine(
                 linewidth=gstate.linewidth, 
-                paths=paths,
+                paths=page_paths,
                 bbox=Bbox( x0, y0, x1, y1 ),
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor, 
@@ -42,7 +49,7 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         elif y0 == y1:
             return LTHorizontalLine(
                 linewidth=gstate.linewidth, 
-                paths=paths,
+                paths=page_paths,
                 bbox=Bbox( x0, y0, x1, y1 ),
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor, 
@@ -51,7 +58,7 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         else:
             return LTLine(
                 linewidth=gstate.linewidth, 
-                paths=paths,
+                paths=page_paths,
                 bbox=Bbox( x0, y0, x1, y1 ),
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor, 
@@ -71,7 +78,7 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
             (y0 == y1 and x1 == x2 and y2 == y3 and x3 == x0)):
             return LTRect( 
                 linewidth=gstate.linewidth, 
-                paths=paths,
+                paths=page_paths,
                 bbox=Bbox(
                     x0=min(x0,x1,x2,x3),
                     x1=max(x0,x1,x2,x3),
@@ -89,7 +96,7 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
     ])
     return LTCurve(
         linewidth=gstate.linewidth, 
-        paths=paths,
+        paths=page_paths,
         bbox=bbox, 
         evenodd=evenodd,
         stroke=gstate.scolor, 
-- 
2.43.0


From 09cbfaa0378cb3590dd5365620738a13a4d1efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:39 +0000
Subject: [PATCH 102/104] fix: HTML draws the curve segments that have one
 control point

---
 pdfmajor/converters/html.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 1fde686..3c1e0a7 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -202,16 +202,28 @@ def create_svg_path(item: LTCurve):
     def pY(val: float) -> float:
         return ( item.height- (val-item.y0) )*dy
 
+    start = last = None
     for p in item.paths:
+        points = p.points
+        if p.method == CurvePath.METHOD.CLOSE_PATH:
+            path += 'Z'
+            last = start
+            continue
         if p.method == CurvePath.METHOD.MOVE_TO:
-            path += f'M{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
+            path += 'M'
+            start = points[-1]
         elif p.method == CurvePath.METHOD.LINE_TO:
-            path += f'L{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
-        elif p.method == CurvePath.METHOD.CLOSE_PATH:
-            path += 'Z'
-        elif p.method == CurvePath.METHOD.CURVE_BOTH_TO:
-            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points )} '
-    
+            path += 'L'
+        else:
+            # both control points are written out
+            if p.method == CurvePath.METHOD.CURVE_NEXT_TO:
+                points = (last or points[0], *points)
+            elif p.method == CurvePath.METHOD.CURVE_FIRST_TO:
+                points = (*points, points[-1])
+            path += 'C'
+        path += f'{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
+        last = points[-1]
+
     return path, svg_attr
 
 # def render_textblock(html: HTMLMaker, ltpage: PageInterpreter, item: LTTextBlock):
-- 
2.43.0


From 9c1062015093381f3f963c9ee57d7f6932066c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:59 +0000
Subject: [PATCH 103/104] fix: a conversion does not replace its input by its
 output

---
 pdfmajor/converters/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/converters/__init__.py b/pdfmajor/converters/__init__.py
index f5ac0ef..6fa7b0b 100644
--- a/pdfmajor/converters/__init__.py
+++ b/pdfmajor/converters/__init__.py
@@ -36,6 +36,8 @@ def convert_file(
         )
     if re.search(re.escape(out_type) + r'$', output_file ) is None:
         raise ConverterException("Please make sure that the file name and output type match!")
+    if os.path.realpath(output_file) == os.path.realpath(input_file):
+        raise ConverterException("Please make sure that the output does not replace the input file!")
     if out_type == 'html':
         return convert_to_html(
             input_file_path=input_file, 
-- 
2.43.0


From ef4edc46ed73d2d61c5218ac3381dffe96d8d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 104/104] fix: the output is one text of the codec

---
 pdfmajor/converters/text.py         | 8 ++++----
 pdfmajor/converters/writers/html.py | 5 ++---
 pdfmajor/converters/writers/json.py | 7 ++-----
 pdfmajor/converters/writers/xml.py  | 5 ++---
 pdfmajor/converters/writers/yaml.py | 6 +++---
 5 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/pdfmajor/converters/text.py b/pdfmajor/converters/text.py
index 0da8a3c..8f5bfbc 100644
--- a/pdfmajor/converters/text.py
+++ b/pdfmajor/converters/text.py
@@ -27,16 +27,16 @@ def convert_to_text(
         pagenos=pagenos,
         debug_level=debug_level
     )
-    with open(output_file_path, 'wb') as outfp:
+    with open(output_file_path, 'w', encoding=codec, newline='') as outfp:
         def process_container(container: LTXObject):
             for item in container:
                 if isinstance(item, LTTextBlock):
                     for text in item:
                         for char in text:
-                            outfp.write(char.get_text().encode(codec))
+                            outfp.write(char.get_text())
                 elif isinstance(item, LTXObject):
                     process_container(item)
         for page in intepreter:
-            outfp.write(f"========== [ page {page.page_num} ] ==========\n".encode(codec))
+            outfp.write(f"========== [ page {page.page_num} ] ==========\n")
             process_container(page)
-            outfp.write('\n'.encode(codec))
+            outfp.write('\n')
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index e1f7f25..67db090 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -16,7 +16,8 @@ class HTMLMaker:
         self.outfile: Optional[TextIOWrapper] = None
     
     def __enter__(self):
-        self.outfile = open(self.file_path, 'wb')
+        # one encoder for the whole file: some codecs start with a mark
+        self.outfile = open(self.file_path, 'w', encoding=self.codec or 'utf-8', errors='xmlcharrefreplace', newline='')
         self.__levels_deep = 0
         return self
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -25,8 +26,6 @@ class HTMLMaker:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index f6ff708..90eff9e 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -23,7 +23,8 @@ def finite_numbers(obj):
 
 @contextmanager
 def JSONMaker(file_path: str, codec: str = 'utf-8'):
-    with open(file_path, 'wb') as outf:
+    # one encoder for the whole file: some codecs start with a mark
+    with open(file_path, 'w', encoding=codec or 'utf-8', newline='') as outf:
         with JSONMakerObject(outf, codec=codec) as obj:
             yield obj
 
@@ -45,8 +46,6 @@ class JSONMakerObject:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -104,8 +103,6 @@ class JSONMakerArray:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index b2fc07f..5e937f1 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -26,7 +26,8 @@ class XMLMaker:
         self.codec = codec
         self.outfile: TextIOWrapper = None
     def __enter__(self):
-        self.outfile = open(self.file_path, 'wb')
+        # one encoder for the whole file: some codecs start with a mark
+        self.outfile = open(self.file_path, 'w', encoding=self.codec or 'utf-8', errors='xmlcharrefreplace', newline='')
         if self.codec:
             self.write_raw(f'<?xml version="1.0" encoding="{self.codec}" ?>')
         else:
@@ -39,8 +40,6 @@ class XMLMaker:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6c52cc1..47c3a9f 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -41,7 +41,9 @@ def yaml_item(value) -> str:
 
 @contextmanager
 def YAMLMaker(file_path: str, codec: str = 'utf-8'):
-    with open(file_path, 'wb') as outf:
+    # one encoder for the whole file: some codecs start with a mark;
+    # only quoted texts have characters that a codec may not have
+    with open(file_path, 'w', encoding=codec or 'utf-8', errors='backslashreplace', newline='') as outf:
         with YAMLMakerObject(outf, codec=codec) as obj:
             yield obj
 
@@ -62,8 +64,6 @@ class YAMLMakerWriter:
     
     def __write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
-- 
2.43.0

