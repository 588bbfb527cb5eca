From f7292d592d6bccb16444fb585c68ec3376842c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 01/79] fix: keep the generation number of parsed indirect
 references

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..1f7a617 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -179,7 +179,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
-- 
2.43.0


From 22a3a9a27f35c155ad27d98604295e86fa2d9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:28 +0000
Subject: [PATCH 02/79] fix: an escaped backslash does not escape the end of a
 literal string

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 1f7a617..f4e3b9a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -120,7 +120,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if single == b'\\':
                 i += 1
             elif single == b'(':
                 nested += 1
-- 
2.43.0


From f013f4b4c24c9e3ecc14090492dea5919778773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:27 +0000
Subject: [PATCH 03/79] fix: delimiters inside strings and comments do not open
 or close arrays and dictionaries

---
 pdfsyntax/docstruct.py |  2 +-
 pdfsyntax/graphics.py  |  2 +-
 pdfsyntax/objects.py   | 21 +++++++++++++--------
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..b285dcb 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -943,7 +943,7 @@ def prepare_font(doc: Doc, iref) -> dict:
         simple = True
     if font_desc['to_unicode']:
         cmap_stream = get_object(doc, font_desc['to_unicode'])
-        cmap = parse_obj(b'[' + cmap_stream['stream'] + b']')
+        cmap = parse_obj(b'[' + cmap_stream['stream'] + b'\n]')
         def dec_unicode_cmap(text):
             return apply_tounicode(cmap, text, simple)
         font_desc['dec_fun'] = dec_unicode_cmap
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..2462ae5 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -111,7 +111,7 @@ def parse_stream_content(content_stream: bytes) -> list:
     A command is a list made of operands followed by an operator, like [1, 0, 0, 1, 0, 0, 'cm']
     """
     ret = []
-    tokens = parse_obj(b'[' + content_stream + b']')
+    tokens = parse_obj(b'[' + content_stream + b'\n]')
     i = len(tokens) - 1
     section = None
     current = []
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index f4e3b9a..bff9170 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -67,7 +67,6 @@ def next_token(text: bytes, i=0) -> tuple:
     """Find next token in raw string starting at some index."""
     search = "TBD"
     nested = 1
-    text_in_array = 0
     h = i
     while i < len(text):
         single = text[i:i+1]
@@ -102,8 +101,13 @@ def next_token(text: bytes, i=0) -> tuple:
             elif single == b'%':
                 search = "COMMENT"
             h = i
+            if search == "DICT":
+                i += 1
         elif search == "DICT":
-            if double == b'<<':
+            if single in b'(%' or (single == b'<' and double != b'<<'): #skip string or comment
+                _, j, _ = next_token(text, i)
+                i = j - 1
+            elif double == b'<<':
                 nested += 1
                 i += 1
             elif double == b'>>':
@@ -158,13 +162,14 @@ def next_token(text: bytes, i=0) -> tuple:
             elif  text[i:i+9] == b'endstream':
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
-            if single == b'(':
-                text_in_array = 1
-            elif single == b')':
-                text_in_array = 0
-            elif text_in_array == 0 and single == b'[':
+            if single in b'(%' or (single == b'<' and double != b'<<'): #skip string or comment
+                _, j, _ = next_token(text, i)
+                i = j - 1
+            elif double == b'<<':
+                i += 1
+            elif single == b'[':
                 nested += 1
-            elif text_in_array == 0 and single == b']':
+            elif single == b']':
                 nested -= 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
-- 
2.43.0


From 17aa8d30440b0f32c9be59dda598bd811acda814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:29 +0000
Subject: [PATCH 04/79] fix: parse_obj accepts white space before an array or a
 dictionary

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index bff9170..70ff0ea 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -224,7 +224,7 @@ def parse_obj(text: bytes, start=0) -> Any:
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
 
-        i = start + 2
+        i = h1 + 2
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
@@ -249,7 +249,7 @@ def parse_obj(text: bytes, start=0) -> Any:
         return res
     elif t1 == 'ARRAY':
         res = []
-        i = start + 1
+        i = h1 + 1
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
-- 
2.43.0


From 73d35d20ab9da6f8daeffb9998a91df418ed661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:18 +0000
Subject: [PATCH 05/79] fix: skip comments between the tokens of an indirect
 object and before any object

---
 pdfsyntax/docstruct.py | 26 +++++++++++++-------------
 pdfsyntax/objects.py   | 32 ++++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b285dcb..4b8f462 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -238,13 +238,13 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         for index in indexes:
             bdata, a0, _, _ = fdata(index['abs_pos'],
                                     index['abs_next'] - index['abs_pos'])
-            i, j, _ = next_token(bdata, a0)
+            i, j, _ = next_token_no_comment(bdata, a0)
             if bdata[i:j] == b'trailer':
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_token_no_comment(bdata, j)
             else:
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_token_no_comment(bdata, j)
+                i, j, _ = next_token_no_comment(bdata, j)
+                i, j, _ = next_token_no_comment(bdata, j)
             text = bdata
             i_obj = parse_obj(text, i)
             if type(i_obj) == Stream:
@@ -254,10 +254,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     elif 'env_num' not in idx[rev][key]:
         bdata, a0, _, _ = fdata(idx[rev][key]['abs_pos'],
                                 idx[rev][key]['abs_next'] - idx[rev][key]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
+        i, j, _ = next_token_no_comment(bdata, a0)
+        i, j, _ = next_token_no_comment(bdata, j)
+        i, j, _ = next_token_no_comment(bdata, j)
+        i, j, _ = next_token_no_comment(bdata, j)
         text = bdata
         obj = parse_obj(text, i)
         if key == 0 and type(obj) == Stream:
@@ -267,10 +267,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         container = idx[rev][key]['env_num']
         bdata, a0, _, _ = fdata(idx[rev][container]['abs_pos'],
                                 idx[rev][container]['abs_next'] - idx[rev][container]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j) #/ObjStm
+        i, j, _ = next_token_no_comment(bdata, a0)
+        i, j, _ = next_token_no_comment(bdata, j)
+        i, j, _ = next_token_no_comment(bdata, j)
+        i, j, _ = next_token_no_comment(bdata, j) #/ObjStm
         text = bdata
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 70ff0ea..83eb3c2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -177,6 +177,14 @@ def next_token(text: bytes, i=0) -> tuple:
     return (h, i, None)
 
 
+def next_token_no_comment(text: bytes, i=0) -> tuple:
+    """Find next token that is not a comment."""
+    h, j, t = next_token(text, i)
+    while t == 'COMMENT':
+        h, j, t = next_token(text, j)
+    return (h, j, t)
+
+
 def replace_ref(tokens: list) -> list:
     """Replace a sublist of X, Y, 'R' into a unique R namedtuple."""
     size = len(tokens)
@@ -211,11 +219,15 @@ def dedicated_type(text: bytes, type: str) -> Any:
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
+    if t1 == 'COMMENT':
+        h, j, t = next_token_no_comment(text, j1)
+        if t:
+            h1, j1, t1 = h, j, t
     obj = text[h1:j1]
     if t1 == 'DICT':
         res = {}
         res_array = []
-        h2, j2, t2 = next_token(text, j1)
+        h2, j2, t2 = next_token_no_comment(text, j1)
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
@@ -295,16 +307,16 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     """Recursively parse indirect object starting at X Y R."""
     bl, el = next_line(text, start)
     bo = bl
-    i1, j1, _ = next_token(text, start) #o_num
-    i2, j2, _ = next_token(text, j1) #o_gen
+    i1, j1, _ = next_token_no_comment(text, start) #o_num
+    i2, j2, _ = next_token_no_comment(text, j1) #o_gen
     o_num = int(text[i1:j1])
     o_gen = int(text[i2:j2])
-    i, j, _ = next_token(text, j2) #obj
-    i, j, _ = next_token(text, j) #object1
+    i, j, _ = next_token_no_comment(text, j2) #obj
+    i, j, _ = next_token_no_comment(text, j) #object1
     o = parse_obj(text, i)
-    i, j, t = next_token(text, j)
+    i, j, t = next_token_no_comment(text, j)
     if t == 'STREAM':
-        _, j, _ = next_token(text, j) #endobj
+        _, j, _ = next_token_no_comment(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
 
@@ -430,9 +442,9 @@ def parse_region(text: bytes, start=0) -> tuple:
         i2, j2, _ = next_token(text, j1)
         return (bl, j2, 'STARTXREF', text[i2:j2])
     elif typ == 'INTEGER':
-        i1, j1, _ = next_token(text, bl)
-        i2, j2, _ = next_token(text, j1)
-        i3, j3, t = next_token(text, j2)
+        i1, j1, _ = next_token_no_comment(text, bl)
+        i2, j2, _ = next_token_no_comment(text, j1)
+        i3, j3, t = next_token_no_comment(text, j2)
         if t == 'KEYWORD' and text[i3:j3] == OBJ:
             ind_o = parse_indirect_obj(text, bl)
             return ind_o
-- 
2.43.0


From 1f3ab44fdd33afb7d9c9ebb9063f14eef9aec65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:53 +0000
Subject: [PATCH 06/79] fix: serialize real numbers without exponent

---
 pdfsyntax/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 83eb3c2..eeea707 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -3,6 +3,7 @@
 from typing import Any
 from collections import namedtuple
 from dataclasses import dataclass
+from decimal import Decimal
 from .filters import *
 #from .filestruct import expand_xref_index
 
@@ -465,7 +466,8 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        s = f'{Decimal(str(obj)):f}' #no exponent in PDF
+        return (s if '.' in s else s + '.0').encode('ascii')
     elif type(obj) == str:
         return obj.encode('ascii')
     elif type(obj) == complex:
-- 
2.43.0


From 46deae3a4efd28b0263622ea2e15a3c5cafd104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:17 +0000
Subject: [PATCH 07/79] fix: serialize streams whose content is empty

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index eeea707..9838b1b 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -499,7 +499,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From 784c4ead6270fa7ff9263c8e00584cfef8d3ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:38 +0000
Subject: [PATCH 08/79] fix: write the exact /Length of streams, even if it was
 missing or indirect

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 9838b1b..109abe0 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -34,7 +34,7 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
+    length = len(encoded)
     if '/Length' in entries and type(entries['/Length']) == int:
         entries['/Length'] = length
     return length
@@ -486,7 +486,7 @@ def serialize(obj, depth=0) -> bytes:
     if type(obj) == dict or type(obj) == Stream:
         if type(obj) == Stream:
             content = obj['encoded']
-            obj = obj['entries']
+            obj = {**obj['entries'], '/Length': len(content)}
         ret += b'<< '
         keys = list(obj.keys())
         for i in keys:
-- 
2.43.0


From 97e05862d0dcd3d5091b8d23f495c363f2e0c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:41 +0000
Subject: [PATCH 09/79] fix: forge_stream leaves the given entries alone

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 109abe0..7fb4f12 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -43,7 +43,7 @@ def update_internal_stream_length(stream: Stream):
 def forge_stream(entries: dict, content: bytes) -> tuple:
     """Encode stream and calculate its length."""
     encoded = encode_stream(content, entries)
-    envelope = Stream(entries, content, encoded)
+    envelope = Stream(entries.copy(), content, encoded)
     length = update_internal_stream_length(envelope)
     return envelope, length
 
-- 
2.43.0


From 4d65ce9c15de693c8f8c70c2b96cbc8f509ef6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:44 +0000
Subject: [PATCH 10/79] fix: read streams according to their /Length

---
 pdfsyntax/docstruct.py | 10 ++++++++--
 pdfsyntax/objects.py   | 32 +++++++++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4b8f462..b1cf2fd 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -228,6 +228,12 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         return cache
     if  cache[key] != None:
         return cache
+    def resolve(iref):
+        num = int(iref.imag)
+        if num == key or num >= len(idx[rev]) or not idx[rev][num]:
+            return None
+        res = memoize_obj_in_cache(idx, fdata, num, cache, rev)
+        return res[num]
     if key == 0:
         index = idx[rev][key]
         if type(index) != list:
@@ -259,7 +265,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         i, j, _ = next_token_no_comment(bdata, j)
         i, j, _ = next_token_no_comment(bdata, j)
         text = bdata
-        obj = parse_obj(text, i)
+        obj = parse_obj(text, i, resolve)
         if key == 0 and type(obj) == Stream:
             obj = obj['entries']
         cache[key] = obj    
@@ -272,7 +278,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         i, j, _ = next_token_no_comment(bdata, j)
         i, j, _ = next_token_no_comment(bdata, j) #/ObjStm
         text = bdata
-        stream_obj = parse_obj(text, i)
+        stream_obj = parse_obj(text, i, resolve)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
         cache[container] = stream_obj
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 7fb4f12..d2e76d3 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -217,8 +217,24 @@ def dedicated_type(text: bytes, type: str) -> Any:
         return text
 
 
-def parse_obj(text: bytes, start=0) -> Any:
-    """Recursively parse bytes into PDF objects."""
+def stream_payload(text: bytes, start: int, length: int) -> tuple:
+    """Return content and end position of a stream whose length leads to endstream (None otherwise)."""
+    if type(length) != int or length < 0:
+        return None
+    i = start + len(b'stream')
+    i += 2 if text[i:i+2] == b'\r\n' else 1
+    for eol in [b'\r\n', b'\n', b'\r', b'']:
+        end = eol + b'endstream'
+        if text[i+length:i+length+len(end)] == end:
+            return text[i:i+length], i + length + len(end)
+    return None
+
+
+def parse_obj(text: bytes, start=0, resolve=None) -> Any:
+    """Recursively parse bytes into PDF objects.
+
+    resolve is an optional function that gives the target of an indirect /Length.
+    """
     h1, j1, t1 = next_token(text, start)
     if t1 == 'COMMENT':
         h, j, t = next_token_no_comment(text, j1)
@@ -232,7 +248,14 @@ def parse_obj(text: bytes, start=0) -> Any:
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
-            stream_encoded =  parse_obj(following_obj)
+            length = stream_def.get('/Length')
+            if resolve and type(length) == complex:
+                length = resolve(length)
+            payload = stream_payload(text, h2, length)
+            if payload:
+                stream_encoded, _ = payload
+            else:
+                stream_encoded =  parse_obj(following_obj)
             stream_content = decode_stream(stream_encoded, stream_def)
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
@@ -317,6 +340,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     o = parse_obj(text, i)
     i, j, t = next_token_no_comment(text, j)
     if t == 'STREAM':
+        payload = stream_payload(text, i, o['entries'].get('/Length'))
+        if payload:
+            _, j = payload
         _, j, _ = next_token_no_comment(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
-- 
2.43.0


From 069b68696e031a0644378b197c3d3c155d793624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:55 +0000
Subject: [PATCH 11/79] fix: cross-reference table entries are exactly 20 bytes
 long

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..738b827 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -408,10 +408,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
-- 
2.43.0


From d3987b6eb6e755a073551a10e979568d95d7c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:20 +0000
Subject: [PATCH 12/79] fix: decode every filter of a chain, accept an empty
 one

---
 pdfsyntax/filters.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..39fa8ff 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -23,25 +23,29 @@ def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG pr
     return res
 
 
+def filter_chain(stream_def) -> tuple:
+    """List the filters of a stream in decoding order, and the parameters of each one (a dict or None)."""
+    filters = stream_def.get('/Filter')
+    if type(filters) == str and filters != 'null':
+        filters = filters.split()
+    elif type(filters) != list:
+        filters = []
+    parms = stream_def.get('/DecodeParms')
+    if type(parms) != list:
+        parms = [parms]
+    parms = [p if type(p) == dict else None for p in parms]
+    parms += [None] * (len(filters) - len(parms))
+    return filters, parms
+
+
 def decode_stream(stream, stream_def):
     """Apply all specified filters in order to decode stream."""
-    s = stream
-    if '/Filter' not in stream_def:
-        return s
-    filters = stream_def['/Filter']
-    if type(filters) == str:
-        #filters = [filters]
-        filters = filters.split()
-    if '/DecodeParms' not in stream_def:
-        parms = [None] * len(filters)
-    else:
-        parms = stream_def['/DecodeParms']
-        if type(parms) == dict:
-            parms = [parms]
+    res = stream
+    filters, parms = filter_chain(stream_def)
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
             try:
-                res = zlib.decompress(s)
+                res = zlib.decompress(res)
                 if parms[i] and '/Predictor' in parms[i]:
                     predictor = int(parms[i]['/Predictor'])
                     columns = int(parms[i]['/Columns'])
@@ -50,12 +54,12 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                res = binascii.unhexlify(res)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(s, adobe=True)
+                res = base64.a85decode(res, adobe=True)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
-- 
2.43.0


From 30052c073f185db99b4251d1b83a1ed196ad3add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 13/79] fix: encode filter chains in reverse order

---
 pdfsyntax/filters.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 39fa8ff..a1ee833 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -68,14 +68,10 @@ def decode_stream(stream, stream_def):
 
 
 def encode_stream(stream, stream_def):
-    """Apply all specified filters in order to encode stream."""
-    if '/Filter' not in stream_def:
-        return stream
-    filters = stream_def['/Filter']
-    if type(filters) == str:
-        filters = [filters]
+    """Apply all specified filters in reverse order to encode stream."""
     res = stream
-    for _, f in enumerate(filters):
+    filters, _ = filter_chain(stream_def)
+    for f in reversed(filters):
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From c4c4d0732a74273c563c4ceedb5cc063b5704d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:24 +0000
Subject: [PATCH 14/79] fix: ASCIIHex streams may hold white space and end with
 >

---
 pdfsyntax/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index a1ee833..1c075a1 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -54,7 +54,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(res)
+                h = b''.join(res.split(b'>')[0].replace(b'\x00', b' ').split())
+                res = binascii.unhexlify(h + b'0' * (len(h) % 2))
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
@@ -79,7 +80,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = asciihex(res)
+                res = asciihex(res) + b'>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
-- 
2.43.0


From 15c0612605728eff162b892c43437cfe28750c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:26 +0000
Subject: [PATCH 15/79] fix: ASCII85 streams have no <~ prefix and may be
 surrounded by white space

---
 pdfsyntax/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 1c075a1..502a018 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -60,7 +60,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(res, adobe=True)
+                a = res[:res.index(b'~>')+2].lstrip(b'\x00\t\n\x0c\r ')
+                res = base64.a85decode(a, adobe=True, ignorechars=b'\x00\t\n\x0b\x0c\r ')
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
@@ -85,7 +86,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85encode(res, adobe=True)
+                res = base64.a85encode(res) + b'~>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCII85'
         else:
-- 
2.43.0


From 152dd89f28ecf7f2e354f4f39de8bdbea018569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:51 +0000
Subject: [PATCH 16/79] fix: honour the /Predictor of Flate streams when
 decoding and encoding

---
 pdfsyntax/filters.py | 68 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 502a018..1e0d5ba 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -6,8 +6,19 @@ import base64
 
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
-def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG predictors
-    """ """
+def predictor_parms(parms) -> tuple:
+    """Return the predictor, the number of bytes of a row and of a pixel."""
+    bits = int(parms.get('/Colors', 1)) * int(parms.get('/BitsPerComponent', 8))
+    row = (bits * int(parms.get('/Columns', 1)) + 7) // 8
+    return int(parms.get('/Predictor', 1)), row, (bits + 7) // 8
+
+
+def decode_predictor(bdata: bytes, predictor, columns, bpp = 1):
+    """Revert PNG predictors, the type being given at the beginning of each row."""
+    if predictor == 1:
+        return bdata
+    elif predictor < 10:
+        raise ValueError('unsupported predictor')
     size = len(bdata)
     res = b''
     columns += 1
@@ -15,14 +26,45 @@ def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG pr
     i = 0
     while i < size:
         row = list(bdata[i:i+columns])
-        # Predictor 12, PNG Up
-        decoded_row = [(val + prev_row[index]) & 0xff for (index, val) in enumerate(row)]
-        prev_row = decoded_row
-        res += bytes(decoded_row[1:])
+        for index in range(1, len(row)):
+            left = row[index-bpp] if index > bpp else 0
+            up = prev_row[index]
+            upleft = prev_row[index-bpp] if index > bpp else 0
+            if row[0] == 0: # None
+                val = 0
+            elif row[0] == 1: # Sub
+                val = left
+            elif row[0] == 2: # Up
+                val = up
+            elif row[0] == 3: # Average
+                val = (left + up) // 2
+            elif row[0] == 4: # Paeth
+                p = left + up - upleft
+                val = min([left, up, upleft], key = lambda x: abs(p - x))
+            else:
+                raise ValueError('unsupported PNG predictor')
+            row[index] = (row[index] + val) & 0xff
+        prev_row = row
+        res += bytes(row[1:])
         i += columns
     return res
 
 
+def encode_predictor(bdata: bytes, predictor, columns):
+    """Apply PNG Up predictor."""
+    if predictor == 1:
+        return bdata
+    elif predictor < 10:
+        raise ValueError('unsupported predictor')
+    res = b''
+    prev_row = bytes(columns)
+    for i in range(0, len(bdata), columns):
+        row = bdata[i:i+columns]
+        res += b'\x02' + bytes([(val - prev_row[index]) & 0xff for (index, val) in enumerate(row)])
+        prev_row = row
+    return res
+
+
 def filter_chain(stream_def) -> tuple:
     """List the filters of a stream in decoding order, and the parameters of each one (a dict or None)."""
     filters = stream_def.get('/Filter')
@@ -46,10 +88,9 @@ def decode_stream(stream, stream_def):
         if f == '/FlateDecode':
             try:
                 res = zlib.decompress(res)
-                if parms[i] and '/Predictor' in parms[i]:
-                    predictor = int(parms[i]['/Predictor'])
-                    columns = int(parms[i]['/Columns'])
-                    res = decode_predictor(res, predictor, columns)
+                if parms[i]:
+                    predictor, columns, bpp = predictor_parms(parms[i])
+                    res = decode_predictor(res, predictor, columns, bpp)
             except:
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
@@ -72,10 +113,13 @@ def decode_stream(stream, stream_def):
 def encode_stream(stream, stream_def):
     """Apply all specified filters in reverse order to encode stream."""
     res = stream
-    filters, _ = filter_chain(stream_def)
-    for f in reversed(filters):
+    filters, parms = filter_chain(stream_def)
+    for i, f in reversed(list(enumerate(filters))):
         if f == '/FlateDecode':
             try:
+                if parms[i]:
+                    predictor, columns, _ = predictor_parms(parms[i])
+                    res = encode_predictor(res, predictor, columns)
                 res = zlib.compress(res)
             except:
                 return b'#PDFSyntaxException: cannot encode Flate'
-- 
2.43.0


From e1de50b320de89e77edbfec3d1a9c44dbbf09fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:14 +0000
Subject: [PATCH 17/79] fix: references to undefined objects resolve to nothing

---
 pdfsyntax/docstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b1cf2fd..6b0f3dd 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -224,7 +224,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     """
     if cache is None:
         cache = (key + 1) * [None]
-    if 'DELETED' in idx[rev][key]:
+    if key >= len(idx[rev]) or idx[rev][key] is None or 'DELETED' in idx[rev][key]:
         return cache
     if  cache[key] != None:
         return cache
@@ -294,6 +294,8 @@ def get_object(doc: Doc, obj):
     """Return raw object or the target of an indirect reference."""
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
+        if ref >= len(doc.index[-1]): #a reference to an undefined object means null
+            return None
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
         return deepcopy(res[ref])
     else: 
-- 
2.43.0


From 9edf89b1d842b188af2f79bc7d3adae597698c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:20 +0000
Subject: [PATCH 18/79] fix: objects of hybrid files come from the table and
 from the stream

---
 pdfsyntax/filestruct.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 738b827..0a6c47a 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -325,12 +325,10 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
     xref_seq.reverse()
     new_xref_seq = []
     for x in xref_seq:
-        if x[0].get('xref_stm'):
+        if x[0].get('xref_stm'): #Hybrid: the stream completes the table
             p = new_xref_seq[-1]
-            p = deepcopy(p)
-            p[0]['xref_stm'] = True
-            p[0]['abs_pos'] = x[0]['abs_pos']
-            new_xref_seq[-1] = p
+            in_table = {obj['o_num'] for obj in x}
+            new_xref_seq[-1] = x[:-1] + [obj for obj in p[1:-1] if obj['o_num'] not in in_table] + x[-1:]
         else:
             new_xref_seq.append(x)
     for x in new_xref_seq:
-- 
2.43.0


From b111280cf2309ead7a56744ba871d9ad8d690414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:46 +0000
Subject: [PATCH 19/79] fix: free entries of later revisions delete objects

---
 pdfsyntax/filestruct.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 0a6c47a..93f044e 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -176,7 +176,9 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             table.append((f"{line[0]} {line[1]}".encode('ascii'), None))
         elif len(line) == 4:
             offset, o_num, o_gen, keyword = line
-            if keyword != b'f' and o_num != 0:
+            if keyword == b'f' and o_num != 0:
+                xref.append({'o_num': o_num, 'o_gen': max(o_gen-1, 0), 'DELETED': True})
+            elif o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
@@ -216,6 +218,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
+            xref.append({'o_num': o_num, 'o_gen': max(o_gen-1, 0), 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
@@ -309,7 +312,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max(i['o_num'] for xref_index in chrono for i in xref_index)
     return chrono, nxt, nb
 
 
@@ -327,8 +330,10 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
     for x in xref_seq:
         if x[0].get('xref_stm'): #Hybrid: the stream completes the table
             p = new_xref_seq[-1]
-            in_table = {obj['o_num'] for obj in x}
-            new_xref_seq[-1] = x[:-1] + [obj for obj in p[1:-1] if obj['o_num'] not in in_table] + x[-1:]
+            in_table = {obj['o_num'] for obj in x if 'DELETED' not in obj}
+            in_stm = [obj for obj in p[1:-1] if obj['o_num'] not in in_table and 'DELETED' not in obj]
+            hidden = {obj['o_num'] for obj in in_stm}
+            new_xref_seq[-1] = [obj for obj in x[:-1] if obj['o_num'] not in hidden] + in_stm + x[-1:]
         else:
             new_xref_seq.append(x)
     for x in new_xref_seq:
@@ -344,7 +349,14 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
-            if m[obj['o_num']] is None:
+            if 'DELETED' in obj:
+                old_obj = m[obj['o_num']]
+                if old_obj is None or 'DELETED' in old_obj: #Nothing to free
+                    continue
+                obj['o_gen'] = old_obj['o_gen']
+                obj['o_ver'] = old_obj['o_ver'] + 1
+                obj['doc_ver'] = doc_ver
+            elif m[obj['o_num']] is None:
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
             else:
@@ -363,7 +375,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if y.get('abs_next') or 'DELETED' in y:
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -629,7 +641,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -649,7 +661,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From 88366c7489f0c9506e211053d07a2c7c7c9607e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:03 +0000
Subject: [PATCH 20/79] fix: loading an object stream never replaces newer
 objects

---
 pdfsyntax/docstruct.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6b0f3dd..b18187f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -271,22 +271,20 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         cache[key] = obj    
     else:
         container = idx[rev][key]['env_num']
-        bdata, a0, _, _ = fdata(idx[rev][container]['abs_pos'],
-                                idx[rev][container]['abs_next'] - idx[rev][container]['abs_pos'])
-        i, j, _ = next_token_no_comment(bdata, a0)
-        i, j, _ = next_token_no_comment(bdata, j)
-        i, j, _ = next_token_no_comment(bdata, j)
-        i, j, _ = next_token_no_comment(bdata, j) #/ObjStm
-        text = bdata
-        stream_obj = parse_obj(text, i, resolve)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        stream_obj = resolve(complex(0, container))
+        if type(stream_obj) != Stream:
+            return cache
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
+            current = idx[rev][o_num] if o_num < len(idx[rev]) else None
+            if not current or current.get('env_num') != container:
+                continue #Superseded by another definition
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            if cache[o_num] is None:
+                cache[o_num] = embedded_obj
     return cache
 
 
-- 
2.43.0


From ede1bdc1711e5b31a4be0126b272bd1cb8a70248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:16 +0000
Subject: [PATCH 21/79] fix: the entry type of an xref stream defaults to 1

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index d2e76d3..0bb0c2a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -433,6 +433,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
             params.append(int.from_bytes(x, byteorder='big'))
             i += int(col)
             ppr += asciihex(x) + b' '
+        if int(cols[0]) == 0: #default type
+            params[0] = 1
         if params[0] == 0:
             offset = params[1]
             o_gen = params[2]
-- 
2.43.0


From 2cdada7c43f53c2b77d9fb0ccae71f81e7980a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:08 +0000
Subject: [PATCH 22/79] fix: the trailer may follow its keyword directly or
 after a comment

---
 pdfsyntax/filestruct.py | 8 ++++----
 pdfsyntax/objects.py    | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 93f044e..49c78cd 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -284,15 +284,15 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
             i, j, _ = next_token(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
-            i, j, _ = next_token(bdata, j)                            #dict
+            i, j, _ = next_token_no_comment(bdata, j)                 #dict
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
             i, j, _ = next_token(bdata, a0 - o0) #o_num
             o_num = parse_obj(bdata, i)
-            i, j, _ = next_token(bdata, j)       #o_ver
-            i, j, _ = next_token(bdata, j)       #b'obj'
-            i, j, _ = next_token(bdata, j)       #dict
+            i, j, _ = next_token_no_comment(bdata, j) #o_ver
+            i, j, _ = next_token_no_comment(bdata, j) #b'obj'
+            i, j, _ = next_token_no_comment(bdata, j) #dict
             xref = parse_obj(bdata, i)
             xref_index = parse_xref_stream(xref, xref_pos, o_num)
             trailer = xref['entries']
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 0bb0c2a..207e67a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -392,7 +392,8 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
             res.append((offset, o_num, o_ver, keyword))
             o_num += 1
         bl, el = next_line(bdata, el)
-    bl, bf, _l = next_token(bdata, el)
+    _, el, _ = next_token(bdata, bl) #b'trailer'
+    bl, bf, _l = next_token_no_comment(bdata, el)
     trailer = parse_obj(bdata, bl)
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
-- 
2.43.0


From d0bfa50955b7f4d4bd6052d9611e308e67617444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:42 +0000
Subject: [PATCH 23/79] fix: objects of an object stream are found through its
 offsets

---
 pdfsyntax/objects.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 207e67a..c543c1e 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -350,24 +350,16 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
 def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
     """List objects embedded within an object stream (/ObjStm)."""
     res = []
-    data = obj_stream['stream']
+    data = obj_stream['stream'] + b'\n' #so that the last token ends before the data
     offset = int(obj_stream['entries']['/First'])
     theorical_nb_obj = int(obj_stream['entries']['/N'])
-    i = 0
-    tokens = []
-    while i < len(data):
-        bo, eo, typ = next_token(data, i)
-        tokens.append(bo)
-        i = eo
-    actual_nb_obj = len(tokens) // 3
-    actual_offset = tokens[2 * actual_nb_obj]
-    y_array = parse_obj(b'[' + data[:offset] + b']')
-    y_pos = [y+offset for j, y in enumerate(y_array) if j % 2]
+    y_array = parse_obj(b'[' + data[:offset] + b'\n]')
+    actual_nb_obj = min(theorical_nb_obj, len(y_array) // 2)
     for x in range(actual_nb_obj):
-        actual_pos = tokens[2 * actual_nb_obj + x]
-        o_num = parse_obj(data, tokens[2 * x])
+        o_num = y_array[2 * x]
+        theorical_pos = offset + y_array[2 * x + 1]
+        actual_pos, _, _ = next_token_no_comment(data, theorical_pos)
         obj = parse_obj(data, actual_pos)
-        theorical_pos = actual_pos if actual_pos in y_pos else None
         res.append((o_num, obj, env_num, theorical_pos, actual_pos))
     return (None, None, 'OBJSTREAM', res)
 
-- 
2.43.0


From a60f4e1eade9f3abd762a6011b726b85068b0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:14 +0000
Subject: [PATCH 24/79] fix: revisions that only delete objects can be written
 with an xref stream

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 49c78cd..5a9b105 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -597,7 +597,7 @@ def build_revision_byte_stream(
         xref_table.append(('n', xref_stream_num, 0, counter, None))
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From 913d9717c97493f370b20b530850ac68841a0acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:17 +0000
Subject: [PATCH 25/79] fix: the fields of an xref stream are wide enough for
 every entry

---
 pdfsyntax/filestruct.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5a9b105..3401e4a 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -455,8 +455,13 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     index = []
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
-    max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = (int(math.log2(max_counter+1)) // 8) + 1
+    max_field = 0
+    for use, num, o_gen, counter, env_num in elems:
+        if use == 'f':
+            max_field = max(max_field, next_free[num], o_gen+1)
+        else:
+            max_field = max(max_field, counter, o_gen, env_num or 0)
+    b = max(1, (max_field.bit_length() + 7) // 8)
     trailer['/W'] = [1, b, b]
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-- 
2.43.0


From 830036b4903e1d09a29c66d03dc9fae01d98ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:19 +0000
Subject: [PATCH 26/79] fix: the subsections of an xref stream are in ascending
 order

---
 pdfsyntax/filestruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 3401e4a..95a9525 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -600,6 +600,7 @@ def build_revision_byte_stream(
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
         xref_table.append(('n', xref_stream_num, 0, counter, None))
+        xref_table.sort(key=lambda xr: xr[1])
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
         new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From 245be46208107de45a3a698e585abf3a37b9ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:22 +0000
Subject: [PATCH 27/79] fix: entries describing an xref stream stay out of the
 trailer dictionary

---
 pdfsyntax/filestruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 95a9525..c80effe 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -442,7 +442,8 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     for x, _ in xref_table:
         build_xref_table += x
         build_xref_table += b'\n'
-    ser0 = serialize(trailer)
+    stream_keys = '/Type /W /Index /Length /Filter /DecodeParms /XRefStm'.split()
+    ser0 = serialize({k: v for k, v in trailer.items() if k not in stream_keys})
     build_xref_table += b'trailer\n'
     build_xref_table += ser0 
     build_xref_table += b'\n'
@@ -453,6 +454,7 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     """Build XREF stream object."""
     xref_stream = []
     index = []
+    trailer = trailer.copy()
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
     max_field = 0
-- 
2.43.0


From a151c3610a72de35bfd63e76c8f5bb28b76e651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:53 +0000
Subject: [PATCH 28/79] fix: a new revision is opened after loading even if the
 last one changed no object

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b18187f..7c5e52a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -553,7 +553,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
 def commit(doc: Doc) -> Doc:
     """Add new index for incremental update."""
     chg = changes(doc)
-    if len(chg) == 0:
+    if len(chg) == 0 and 'eof_cut' not in doc.data[-1]:
         return doc
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
-- 
2.43.0


From ebac49399657be842062ba2094bc168438504e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:55 +0000
Subject: [PATCH 29/79] fix: updates of linearized files follow their last end
 of file and first cross-reference section

---
 pdfsyntax/docstruct.py  | 2 +-
 pdfsyntax/filestruct.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7c5e52a..65b126c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -595,7 +595,7 @@ def commit(doc: Doc) -> Doc:
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
     if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
+        new_trailer['/Prev'] = new_doc.index[-2][0][-1].get('xref_table_pos') or new_doc.index[-2][0][-1].get('xref_stream_pos')
     else:
         new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index c80effe..4681625 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -349,6 +349,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
+            if obj['o_num'] == -1 and m[-1] and m[-1]['abs_pos'] > obj['abs_pos']:
+                continue #Linearized: end of the first section
             if 'DELETED' in obj:
                 old_obj = m[obj['o_num']]
                 if old_obj is None or 'DELETED' in old_obj: #Nothing to free
-- 
2.43.0


From b75a49943cda69c5bd696886492838c2e11547bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:16 +0000
Subject: [PATCH 30/79] fix: the change list ignores objects both added and
 deleted, re-created objects are additions

---
 pdfsyntax/docstruct.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 65b126c..5cc6b2e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -370,13 +370,14 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
             continue
-        if i > len(previous)-1:
-            res.append((iref, 'a'))
-        elif i < len(previous) and previous[i] == current[i]:
+        old = previous[i] if i < len(previous) else None
+        was_used = old is not None and 'DELETED' not in old
+        if old == current[i]:
             pass
-        elif previous[i] != None and 'DELETED' not in previous[i] and 'DELETED' in current[i]:
-            res.append((iref, 'd'))
-        elif previous[i] != None and current[i] != previous[i]:
+        elif 'DELETED' in current[i]:
+            if was_used:
+                res.append((iref, 'd'))
+        elif was_used:
             res.append((iref, 'u'))
         else:
             res.append((iref, 'a'))
-- 
2.43.0


From 30caa23904061270eb24860f785bb78d20af1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:49 +0000
Subject: [PATCH 31/79] fix: updates follow the organisation of the last
 revision and number their xref stream consistently

---
 pdfsyntax/docstruct.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 5cc6b2e..0fd03d8 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -560,17 +560,27 @@ def commit(doc: Doc) -> Doc:
     nb_rev = len(doc.index)
     new_doc = copy_doc(doc, revision='NEXT')
     new_index0 = {'o_num': 0, 'o_gen': 0, 'o_ver': nb_rev, 'doc_ver': nb_rev}
-    if type(doc.index[0][0]) == dict:
-        x_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        x_num = doc.index[0][0][0].get('xref_stream_num')
+    current0 = current_index[0][-1] if type(current_index[0]) == list else current_index[0]
+    x_num = current0.get('xref_stream_num')
     if x_num:
         new_index0['xref_stream_num'] = -1
         if x_num == -1:
             x_num = len(current_index)
-            new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
-            new_doc.index[-1].append(new_index_xs)
-            new_doc.index[-1][0]['xref_stream_num'] = x_num
+            o_ver = 0
+            if nb_rev > 1: #Reuse the number of the previous xref stream
+                previous = doc.index[-2]
+                previous0 = previous[0][-1] if type(previous[0]) == list else previous[0]
+                old_num = previous0.get('xref_stream_num')
+                if old_num and old_num < len(previous) and previous[old_num] and current_index[old_num] == previous[old_num]:
+                    x_num = old_num
+                    o_ver = previous[old_num]['o_ver'] + 1
+            if x_num == len(current_index):
+                new_doc.index[-1].append(None)
+                new_doc.cache.append(None)
+            new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': o_ver, 'doc_ver': nb_rev-1}
+            new_doc.index[-1][x_num] = new_index_xs
+            new_doc.index[-1][0] = {**current0, 'xref_stream_num': x_num}
+            new_doc.cache[x_num] = None #Known when it is written
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
-- 
2.43.0


From dfe819ac0bd0f171108f8c4a76f37d6b1ddffed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:08 +0000
Subject: [PATCH 32/79] fix: object streams are built from scratch when a
 revision is written

---
 pdfsyntax/filestruct.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 4681625..8b9a6f8 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -541,13 +541,12 @@ def finalize_stream(envelope):
     header = b''
     entries = envelope['entries'].copy()
     if '/First' not in entries and '/N' not in entries:
-        tokens = entries['/FirstLine']
+        tokens = entries.pop('/FirstLine', [])
         for i in tokens:
             header += f'{i} '.encode('ascii')
         header += b'\n'
         entries['/First'] = len(header)
         entries['/N'] = len(tokens) // 2
-        del entries['/FirstLine']
     entries['/Length'] = -1
     new_ser = header + envelope['stream']
     envelope, _ = forge_stream(entries, new_ser)
@@ -566,14 +565,21 @@ def build_revision_byte_stream(
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
     l = [(0j, 'd')] + changes
+    new_envs = {}
     for c, action in l:
         num = int(c.imag)
-        o_gen = current_index[num]['o_gen']
-        env_num = current_index[num].get('env_num')
+        o_gen = current_index[num]['o_gen'] if num else 0
+        env_num = current_index[num].get('env_num') if num else None
         if action != 'd' and env_num:
-            new_env = append_to_stream_fragment(num, cache[num], cache[env_num])
-            cache[env_num] = new_env
+            if env_num not in new_envs: #Built from scratch
+                entries = {k: v for k, v in cache[env_num]['entries'].items() if k not in ('/First', '/N', '/FirstLine')}
+                new_envs[env_num] = Stream(entries, b'', None)
+            new_env = append_to_stream_fragment(num, cache[num], new_envs[env_num])
+            new_envs[env_num] = new_env
+            new_index[num]['o_pos'] = get_pos_in_stream(new_env)
             xref_table.append(('n', num, o_gen, get_pos_in_stream(new_env), env_num))
+    for env_num in new_envs:
+        cache[env_num] = finalize_stream(new_envs[env_num])
     for c, action in l:
         num = int(c.imag)
         if action == 'd':
@@ -588,13 +594,17 @@ def build_revision_byte_stream(
             if not env_num:
                 obj = cache[num]
                 if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
-                    obj = finalize_stream(obj)
+                    obj = finalize_stream(obj) if '/N' not in obj['entries'] else obj
                 block = serialize_fragment(num, o_gen, obj)
                 fragments.append(block)
                 xref_table.append(('n', num, o_gen, counter, env_num))
                 new_index[num]['abs_pos'] = counter
                 new_index[num]['abs_next'] = counter + len(block)
                 counter += len(block)
+    for use, num, _, pos, env_num in xref_table:
+        if env_num:
+            new_index[num]['abs_pos'] = new_index[env_num]['abs_pos'] + (pos + 1) / 10000
+            new_index[num]['abs_next'] = new_index[env_num]['abs_next']
     xref_table.sort(key=lambda xr: xr[1])
     if not xref_stream_num:
         #cache[0]['/Size'] = len(current_index)
-- 
2.43.0


From 2d396e25d6be353d517fa366a62edc513125e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:00 +0000
Subject: [PATCH 33/79] fix: linearized documents can be rewound to their first
 revision

---
 pdfsyntax/docstruct.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 0fd03d8..9ee6f4f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -564,7 +564,7 @@ def commit(doc: Doc) -> Doc:
     x_num = current0.get('xref_stream_num')
     if x_num:
         new_index0['xref_stream_num'] = -1
-        if x_num == -1:
+        if x_num == -1 or x_num >= len(current_index) or not current_index[x_num]:
             x_num = len(current_index)
             o_ver = 0
             if nb_rev > 1: #Reuse the number of the previous xref stream
@@ -580,6 +580,7 @@ def commit(doc: Doc) -> Doc:
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': o_ver, 'doc_ver': nb_rev-1}
             new_doc.index[-1][x_num] = new_index_xs
             new_doc.index[-1][0] = {**current0, 'xref_stream_num': x_num}
+        if 'eof_cut' not in new_doc.data[-1]:
             new_doc.cache[x_num] = None #Known when it is written
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
@@ -625,6 +626,10 @@ def rewind(doc: Doc) -> Doc:
     if 'eof_cut' in new_doc.data[-1]:
         del new_doc.data[-1]['eof_cut']
     new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index))
+    if type(new_doc.index[-1][0]) == list: #Linearized
+        new_doc.index[-1][0] = new_doc.index[-1][0][-1]
+    if len(new_doc.index) == 1:
+        new_doc.cache[0].pop('/Prev', None)
     for o in objs:
         get_object(new_doc, o)
     return new_doc
-- 
2.43.0


From c75dd24d62a8e13ddccc707e95ac1fb99a2b1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:12 +0000
Subject: [PATCH 34/79] fix: a rewritten revision forgets its former
 cross-reference organisation

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 8b9a6f8..e01ed80 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -606,6 +606,8 @@ def build_revision_byte_stream(
             new_index[num]['abs_pos'] = new_index[env_num]['abs_pos'] + (pos + 1) / 10000
             new_index[num]['abs_next'] = new_index[env_num]['abs_next']
     xref_table.sort(key=lambda xr: xr[1])
+    for k in ('xref_table_pos', 'xref_stream_pos', 'xref_stm'): #Previous organisation of a reopened revision
+        new_index[0].pop(k, None)
     if not xref_stream_num:
         #cache[0]['/Size'] = len(current_index)
         built_xref = format_xref_table(xref_table, cache[0], next_free)
-- 
2.43.0


From b17ed0be2f7457e4c0e19798569dde7b1d931228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:33 +0000
Subject: [PATCH 35/79] fix: read requests on updated data are served wherever
 they start and end

---
 pdfsyntax/docstruct.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 9ee6f4f..e6be66c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -534,20 +534,18 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
             #_, _, _, sz = fdata(None, -1)
             sz = index
             return (None, None, None, sz + len(bdata))
-        if start_pos > index:
-            start_pos = start_pos - index
-            #if start_pos == -1 and length == 0:
-            #    return (None, None, None, len(bdata))
-            if length == -1:
-                length = len(bdata) - start_pos
-            if start_pos == -1:
-                i = len(bdata) - length
-            else:
-                i = start_pos
-            return (bdata, i, 0, min(len(bdata) - start_pos, length))
-            #return (bdata, i, index, min(len(bdata) - start_pos, length)) #TODO
-        else:
-            return fdata(start_pos, length)
+        size = index + len(bdata)
+        if start_pos < 0:
+            start_pos = max(start_pos + size, 0)
+        if length == -1 or length > size - start_pos:
+            length = size - start_pos
+        if start_pos >= index:
+            return (bdata, start_pos - index, index, length)
+        buf, i, offset, n = fdata(start_pos, min(length, index - start_pos))
+        if start_pos + length > index:
+            buf = buf[i:i+n] + bdata[:start_pos+length-index]
+            i, offset = 0, start_pos
+        return (buf, i, offset, length)
     return composite_fdata
 
 
-- 
2.43.0


From a7c43dfeba5f591ce5f260b2c5f573899ed676af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:31 +0000
Subject: [PATCH 36/79] fix: files read on demand load like files read at once

---
 pdfsyntax/api.py        |  2 +-
 pdfsyntax/filestruct.py | 56 ++++++++++++++++-------------------------
 2 files changed, 22 insertions(+), 36 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..303c03d 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -110,7 +110,7 @@ def writefile(doc: Doc, filename: str = None) -> Doc:
     if eof_rev >= 0:
         eof_cut = doc.data[eof_rev]['eof_cut']
         prov = doc.data[0]['fdata'](0, eof_cut)
-        bdata += prov[0][prov[1]:eof_cut]
+        bdata += prov[0][prov[1]:prov[1]+prov[3]]
         idx += len(bdata)
     #else:
         #FILE_HEADER = b'%PDF-' + version(doc).encode('ascii') + b'\n'
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index e01ed80..45c7276 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -31,7 +31,8 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         def single_load(start_pos: int, length: int) -> tuple:
             if start_pos ==  None and length == -1: #Special escape for length only
                 return (None, None, None, len(bdata))
-            i = (start_pos + len(bdata)) % len(bdata)
+            i = start_pos if start_pos >= 0 else max(start_pos + len(bdata), 0)
+            i = min(i, len(bdata))
             if length == -1:
                 nb_read = len(bdata) - i
             else:
@@ -45,30 +46,21 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             file_size = file_obj.tell()
             if start_pos == None and length == -1:
                 return (None, None, None, file_size)
-            i = (start_pos + file_size) % file_size
+            i = start_pos if start_pos >= 0 else max(start_pos + file_size, 0)
+            i = min(i, file_size)
             if length == -1:
                 nb_read = file_size - i
             else:
                 nb_read = min(file_size - i, length)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
 def bdata_dummy(bdata: bytes):
     """ """
-    def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
-            return (None, None, None, len(bdata))
-        if length == -1:
-            length = len(bdata) - start_pos
-        if start_pos == -1:
-            i = len(bdata) - length
-        else:
-            i = start_pos
-        return (bdata, i, 0, min(len(bdata) - start_pos, length))
-    return dummy_load
+    return bdata_provider(bdata)
 
 
 def bdata_length(bdata: Callable) -> int:
@@ -79,8 +71,8 @@ def bdata_length(bdata: Callable) -> int:
 
 def bdata_all(bdata: Callable) -> bytes:
     """Return full bdata content as bytes."""
-    bdata, _, _, _ = bdata(0, -1)
-    return bdata
+    bdata, i, _, n = bdata(0, -1)
+    return bdata[i:i+n]
 
 
 def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
@@ -97,7 +89,7 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
     buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
     i = d0 + i0
     while i < d0 + i0 + sz0:
-        l = buf[i:i+LN]
+        l = buf[i-i0:min(i+LN, d0+i0+sz0)-i0]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
         ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
@@ -267,35 +259,29 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             startxref_pos = o0 + bdata.rfind(STARTXREF, a0)
             i, j, _ = next_token(bdata, startxref_pos + len(STARTXREF) - o0)
             xref_pos = int(bdata[i:j])
-            last = startxref_pos
         elif xrefstm:
             xref_pos = xrefstm
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
-            last = eof_pos
+            startxref_pos = None
             xrefstm = False
         elif prev:
             xref_pos = prev
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
-            last = eof_pos
+            startxref_pos = None
             prev = False
-        bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
+        bdata, a0, o0, _ = fdata(xref_pos, -1)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
             i, j, _ = next_token(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
             i, j, _ = next_token_no_comment(bdata, j)                 #dict
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
-            bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0 - o0) #o_num
-            o_num = parse_obj(bdata, i)
-            i, j, _ = next_token_no_comment(bdata, j) #o_ver
-            i, j, _ = next_token_no_comment(bdata, j) #b'obj'
-            i, j, _ = next_token_no_comment(bdata, j) #dict
-            xref = parse_obj(bdata, i)
-            xref_index = parse_xref_stream(xref, xref_pos, o_num)
+            _, j, _, ind_obj = parse_indirect_obj(bdata, a0)
+            xref = ind_obj['obj']
+            xref_index = parse_xref_stream(xref, xref_pos, ind_obj['o_num'])
             trailer = xref['entries']
+        if startxref_pos is None:
+            j = bdata.find(STARTXREF, j)
+            startxref_pos = o0 + j
+            eof_pos = o0 + bdata.find(EOF, j)
         xref_index[0]['startxref_pos'] = startxref_pos
         xref_index.append({'o_num': -1, 'o_gen': -1, 'abs_pos': eof_pos})
         chrono.append(xref_index)
@@ -392,13 +378,13 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
 
 def eof_cut(eof_index: int, fdata: Callable) -> int:
     """Calculate where to cut the byte stream of a revision: after %%EOF and possibly EOLs"""
-    bdata, start, _, n = fdata(eof_index, bdata_length(fdata) - eof_index)
+    bdata, start, offset, n = fdata(eof_index, bdata_length(fdata) - eof_index)
     i = start + len('%%EOF')
     while i < start + n:
         if bdata[i] not in EOL:
             break
         i += 1
-    return i
+    return offset + i
 
 
 def circular_deleted(changes: list) -> dict:
-- 
2.43.0


From a0509ea3a6b6856c59363aa285f34ce56cb327d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:49 +0000
Subject: [PATCH 37/79] fix: xref streams that do not list themselves get a
 number only when a revision is written

---
 pdfsyntax/docstruct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e6be66c..a3e7151 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -562,7 +562,8 @@ def commit(doc: Doc) -> Doc:
     x_num = current0.get('xref_stream_num')
     if x_num:
         new_index0['xref_stream_num'] = -1
-        if x_num == -1 or x_num >= len(current_index) or not current_index[x_num]:
+        to_write = 'eof_cut' not in new_doc.data[-1]
+        if to_write and (x_num == -1 or x_num >= len(current_index) or not current_index[x_num]):
             x_num = len(current_index)
             o_ver = 0
             if nb_rev > 1: #Reuse the number of the previous xref stream
@@ -578,7 +579,7 @@ def commit(doc: Doc) -> Doc:
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': o_ver, 'doc_ver': nb_rev-1}
             new_doc.index[-1][x_num] = new_index_xs
             new_doc.index[-1][0] = {**current0, 'xref_stream_num': x_num}
-        if 'eof_cut' not in new_doc.data[-1]:
+        if to_write:
             new_doc.cache[x_num] = None #Known when it is written
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
-- 
2.43.0


From 97afcd7d662e39418a6864ace983142eb1a1dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:20 +0000
Subject: [PATCH 38/79] fix: reopening a revision whose xref stream is not
 listed leaves its number free

---
 pdfsyntax/docstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a3e7151..a253d06 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -627,6 +627,9 @@ def rewind(doc: Doc) -> Doc:
     new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index))
     if type(new_doc.index[-1][0]) == list: #Linearized
         new_doc.index[-1][0] = new_doc.index[-1][0][-1]
+    x_num = new_doc.index[-1][0].get('xref_stream_num')
+    if x_num and (x_num >= len(new_doc.index[-1]) or not new_doc.index[-1][x_num]): #Not listed
+        new_doc.index[-1][0] = {**new_doc.index[-1][0], 'xref_stream_num': -1}
     if len(new_doc.index) == 1:
         new_doc.cache[0].pop('/Prev', None)
     for o in objs:
-- 
2.43.0


From 482ff278bc6f8b83af1c22ee43f6b01d9cf44021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:22 +0000
Subject: [PATCH 39/79] fix: objects of a reopened hybrid revision are written
 outside object streams

---
 pdfsyntax/filestruct.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 45c7276..a394ce5 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -547,6 +547,10 @@ def build_revision_byte_stream(
     xref_table = []
     res = b''
     new_index = deepcopy(current_index)
+    if not xref_stream_num: #A table cannot address objects in object streams
+        for c, _ in changes:
+            for k in ('env_num', 'o_pos'):
+                new_index[int(c.imag)].pop(k, None)
     counter = starting_pos + len(MARGIN)
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
@@ -555,7 +559,7 @@ def build_revision_byte_stream(
     for c, action in l:
         num = int(c.imag)
         o_gen = current_index[num]['o_gen'] if num else 0
-        env_num = current_index[num].get('env_num') if num else None
+        env_num = new_index[num].get('env_num') if num else None
         if action != 'd' and env_num:
             if env_num not in new_envs: #Built from scratch
                 entries = {k: v for k, v in cache[env_num]['entries'].items() if k not in ('/First', '/N', '/FirstLine')}
@@ -576,7 +580,7 @@ def build_revision_byte_stream(
             xref_table.append(('f', num, o_gen, None, None))
         else:
             o_gen = current_index[num]['o_gen']
-            env_num = current_index[num].get('env_num')
+            env_num = new_index[num].get('env_num')
             if not env_num:
                 obj = cache[num]
                 if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
-- 
2.43.0


From 25255ddee3dec4d4b6e83f99e82fef953740691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:01 +0000
Subject: [PATCH 40/79] fix: escapes, line ends and hexadecimal digits of text
 strings are decoded as specified

---
 pdfsyntax/text.py | 50 ++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..6357e88 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -27,26 +27,21 @@ def decode_pdfdoc(string: bytes) -> str:
 
 def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
-    if string is None: return None
-    res = ''
-    string = unescape_literal_string(string)
+    if type(string) != bytes: return None
+    b = string_bytes(string)
+    if b[0:2] == b'\xfe\xff':
+        return b[2:].decode('utf-16be', 'replace')
+    return decode_pdfdoc(b)
+
+
+def string_bytes(string: bytes) -> bytes:
+    """Return the bytes that a literal or hexadecimal string denotes."""
     if string[0:1] == b'(': # Literal string
-        if string[1:3] == b'\xfe\xff': 
-            res = string[3:-1].decode('utf-16be')
-        else:
-            s = string[1:-1]
-            # = s.replace(b'\x5c\x5c', b'\x5c') # x5c is backslash
-            # = s.replace(b'\x5c(', b'(')
-            # = s.replace(b'\x5c)', b')')
-            res = decode_pdfdoc(s)
-    elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
-            b = bytes.fromhex(string[5:-1].decode('ascii'))
-            res = b.decode('utf-16be')
-        else:
-            b = bytes.fromhex(decode_pdfdoc(string[1:-1]))
-            res = decode_pdfdoc(b)
-    return res
+        return unescape_literal_string(string[1:-1])
+    digits = b''.join(string[1:-1].replace(b'\x00', b'').split())
+    if len(digits) % 2: # The missing last digit is assumed to be 0
+        digits += b'0'
+    return bytes.fromhex(digits.decode('ascii'))
 
 
 def unescape_literal_string(string: bytes) -> bytes:
@@ -67,12 +62,23 @@ def unescape_literal_string(string: bytes) -> bytes:
         first = string[i:i+1]
         second = string[i+1:i+2]
         if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
+            if second and second in b'01234567': # One to three octal digits
+                n = 1
+                while n < 3 and string[i+1+n:i+2+n] and string[i+1+n:i+2+n] in b'01234567':
+                    n += 1
+                ret += bytes([int(string[i+1:i+1+n], 8) & 255])
+                i += n
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
+            elif string[i+1:i+3] == b'\r\n': # Line continuation
+                i += 2
+            elif second in (b'\r', b'\n'):
+                i += 1
+        elif first == b'\r': # Any end of line is read as a line feed
+            ret += b'\n'
+            if second == b'\n':
+                i += 1
         else:
             ret += first
         i += 1
-- 
2.43.0


From badc63a6914a1c5413007ff7d00a7e9f13e6fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:03 +0000
Subject: [PATCH 41/79] fix: the text of an annotation is a string object,
 escaped or in Unicode

---
 pdfsyntax/api.py  | 2 +-
 pdfsyntax/text.py | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 303c03d..19f551b 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -239,7 +239,7 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': encode_text_string(text),
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 6357e88..f11ed28 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -85,6 +85,15 @@ def unescape_literal_string(string: bytes) -> bytes:
     return ret
 
 
+def encode_text_string(text: str) -> bytes:
+    """Build the fundamental string of a text."""
+    if all(' ' <= c <= '~' for c in text):
+        s = text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+        return b'(' + s.encode('ascii') + b')'
+    b = b'\xfe\xff' + text.encode('utf-16be', 'replace')
+    return b'<' + b.hex().upper().encode('ascii') + b'>'
+
+
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
     s_string = string[1:-1]
-- 
2.43.0


From 9b6d7e54b7f9030b6d64cbb28dbb148693c8f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:43 +0000
Subject: [PATCH 42/79] fix: page listing does not leak inherited attributes
 between calls, stops at the requested number and follows indirect entries

---
 pdfsyntax/docstruct.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a253d06..7c41f78 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -308,23 +308,28 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
+def is_null(obj) -> bool:
+    """Tell if object is null or absent."""
+    return obj is None or obj == 'null'
+
+
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
-    if num:
-        node = get_object(doc, num)
-    else:
-        node = get_object(doc, catalog(doc)[0]['/Pages'])
-    if node['/Type'] == '/Pages':
-        for kid in node['/Kids']:
-            e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
-            inherited.update(e)
-            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
-            if max_nb is not None and len(accu) == max_nb:
-                return accu
+    inherited = dict(inherited or {})
+    if not num:
+        num = catalog(doc)[0]['/Pages']
+    node = get_object(doc, num)
+    if get_object(doc, node['/Type']) == '/Pages':
+        inherited.update({k: node[k] for k in INHERITABLE_ATTRS if not is_null(get_object(doc, node.get(k)))})
+        for kid in get_object(doc, node['/Kids']):
+            if max_nb is not None and len(accu) >= max_nb:
+                break
+            remaining = None if max_nb is None else max_nb - len(accu)
+            accu = accu + flat_page_tree(doc, kid, inherited, remaining)
         return accu
-    elif node['/Type'] == '/Page':
-        return[(num, inherited)]
+    else:
+        return [(num, deepcopy(inherited))]
 
 
 def build_cache(fdata: Callable, index: list) -> list:
@@ -498,7 +503,7 @@ def info(doc: Doc):
 def number_pages(doc: Doc):
     """Return doc number of pages."""
     p = get_object(doc, catalog(doc)[0]['/Pages'])
-    return p['/Count']
+    return get_object(doc, p['/Count'])
 
 
 def pages(doc: Doc, max_nb=None) -> list:
@@ -507,7 +512,7 @@ def pages(doc: Doc, max_nb=None) -> list:
     for num, in_attr in flat_page_tree(doc, max_nb=max_nb):
         temp = deepcopy(get_object(doc, num))
         for a in in_attr:
-            if a not in temp:
+            if is_null(get_object(doc, temp.get(a))):
                 temp[a] = in_attr[a]
         pl.append(temp)
     return pl
-- 
2.43.0


From 3c3dd4df5483fae1959ba55e422b788e6c35879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:45 +0000
Subject: [PATCH 43/79] fix: removing pages keeps everything still reachable,
 and follows cycles, streams and indirect page tree entries

---
 pdfsyntax/docstruct.py | 73 ++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7c41f78..5fd622c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -771,25 +771,26 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
 
 
 def dependencies(doc: Doc, obj: Any) -> set:
-    """Recursively list indirect references found inside object.""" 
-    if type(obj) == dict:
-        res = set()
-        for k, v in obj.items():
-            if k == '/Parent' or k == '/P':
-                continue
-            res = res | dependencies(doc, v)
-        return res
-    elif type(obj) == list:
-        res = set()
-        for i in obj:
-            res = res | dependencies(doc, i)
-        return res
-    elif type(obj) == complex:
-        res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
-        return res
-    else:   
-        return set()
+    """List indirect references found inside object, following them without going back to parents."""
+    return reachable(doc, obj, ('/Parent', '/P'))
+
+
+def reachable(doc: Doc, obj: Any, ignored_keys=()) -> set:
+    """List indirect references found when following references from object."""
+    res = set()
+    todo = [obj]
+    while todo:
+        o = todo.pop()
+        if type(o) == Stream:
+            o = o['entries']
+        if type(o) == dict:
+            todo += [v for k, v in o.items() if k not in ignored_keys]
+        elif type(o) == list:
+            todo += o
+        elif type(o) == complex and o not in res:
+            res.add(o)
+            todo.append(get_object(doc, o))
+    return res
 
 
 def keep_pages(doc: Doc, pages) -> Doc:
@@ -809,27 +810,23 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         del_pages = {del_pages}
     pages = flat_page_tree(new_doc)
     del_ref = {pages[p][0] for p in del_pages}
-    keep_ref = {p[0] for p in pages} - del_ref
-    del_dep = set()
-    keep_dep = set()
-    for i in del_ref:
-        del_dep = del_dep | dependencies(new_doc, i)
-    for i in keep_ref:
-        keep_dep = keep_dep | dependencies(new_doc, i)
+    del_dep = dependencies(new_doc, list(del_ref))
     for ref in del_ref:
+        child = ref
         parent = get_object(new_doc, ref)['/Parent']
-        new_parent = get_object(new_doc, parent)
-        kids = new_parent['/Kids']
-        kids.remove(ref)
-        new_parent['/Count'] = new_parent['/Count'] - 1
-        new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
-        while '/Parent' in new_parent:
-            p = new_parent['/Parent']
-            new_parent = get_object(new_doc, p)
-            new_parent['/Count'] = new_parent['/Count'] - 1
-            new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-    for ref in del_dep - keep_dep:
-        new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
+        while not is_null(parent):
+            new_parent = get_object(new_doc, parent)
+            if child == ref:
+                kids = get_object(new_doc, new_parent['/Kids'])
+                kids.remove(ref)
+                new_parent['/Kids'] = kids
+            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
+            new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
+            child, parent = parent, new_parent.get('/Parent')
+    in_use_nums = {int(ref.imag) for ref in in_use(new_doc)}
+    keep_nums = {int(ref.imag) for ref in reachable(new_doc, trailer(new_doc))}
+    for num in sorted({int(ref.imag) for ref in del_dep} & in_use_nums - keep_nums):
+        new_doc = update_object(new_doc, num, None, immut=False)
     return new_doc
 
 
-- 
2.43.0


From ea443e7d389098ec673b8f661920e98a57120e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:24 +0000
Subject: [PATCH 44/79] fix: squash keeps trailer entries and stream
 references, leaves file structure objects out and never revives dangling
 references

---
 pdfsyntax/docstruct.py | 51 ++++++++++++++++++++++--------------------
 pdfsyntax/objects.py   | 18 ++++++++++-----
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 5fd622c..7e281b8 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -11,6 +11,8 @@ from copy import deepcopy
 EOL = b'\r\n'
 SPACE = EOL + b'\x00\x09\x0c\x20'
 
+FILE_STRUCTURE_KEYS = '/Size /Prev /XRefStm /Type /W /Index /Length /Filter /DecodeParms'.split()
+
 INHERITABLE_ATTRS = '/Resources /MediaBox /CropBox /Rotate'.split()
 
 
@@ -848,7 +850,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if o is None or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
@@ -858,41 +860,42 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             new_o['o_ver'] = 0
             new_o['doc_ver'] = 0
             new_o['OLD_REF'] = old_ref
-            if 'abs_pos' in new_o:
-                del new_o['abs_pos']
-            if 'abs_next' in new_o:
-                del new_o['abs_next']
+            new_o['o_num'] = nb
+            for k in ('abs_pos', 'abs_next', 'env_num', 'o_pos'):
+                new_o.pop(k, None)
             new_index.append(new_o)
-            new_ref = complex(0, nb) 
-            if old_ref != new_ref:
-                mapping[old_ref] = new_ref
+            mapping[old_ref] = complex(0, nb)
     return new_index, mapping
 
 
+def file_structure_objects(doc: Doc) -> set:
+    """List the numbers of objects that organize the file (object streams, xref streams...) without being content."""
+    res = set()
+    for iref in in_use(doc):
+        o = get_object(doc, iref)
+        if type(o) == Stream and o['entries'].get('/Type') in ('/ObjStm', '/XRef'):
+            res.add(int(iref.imag))
+        elif type(o) == dict and '/Linearized' in o:
+            res.add(int(iref.imag))
+    return res
+
+
 def squash(doc: Doc) -> Doc:
     """Group all revisions into a single one."""
-    obj_stms = envelope_objects(doc)
-    if type(doc.index[0][0]) == dict:
-        xref_stream_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
-    if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+    xref_stream = any(x.get('xref_stream_num') for rev in doc.index for x in (rev[0] if type(rev[0]) == list else [rev[0]]))
+    new_index, mapping = defragment_map(old_index, file_structure_objects(doc))
+    if xref_stream:
+        new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
-    new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
+    new_cache[0] = {k: v for k, v in trailer(doc).items() if k not in FILE_STRUCTURE_KEYS}
+    new_cache[0] = deep_ref_retarget(new_cache[0], mapping, None)
     for i in range(1, len(new_index)):
-        old_ref = new_index[i]['OLD_REF']
+        old_ref = new_index[i].pop('OLD_REF')
         obj = get_object(doc, old_ref)
-        obj = deep_ref_retarget(obj, mapping)
-        new_cache[i] = obj
+        new_cache[i] = deep_ref_retarget(obj, mapping, None)
     new_doc = Doc([new_index], new_cache, new_data)
-    chg = changes(new_doc)
-    if not chg:
-        return b''
     header = f"%PDF-{version(doc)}".encode('ascii')
     new_data[-1]['fdata'] = bdata_dummy(header)
     #new_doc = commit(new_doc) #TODO: keep?
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index c543c1e..d69041a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -537,17 +537,23 @@ def serialize(obj, depth=0) -> bytes:
     return ret
 
 
-def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
-    """Recursively replace an indirect reference in object tree.""" 
+def deep_ref_retarget(obj: Any, mapping: dict, default=...) -> Any:
+    """Recursively replace an indirect reference in object tree.
+
+    References that are not in the mapping are left as is or replaced with the default value if specified
+    """
     if type(obj) == complex:
         if obj in mapping:
             return mapping[obj]
+        elif default is not ...:
+            return default
+    elif type(obj) == Stream:
+        entries = deep_ref_retarget(obj['entries'], mapping, default)
+        return Stream(entries, obj['stream'], obj['encoded'])
     elif type(obj) == dict:
-        for k in obj:
-            obj[k] = deep_ref_retarget(obj[k], mapping)
+        return {k: deep_ref_retarget(v, mapping, default) for k, v in obj.items()}
     elif type(obj) == list:
-        for k in range(len(obj)):
-            obj[k] = deep_ref_retarget(obj[k], mapping)
+        return [deep_ref_retarget(v, mapping, default) for v in obj]
     return obj
 
 
-- 
2.43.0


From 8061196bad7a7f0adade7d9874293349117b9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:38 +0000
Subject: [PATCH 45/79] fix: concatenated pages have a parent, do not inherit
 from the other document and keep their references

---
 pdfsyntax/docstruct.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7e281b8..ea9f232 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -738,17 +738,25 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
         new_doc = copy_doc(doc_right, revision='SAME')
         source_doc = doc_left
     mapping = {}
-    start_num = max_num(new_doc) + 1
     cat, cat_iref = catalog(new_doc)
+    pages_iref = cat['/Pages']
+    pages = get_object(new_doc, pages_iref)
+    if any(not is_null(get_object(new_doc, pages.get(k))) for k in INHERITABLE_ATTRS):
+        #New root so that added pages do not inherit anything
+        root_pages = {'/Type': '/Pages', '/Kids': [pages_iref], '/Count': get_object(new_doc, pages['/Count'])}
+        new_doc, root_iref = add_object(new_doc, root_pages, immut=False)
+        pages['/Parent'] = root_iref
+        new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+        cat['/Pages'] = root_iref
+        new_doc = update_object(new_doc, int(cat_iref.imag), cat, immut=False)
+        pages_iref, pages = root_iref, root_pages
+    start_num = max_num(new_doc) + 1
     source_doc = squash(source_doc)
     source_cat, source_cat_iref = catalog(source_doc)
     source_pages_iref = source_cat['/Pages']
     source_pages = get_object(source_doc, source_pages_iref)
     source_pcount = get_object(source_doc, source_pages['/Count'])
     source_doc = update_object(source_doc, int(source_cat_iref.imag), None)
-    x_num = source_doc.index[-1][0].get('xref_stream_num')
-    if x_num and x_num > 0:
-        source_doc = update_object(source_doc, x_num, None)
     objs = in_use(source_doc)
     ir = complex(0, start_num)
     for iref in objs:
@@ -756,10 +764,10 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
         ir += 1j
     for iref in objs:
         obj = get_object(source_doc, iref)
-        new_obj = deep_ref_retarget(obj, mapping)
+        new_obj = deep_ref_retarget(obj, mapping, None)
+        if iref == source_pages_iref:
+            new_obj['/Parent'] = pages_iref
         new_doc, _ = add_object(new_doc, new_obj, immut=False)
-    pages_iref = cat['/Pages']
-    pages = get_object(new_doc, pages_iref)
     pcount = get_object(new_doc, pages['/Count'])
     kids = get_object(new_doc, pages['/Kids'])
     if target_left:
-- 
2.43.0


From 96923e9ba8cbc06f1ac96cb18463e933ebe4ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:02 +0000
Subject: [PATCH 46/79] fix: object streams and xref streams are set up without
 altering the given document, for numbering gaps, deleted and enveloped
 objects

---
 pdfsyntax/docstruct.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ea9f232..499e854 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -396,6 +396,8 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
+        if i == 0 or x is None:
+            continue
         env_num = x.get('env_num')
         if env_num:
             if env_num not in res:
@@ -410,28 +412,32 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
         new_doc, iref = add_object(doc, b'')
         env_num = int(iref.imag)
     else:
-        new_doc = copy_doc(doc, revision='SAME')
-    current = new_doc.index[-1]
+        new_doc = update_object(doc, env_num, b'')
+    pending = {int(iref.imag) for iref, action in changes(doc) if action != 'd'}
     if not o_nums:
-        chgs = changes(doc)
-        o_nums = set([int(iref.imag) for iref, _ in chgs])
-    for o in o_nums:
-        x = new_doc.obj(o)
-        if type(x) == Stream:
+        o_nums = pending
+    o_nums = set(o_nums) | set(envelopes(doc).get(env_num, []))
+    encrypt = trailer(doc).get('/Encrypt')
+    for o in sorted(o_nums):
+        x = get_object(new_doc, get_iref(new_doc, o))
+        if o == env_num or o == new_doc.index[-1][0].get('xref_stream_num'):
+            continue
+        elif 'DELETED' in new_doc.index[-1][o] or type(x) == Stream:
             continue
-        elif type(x) == dict and 'Length' in x:
+        elif new_doc.index[-1][o]['o_gen'] != 0:
             continue
-        elif current[o]['o_gen'] != 0:
+        elif type(encrypt) == complex and int(encrypt.imag) == o:
             continue
-        # TODO Add another elif for encryption dict
-        current[o]['env_num'] = env_num
+        if o not in pending:
+            new_doc = update_object(new_doc, o, x, immut=False)
+        new_doc.index[-1][o] = {**new_doc.index[-1][o], 'env_num': env_num}
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
 
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return set(envelopes(doc))
 
 
 def version(doc: Doc) -> str:
@@ -717,7 +723,7 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
     if filt:
-        new_doc.cache[0]['/Filter'] = filt
+        new_doc.cache[0] = {**new_doc.cache[0], '/Filter': filt}
     return new_doc
 
 
-- 
2.43.0


From 0600e432efba0fb20f5a22cbc5afe6f1d1b1312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:05 +0000
Subject: [PATCH 47/79] fix: changing filters keeps the streams that cannot be
 decoded and drops parameters of former filters

---
 pdfsyntax/api.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 19f551b..47e144d 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -216,17 +216,15 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
     for o_num in streams:
         o = doc.obj(o_num)
         entries = o['entries']
-        if '/Filter' in entries:
-            if entries['/Filter'] == flt:
-                continue
-            else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
+        filters, _ = filter_chain(entries)
+        if filters == flt.split():
+            continue
+        if o['stream'] != o['encoded'] and o['stream'].startswith(b'#PDFSyntaxException'):
+            continue #Keep what cannot be decoded
         entries = deepcopy(entries)
-        if '/Filter' in entries and flt == '':
-            del entries['/Filter']
-        else:
+        for k in ('/Filter', '/DecodeParms'):
+            entries.pop(k, None)
+        if flt:
             entries['/Filter'] = flt
         s, length = forge_stream(entries, o['stream'])
         doc = update_object(doc, o_num, s)
-- 
2.43.0


From 2b389c59748cbc95cc0ad64c76d4d837cf0b10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:43 +0000
Subject: [PATCH 48/79] fix: None is serialised as null

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index d69041a..2c8d125 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -496,6 +496,8 @@ def to_str(obj) -> bytes:
         return s.encode('ascii')
     elif type(obj) == bytes:
         return obj
+    elif obj is None:
+        return b'null'
     else:
         return obj.encode('ascii')
 
-- 
2.43.0


From 0082adb64e3b13a1ba9877022f6681733e4f82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:33 +0000
Subject: [PATCH 49/79] fix: an xref stream does not keep the hybrid pointer of
 the table it replaces

---
 pdfsyntax/filestruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index a394ce5..bc7ad18 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -445,6 +445,7 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     trailer = trailer.copy()
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
+    trailer.pop('/XRefStm', None)
     max_field = 0
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-- 
2.43.0


From 35108e0e8196b99d0e0e518657963bef1547fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:22 +0000
Subject: [PATCH 50/79] fix: fonts are listed for inherited, missing and
 indirect resources, for Type 3 fonts and direct font dictionaries

---
 pdfsyntax/api.py       |  5 ++++-
 pdfsyntax/cli.py       |  2 +-
 pdfsyntax/docstruct.py | 18 ++++++++++--------
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 47e144d..24c2d45 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -284,6 +284,8 @@ def fonts(doc: Doc) -> dict:
                 u = True
             else:
                 u = False
+            if type(o) != complex: #Not shared
+                o = (i, font)
             if o not in ret:
                 ret[o] = {'name': n,
                           'type': t,
@@ -291,7 +293,8 @@ def fonts(doc: Doc) -> dict:
                           'pages': [],
                           'to_unicode': u,
                           }
-            ret[o]['pages'].append(i)
+            if i not in ret[o]['pages']:
+                ret[o]['pages'].append(i)
     return ret
 
 
diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 99b327f..2109e27 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -374,7 +374,7 @@ def print_fonts(filename: str) -> None:
     table.append(['Name', 'Type', 'Encoding', 'Obj', 'Pages'])
     for iref in fs:
         f = fs[iref]
-        o_num = f"{int(iref.imag)},{int(iref.real)}"
+        o_num = f"{int(iref.imag)},{int(iref.real)}" if type(iref) == complex else '-'
         nb_pages = f"{len(f['pages'])}"
         table.append([f['name'], f['type'], f['encoding'], o_num, nb_pages])
     print_generic_table(table, [30, 10, 16, 8, 6])
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 499e854..9ff02a4 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -959,11 +959,13 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc = {}
     o = get_object(doc, iref)
     font_desc['iref'] = iref
-    font_desc['name'] = o['/BaseFont']
-    font_desc['type'] = o['/Subtype']
+    font_desc['name'] = get_object(doc, o.get('/BaseFont') or o.get('/Name')) or '/'
+    font_desc['type'] = get_object(doc, o['/Subtype'])
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
-    font_desc['encoding'] = o.get('/Encoding')
+    font_desc['encoding'] = get_object(doc, o.get('/Encoding'))
+    if is_null(font_desc['encoding']):
+        font_desc['encoding'] = None
     first_char = o.get('/FirstChar')
     #last_char = o.get('/LastChar')
     widths = o.get('/Widths')
@@ -1003,13 +1005,13 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
     Dict key is font name, for example /F1
     """
     ret = []
+    page_list = pages(doc)
     for page_num in page_nums:
-        fonts = {}
         font_res = {}
-        page_ref, _ = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref)['/Resources']
-        if resources:
-            fonts = get_object(doc, resources)['/Font']
+        resources = get_object(doc, page_list[page_num].get('/Resources'))
+        fonts = get_object(doc, resources.get('/Font')) if type(resources) == dict else None
+        if type(fonts) != dict:
+            fonts = {}
         for font in fonts:
             font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
-- 
2.43.0


From 5133c785e4680477043bc6706e341c0525c62cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:46 +0000
Subject: [PATCH 51/79] fix: names may hold any byte

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 2c8d125..0c807cc 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -212,7 +212,7 @@ def dedicated_type(text: bytes, type: str) -> Any:
     elif type == 'FALSE':
         return False
     elif type == 'KEYWORD' or type == 'NAME':
-        return text.decode('ascii')
+        return text.decode('latin-1')
     else:
         return text
 
@@ -490,7 +490,7 @@ def to_str(obj) -> bytes:
         s = f'{Decimal(str(obj)):f}' #no exponent in PDF
         return (s if '.' in s else s + '.0').encode('ascii')
     elif type(obj) == str:
-        return obj.encode('ascii')
+        return obj.encode('latin-1')
     elif type(obj) == complex:
         s = f'{int(obj.imag)} {int(obj.real)} R'
         return s.encode('ascii')
-- 
2.43.0


From 9cad464376db0767d1654c6b3b216b8eefada486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:49 +0000
Subject: [PATCH 52/79] fix: content streams are split into commands with
 operands, inline images and quote operators included, and text state is saved
 with the graphics state

---
 pdfsyntax/graphics.py | 47 ++++++++++++++++++++++++-------------------
 pdfsyntax/objects.py  |  2 +-
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 2462ae5..3cf3a92 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -1,10 +1,13 @@
 """ """
 
+import re
 from .objects import *
 from copy import deepcopy
 
 IDENTITY_MATRIX = [1, 0, 0, 1, 0, 0]
 
+TEXT_PARAMETERS = 'Tc Tw Th Tl Tf Tfs Tmode Trise'.split() #Part of the graphics state
+
 
 def multiply_matrices(m1: list, m2: list) -> list:
     """Multiply two 3x3 matrices to produce the new ctm.
@@ -27,7 +30,8 @@ def multiply_matrices(m1: list, m2: list) -> list:
 
 def trm(ts, gs):
     """Text rendering matrix."""
-    c = [ts['Tfs']*ts['Th']/100, 0, 0, ts['Tfs'], 0, ts['Trise']]
+    fs = ts['Tfs'] or 0
+    c = [fs*ts['Th']/100, 0, 0, fs, 0, ts['Trise']]
     res = multiply_matrices(c, ts['tm'])
     res = multiply_matrices(res, gs[-1]['ctm'])
     return res
@@ -51,9 +55,11 @@ def apply_command(command: list, graphics_state_stack: list, text_state: dict):
     current_state = graphics_state_stack[-1]
     if command[-1] == 'q':
         state_backup = deepcopy(current_state)
+        state_backup['text'] = {k: text_state[k] for k in TEXT_PARAMETERS}
         graphics_state_stack.append(state_backup)
     elif command[-1] == 'Q':
-        graphics_state_stack.pop()
+        if len(graphics_state_stack) > 1:
+            text_state.update(graphics_state_stack.pop()['text'])
     elif command[-1] == 'cm':
         operands = command[:7]
         new_ctm = multiply_matrices(operands, current_state['ctm'])
@@ -111,27 +117,26 @@ def parse_stream_content(content_stream: bytes) -> list:
     A command is a list made of operands followed by an operator, like [1, 0, 0, 1, 0, 0, 'cm']
     """
     ret = []
-    tokens = parse_obj(b'[' + content_stream + b'\n]')
-    i = len(tokens) - 1
-    section = None
     current = []
-    while i >= 0:
-        if type(tokens[i]) == str and tokens[i][0:1] != '/':
-            if current:
-                ret.insert(0, current)
-            current = [tokens[i]]
-            i -= 1
-            continue
-        if type(tokens[i]) != str or tokens[i][0:1] == '/':
-            current = [tokens[i]] + current
-            if i == 0 and current:
-                ret.insert(0, current)
-            i -= 1
-            continue
-            i -= 1
-        i -= 1
+    text = content_stream + b'\n'
+    i = 0
+    while i < len(text):
+        h, i, t = next_token(text, i)
+        if t is None: #End or unexpected closing bracket
+            i += 1
+        elif t == 'DICT' or t == 'ARRAY':
+            current.append(parse_obj(text[h:i]))
+        elif t != 'COMMENT':
+            token = dedicated_type(text[h:i], t)
+            current.append(token)
+            if t == 'KEYWORD' and token != 'null': #Operator
+                ret.append(current)
+                current = []
+                if token == 'ID': #Skip the data of an inline image
+                    end = re.compile(rb'[\x00\t\n\x0c\r ]EI(?=[\x00\t\n\x0c\r /\[(<])').search(text, i)
+                    i = end.start() + 1 if end else len(text)
     if current:
-        ret.insert(0, current)
+        ret.append(current)
     return ret
 
 
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 0c807cc..96f5aec 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -93,7 +93,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 i += offset
             elif single in b"+-.0123456789":
                 search = "VALUE"
-            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
+            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\"":
                 search = "KEYWORD"
             elif single in b"(":
                 search = "LSTRING"
-- 
2.43.0


From 544494850e58d0040da427414c859fdab635ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:58 +0000
Subject: [PATCH 53/79] fix: shown strings are split into the codes of their
 font, mapped with all forms of ToUnicode entries and measured with the right
 widths

---
 pdfsyntax/docstruct.py |  30 ++++---
 pdfsyntax/graphics.py  |   2 +-
 pdfsyntax/text.py      | 198 ++++++++++++++++++++++-------------------
 3 files changed, 124 insertions(+), 106 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 9ff02a4..b9e1e08 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -920,10 +920,7 @@ def prepare_w(w, default_w):
     """Decode widths for type0 / CID fonts."""
     i = 0
     width = {}
-    if not w:
-        def char_width_cid_default(character_num):
-            return 500
-        return char_width_cid_default
+    w = w or []
     while i < len(w):
         if type(w[i+1]) == list:
             current = w[i]
@@ -943,12 +940,12 @@ def prepare_w(w, default_w):
     return char_width_cid
 
 
-def prepare_widths(widths, first_char):
+def prepare_widths(widths, first_char, default_w=500):
     """Decode widths for simple fonts."""
     def char_width_table(character_num):
         offset = character_num-first_char
         if offset < 0 or offset >= len(widths):
-            return 500
+            return default_w
         else:
             return widths[offset]
     return char_width_table
@@ -971,13 +968,16 @@ def prepare_font(doc: Doc, iref) -> dict:
     widths = o.get('/Widths')
     descendant = o.get('/DescendantFonts')
     if widths:
-        font_desc['char_width'] = prepare_widths(get_object(doc, widths), get_object(doc, first_char))
+        widths = [get_object(doc, x) for x in get_object(doc, widths)]
+        descriptor = get_object(doc, font_desc['descriptor'])
+        missing = get_object(doc, descriptor.get('/MissingWidth', 500)) if type(descriptor) == dict else 500
+        font_desc['char_width'] = prepare_widths(widths, get_object(doc, first_char) or 0, missing)
     elif descendant:
         iref = get_object(doc, descendant)[0]
         d = get_object(doc, iref)
-        w = d.get('/W')
+        w = [get_object(doc, x) for x in get_object(doc, d.get('/W')) or []]
         dw = d.get('/DW', 1000)
-        font_desc['char_width'] = prepare_w(get_object(doc, w), get_object(doc, dw))
+        font_desc['char_width'] = prepare_w(w, get_object(doc, dw))
     else:
         #TODO Find standard fonts widths
         default_widths = [500] * 256
@@ -986,12 +986,18 @@ def prepare_font(doc: Doc, iref) -> dict:
         simple = False
     else:
         simple = True
-    if font_desc['to_unicode']:
-        cmap_stream = get_object(doc, font_desc['to_unicode'])
+    cmap_stream = get_object(doc, font_desc['to_unicode'])
+    if type(cmap_stream) == Stream:
         cmap = parse_obj(b'[' + cmap_stream['stream'] + b'\n]')
+        tounicode = prepare_tounicode(cmap)
         def dec_unicode_cmap(text):
-            return apply_tounicode(cmap, text, simple)
+            return decode_with_tounicode(tounicode, text, simple)
         font_desc['dec_fun'] = dec_unicode_cmap
+    elif not simple:
+        def dec_cid(text):
+            us, _ = apply_encoding(font_desc['encoding'], text)
+            return us, split_codes(string_bytes(text), [])
+        font_desc['dec_fun'] = dec_cid
     else:
         def dec_encoding(text):
             return apply_encoding(font_desc['encoding'], text)
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 3cf3a92..41e206e 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -59,7 +59,7 @@ def apply_command(command: list, graphics_state_stack: list, text_state: dict):
         graphics_state_stack.append(state_backup)
     elif command[-1] == 'Q':
         if len(graphics_state_stack) > 1:
-            text_state.update(graphics_state_stack.pop()['text'])
+            text_state.update(graphics_state_stack.pop().get('text', {}))
     elif command[-1] == 'cm':
         operands = command[:7]
         new_ctm = multiply_matrices(operands, current_state['ctm'])
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index f11ed28..20c5614 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -96,118 +96,130 @@ def encode_text_string(text: str) -> bytes:
 
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
-    s_string = string[1:-1]
-    if string[:1] == b'(':
-        s_string = unescape_literal_string(s_string)
-        return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
-    else:
-        return [int(s_string[j:j+word_l*2], 16) for j in range(0, len(s_string), word_l*2)]
+    s_string = string_bytes(string)
+    return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
 
 
 def apply_encoding(encoding: str, string: bytes) -> tuple:
-    """ """
-    s = string[1:-1]
-    s = unescape_literal_string(s)
+    """Decode string with a named encoding and return the text and the list of character codes."""
+    s = string_bytes(string)
+    if type(encoding) == dict:
+        encoding = encoding.get('/BaseEncoding')
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-        us = s.decode('cp1252')
+        us = ''.join([bytes([c]).decode('cp1252', 'ignore') or '\u2022' for c in s]) #Unused codes are bullets
     return us, list(s)
 
 
-def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
-    """ """
-    i = 0
-    word_l = 2 # in bytes
+def prepare_tounicode(cmap: list) -> tuple:
+    """List the code space ranges of a CMap and its ranges of character codes with their targets."""
+    codespaces = []
+    ranges = []
     section = None
-    tokens = []
+    i = 0
     while i < len(cmap):
-        if cmap[i] == 'begincodespacerange':
-            #word_l = (len(cmap[i+1])-2) // 2
-            #tokens = tokenize_string(string, word_l)
-            i += 4
-            continue
-        if cmap[i] == 'beginbfchar':
-            section = 'CHAR'
-            if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
-                tokens = tokenize_string(string, word_l)
-                tokens_backup = tokens.copy()
-            i += 1
-            continue
-        if section == 'CHAR' and cmap[i] != 'endbfchar':
-            for k, token in enumerate(tokens):
-                if token == int(cmap[i][1:-1], 16):
-                    tokens[k] = bytes.fromhex(cmap[i+1][1:-1].decode('ascii')).decode('utf-16be')
-            i += 2
-            continue
-        if section == 'CHAR' and cmap[i] == 'endbfchar':
+        token = cmap[i]
+        if type(token) == str and token.startswith('begin'):
+            section = token
+        elif type(token) == str and token.startswith('end'):
             section = None
+        elif section == 'begincodespacerange':
+            codespaces.append((string_bytes(token), string_bytes(cmap[i+1])))
             i += 1
-            continue
-        if cmap[i] == 'beginbfrange':
-            section = 'RANGE'
-            if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
-                tokens = tokenize_string(string, word_l)
-                tokens_backup = tokens.copy()
+        elif section == 'beginbfchar':
+            code = int.from_bytes(string_bytes(token), 'big')
+            ranges.append((code, code, cmap[i+1]))
             i += 1
-            continue
-        if section == 'RANGE' and cmap[i] != 'endbfrange':
-            for k, token in enumerate(tokens):
-                r_a = int(cmap[i][1:-1], 16)
-                r_z = int(cmap[i+1][1:-1], 16)
-                if type(token) == int and token >= r_a and token <= r_z:
-                    target = cmap[i+2]
-                    if type(target) == list:
-                        target = cmap[i+2]
-                        temp = target[token - r_a][1:-1]
-                        tokens[k] = bytes.fromhex(temp.decode('ascii')).decode('utf-16be')
-                    else:
-                        target = cmap[i+2][1:-1]
-                        x = int(target, 16) + (token - r_a)
-                        if word_l == 2:
-                            tokens[k] = bytes.fromhex(f'{x:04X}').decode('utf-16be')
-                        else:
-                            tokens[k] = bytes.fromhex(f'{x:02X}').decode('utf-16be')
-            i += 3
-            continue
-        if section == 'RANGE' and cmap[i] == 'endbfrange':
-            section = None
-            i += 1
-            continue
+        elif section == 'beginbfrange':
+            first = int.from_bytes(string_bytes(token), 'big')
+            last = int.from_bytes(string_bytes(cmap[i+1]), 'big')
+            ranges.append((first, last, cmap[i+2]))
+            i += 2
         i += 1
-    for j, t in enumerate(tokens):
-        if type(t) != str:
-            #for DEBUG
-            #tokens[j] = f"!!! {t} !!!"
-            tokens[j] = ''
-    return ''.join(tokens), tokens_backup
+    return codespaces, ranges
+
+
+def code_to_unicode(code: int, ranges: list) -> str:
+    """Find the text of a character code."""
+    for first, last, target in ranges:
+        if first <= code <= last:
+            if type(target) != list:
+                return cmap_target(target, code - first)
+            elif code - first < len(target):
+                return cmap_target(target[code-first])
+    return ''
+
+
+def cmap_target(string: bytes, offset: int = 0) -> str:
+    """Text denoted by the target of a CMap entry, the last character being shifted by offset."""
+    b = string_bytes(string)
+    b = (int.from_bytes(b, 'big') + offset).to_bytes(len(b) + 1, 'big')[-len(b):] if b else b
+    if len(b) == 1:
+        return b.decode('latin-1')
+    return b.decode('utf-16be', 'ignore')
+
+
+def split_codes(string: bytes, codespaces: list) -> list:
+    """Split bytes into character codes whose lengths are given by code space ranges."""
+    codes = []
+    default = min([len(first) for first, _ in codespaces], default=2) or 1
+    i = 0
+    while i < len(string):
+        size = default
+        for first, last in codespaces:
+            c = string[i:i+len(first)]
+            if len(c) == len(first) > 0 and all(first[k] <= c[k] <= last[k] for k in range(len(c))):
+                size = len(c)
+                break
+        codes.append(int.from_bytes(string[i:i+size], 'big'))
+        i += size
+    return codes
+
+
+def decode_with_tounicode(tounicode: tuple, string: bytes, simple: bool = False) -> tuple:
+    """Decode string with a prepared ToUnicode CMap and return the text and the list of character codes."""
+    codespaces, ranges = tounicode
+    s = string_bytes(string)
+    codes = list(s) if simple else split_codes(s, codespaces)
+    return ''.join([code_to_unicode(c, ranges) for c in codes]), codes
+
+
+def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
+    """Decode string with a ToUnicode CMap and return the text and the list of character codes."""
+    return decode_with_tounicode(prepare_tounicode(cmap), string, simple)
 
 
 def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
-    """ """
-    font = ts['Tf']
+    """Return the text shown by a command and its width in text space units for a font size of 1."""
+    ustring, width, _ = show_text_element(fonts, element, ts)
+    return ustring, width
+
+
+def show_text_element(fonts: dict, element: list, ts: dict) -> tuple:
+    """Return the text shown by a command, its width and the list of shown character codes."""
+    font = fonts.get(ts['Tf'], DEFAULT_FONT)
     ustring = ''
     width = 0
-    if element[-1] == 'Tj':
-            t = element[-2]
-            us, chars = fonts[font]['dec_fun'](t)
+    codes = []
+    operand = element[-2]
+    for t in operand if type(operand) == list else [operand]:
+        if type(t) == bytes:
+            us, chars = font['dec_fun'](t)
             ustring += us
+            codes += chars
             for c in chars:
-                width += fonts[font]['char_width'](c) / 1000
-    elif element[-1] == 'TJ':
-        for t in element[-2]:
-            if type(t) == bytes:
-                us, chars = fonts[font]['dec_fun'](t)
-                ustring += us
-                for c in chars:
-                    width += fonts[font]['char_width'](c) / 1000
-            else:
-                space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
-                t -= space_char_width * 0.2
-                if t <= -space_char_width:
-                    nb_char = int(-t) // int(space_char_width)
-                    ustring += ' ' * nb_char
-                width -= t/1000
-    return ustring, width
+                width += font['char_width'](c) / 1000
+        else:
+            space_char_width = font['char_width'](32) # char 32 is SPACE
+            gap = -t + space_char_width * 0.2
+            if space_char_width > 0 and gap >= space_char_width:
+                ustring += ' ' * int(gap // space_char_width)
+            width -= t / 1000
+    return ustring, width, codes
+
+
+DEFAULT_FONT = {
+    'dec_fun': lambda string: apply_encoding(None, string),
+    'char_width': lambda code: 500,
+}
-- 
2.43.0


From 58953d95cc27fa3a8101b18a892538a9da46468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:29 +0000
Subject: [PATCH 54/79] fix: text extraction: pages without content or font,
 every show operator, string displacement and line grouping

---
 pdfsyntax/api.py    | 22 +++++++++-------------
 pdfsyntax/layout.py |  5 ++++-
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 24c2d45..b88b22e 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -325,16 +325,13 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
     """List all content streams of a page."""
     ret = []
     pages = flat_page_tree(doc)
-    i_c = get_object(doc, pages[page_num][0])['/Contents']
-    if type(i_c) == complex:
+    i_c = get_object(doc, get_object(doc, pages[page_num][0]).get('/Contents'))
+    if type(i_c) != list:
         i_c = [i_c]
     for content in i_c:
         c2 = get_object(doc, content)
-        if type(c2) != list:
-            c2 = [c2]
-        for content2 in c2:
-            c3 = get_object(doc, content2)
-            ret.append(c3)
+        if type(c2) == Stream:
+            ret.append(c2)
     return ret
 
 
@@ -349,9 +346,7 @@ def build_text_fragments(page_contents: list, f: list):
     tfs = []
     gs = []
     ts = {}
-    c_all = b''
-    for c in page_contents:
-        c_all += c['stream']
+    c_all = b'\n'.join([c['stream'] for c in page_contents])
     t =parse_stream_content(c_all)
     for te in t:
         if te[-1] not in 'lmchnfgGref*':
@@ -359,11 +354,12 @@ def build_text_fragments(page_contents: list, f: list):
              pass
         apply_command(te, gs, ts)
         #print(ts['tm'])
-        if te[-1] == 'TJ' or te[-1] == 'Tj':
+        if te[-1] in ('TJ', 'Tj', "'", '"'):
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
-            uc, displacement = text_element_to_unicode(f[0], te, ts)
-            tx = (displacement * ts['Tfs'] + ts['Tc'] + ts['Tw']) * ts['Th'] / 100
+            uc, displacement, codes = show_text_element(f[0], te, ts)
+            spacing = ts['Tc'] * len(codes) + ts['Tw'] * codes.count(32)
+            tx = (displacement * (ts['Tfs'] or 0) + spacing) * ts['Th'] / 100
             ty = 0 #TODO
             ts['tm'] = multiply_matrices([1, 0, 0, 1, tx, ty], ts['tm'])
             new_trm = trm(ts, gs)
diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0654969..42a1668 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -13,7 +13,10 @@ def basic_spatial_layout(text_blocks: list) -> str:
     fs = typical_font_size(text_blocks)
     spacing = typical_line_spacing(text_blocks, fs)
     #print(f"spacing = {spacing}")
+    spacing = spacing if spacing > 0 else 1
+    tolerance = min(spacing, fs) * 0.9 if fs > 0 else spacing * 0.9
     char_w = typical_char_width(text_blocks, fs)
+    char_w = char_w if char_w > 0 else max(fs / 2, 1)
     #print(f"char w = {char_w}")
     previous_y = -1
     while text_blocks:
@@ -27,7 +30,7 @@ def basic_spatial_layout(text_blocks: list) -> str:
         #print("-----------------------------------")
         #print(line_items[0])
         while text_blocks:
-            if abs(target_y - text_blocks[0]['y']) > spacing * 0.9:
+            if abs(target_y - text_blocks[0]['y']) > tolerance:
                 break
             line_items.append(text_blocks.pop(0))
             #print(line_items[-1])
-- 
2.43.0


From a7f65ef228ea4872856c12c4c15f222cf8eccf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:51 +0000
Subject: [PATCH 55/79] fix: page layouts: /MediaBox and /Rotate given by
 reference

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index b88b22e..5ea2119 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -179,7 +179,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(p['/MediaBox'], p.get('/Rotate')) for p in pl]
+    med = [tuple(get_object(doc, p.get(k)) for k in ('/MediaBox', '/Rotate')) for p in pl]
     return med
 
 
-- 
2.43.0


From f11b284ee114127979681aeca1a4534c4e8fe1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:59 +0000
Subject: [PATCH 56/79] fix: rotation of a page whose /Rotate is null

---
 pdfsyntax/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 5ea2119..395aed1 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -179,7 +179,10 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [tuple(get_object(doc, p.get(k)) for k in ('/MediaBox', '/Rotate')) for p in pl]
+    med = []
+    for p in pl:
+        attrs = [get_object(doc, p.get(k)) for k in ('/MediaBox', '/Rotate')]
+        med.append(tuple(None if is_null(a) else a for a in attrs))
     return med
 
 
-- 
2.43.0


From 1de76afa3ae0290692eb456a5d9c0b9fd8ac902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:27 +0000
Subject: [PATCH 57/79] fix: annotation of a page whose /Annots is a direct
 array or null

---
 pdfsyntax/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 395aed1..5b94224 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -246,11 +246,15 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
     doc, a_iref = add_object(doc, annot)
     page_ref, _ = flat_page_tree(doc)[page_num]
     new_page = deepcopy(get_object(doc, page_ref))
-    if '/Annots' in new_page:
-        annot_obj = new_page['/Annots']
-        new_array = deepcopy(get_object(doc, new_page['/Annots']))
+    annot_obj = new_page.get('/Annots')
+    if not is_null(get_object(doc, annot_obj)):
+        new_array = deepcopy(get_object(doc, annot_obj))
         new_array.append(a_iref)
-        doc = update_object(doc, int(annot_obj.imag), new_array)
+        if type(annot_obj) == complex:
+            doc = update_object(doc, int(annot_obj.imag), new_array)
+        else:
+            new_page['/Annots'] = new_array
+            doc = update_object(doc, int(page_ref.imag), new_page)
     else:
         annot_array = [a_iref]
         doc, aa_iref = add_object(doc, annot_array)
-- 
2.43.0


From e735918c724b8776585fd8dd6f604127b0f3ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:13 +0000
Subject: [PATCH 58/79] fix: metadata of a document whose /Info is null

---
 pdfsyntax/docstruct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b9e1e08..fee43ec 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -503,9 +503,9 @@ def catalog(doc: Doc):
 def info(doc: Doc):
     """Return doc Info dictionary if present."""
     trail = trailer(doc)
-    info = trail.get('/Info')
-    if info:
-        return get_object(doc, info)
+    info = get_object(doc, trail.get('/Info'))
+    if not is_null(info):
+        return info
 
 
 def number_pages(doc: Doc):
-- 
2.43.0


From 14529090ac81961caeae3af4f2a98a66a54ad79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:24 +0000
Subject: [PATCH 59/79] fix: the last comment of a file is recognised without a
 line ending

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 96f5aec..8d67f27 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -175,6 +175,8 @@ def next_token(text: bytes, i=0) -> tuple:
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
         i += 1
+    if search == "COMMENT":
+        return (h, i, 'COMMENT')
     return (h, i, None)
 
 
-- 
2.43.0


From 7c13242509d3915fdccce237f52b88b700494493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:26 +0000
Subject: [PATCH 60/79] fix: streams with an indirect length are delimited
 correctly in the file map

---
 pdfsyntax/filestruct.py |  6 +++++-
 pdfsyntax/objects.py    | 27 +++++++++++++++++++--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index bc7ad18..ff1d3fc 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -5,6 +5,7 @@ from typing import IO
 from .objects import *
 import os
 import math
+import re
 from copy import deepcopy
 from .filters import *
 
@@ -101,9 +102,12 @@ def file_object_map(fdata: Callable) -> list:
     """Parse whole file in sequential order without using xref."""
     sections = []
     bdata, _, _, length = fdata(0, -1) #Read all
+    integers = {} #candidates for indirect stream lengths
+    for o_num, o_gen, value in re.findall(rb'(\d+)\s+(\d+)\s+obj\s+(\d+)\s+endobj', bdata):
+        integers.setdefault(complex(int(o_gen), int(o_num)), []).append(int(value))
     i = 0
     while i < length:
-        mo = parse_region(bdata, i)
+        mo = parse_region(bdata, i, integers.get)
         if mo is None:
             break
         bo, eo, t, content = mo
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 8d67f27..d085823 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -219,8 +219,13 @@ def dedicated_type(text: bytes, type: str) -> Any:
         return text
 
 
-def stream_payload(text: bytes, start: int, length: int) -> tuple:
-    """Return content and end position of a stream whose length leads to endstream (None otherwise)."""
+def stream_payload(text: bytes, start: int, length) -> tuple:
+    """Return content and end position of a stream whose length leads to endstream (None otherwise).
+
+    length may be a list of candidates.
+    """
+    if type(length) == list:
+        return next(filter(None, (stream_payload(text, start, x) for x in length)), None)
     if type(length) != int or length < 0:
         return None
     i = start + len(b'stream')
@@ -329,8 +334,11 @@ def parse_obj(text: bytes, start=0, resolve=None) -> Any:
         return dedicated_type(text[h1:j1], t1)
 
 
-def parse_indirect_obj(text: bytes, start=0) -> tuple:
-    """Recursively parse indirect object starting at X Y R."""
+def parse_indirect_obj(text: bytes, start=0, resolve=None) -> tuple:
+    """Recursively parse indirect object starting at X Y R.
+
+    resolve is an optional function that gives the target of an indirect /Length.
+    """
     bl, el = next_line(text, start)
     bo = bl
     i1, j1, _ = next_token_no_comment(text, start) #o_num
@@ -339,10 +347,13 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     o_gen = int(text[i2:j2])
     i, j, _ = next_token_no_comment(text, j2) #obj
     i, j, _ = next_token_no_comment(text, j) #object1
-    o = parse_obj(text, i)
+    o = parse_obj(text, i, resolve)
     i, j, t = next_token_no_comment(text, j)
     if t == 'STREAM':
-        payload = stream_payload(text, i, o['entries'].get('/Length'))
+        length = o['entries'].get('/Length')
+        if resolve and type(length) == complex:
+            length = resolve(length)
+        payload = stream_payload(text, i, length)
         if payload:
             _, j = payload
         _, j, _ = next_token_no_comment(text, j) #endobj
@@ -445,7 +456,7 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
     return (start_pos, None, 'XREFSTREAM', {'table': res, 'trailer': xref_stream['entries']})
 
 
-def parse_region(text: bytes, start=0) -> tuple:
+def parse_region(text: bytes, start=0, resolve=None) -> tuple:
     """Recursively parse bytes into macro PDF objects (indirect/xref/xref table/startxref)."""
     PERCENT = b'%'
     STARTXREF = b'startxref'
@@ -470,7 +481,7 @@ def parse_region(text: bytes, start=0) -> tuple:
         i2, j2, _ = next_token_no_comment(text, j1)
         i3, j3, t = next_token_no_comment(text, j2)
         if t == 'KEYWORD' and text[i3:j3] == OBJ:
-            ind_o = parse_indirect_obj(text, bl)
+            ind_o = parse_indirect_obj(text, bl, resolve)
             return ind_o
         else:
             return None
-- 
2.43.0


From 2021a8a7976140c4cf4bd6d71681c199039f151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:27 +0000
Subject: [PATCH 61/79] fix: empty subsections of a cross-reference stream
 index

---
 pdfsyntax/objects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index d085823..d2c7ba2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -411,9 +411,8 @@ def expand_xref_index(xref_index: list) -> list:
     while i < len(xref_index):
         o_num = xref_index[i]
         i += 1
-        res.append((o_num, subsection))
-        for j in range(xref_index[i]-1):
-            res.append((o_num+j+1, subsection))
+        for j in range(xref_index[i]):
+            res.append((o_num+j, subsection))
         i += 1
         subsection += 1
     return res
-- 
2.43.0


From 592fe6298c0e19004c5f98bf2822e90115abc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:45 +0000
Subject: [PATCH 62/79] fix: the disassembly marks exactly the wrong entries
 and the objects that are not indexed

---
 pdfsyntax/cli.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 2109e27..9d11686 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -199,7 +199,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
     dir_not_indexed = {x for t, _, _, x in check_not_indexed_objects(sections, i) if t == 'DIR'}
-    emb_not_indexed = {(e, n) for t, n, e, _ in check_not_indexed_objects(sections, i) if t == 'EMB'}
+    emb_not_indexed = {(e, n, x) for t, n, e, x in check_not_indexed_objects(sections, i) if t == 'EMB'}
     lines = []
     for start_pos, end_pos, region_type, content in sections:
         pos = start_pos
@@ -240,10 +240,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                  'region_type': region_type.lower(), 'detail': detail
                  }
             lines.append(l)
-            if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
-            else:
-                wt = set()
+            wt = wrong_targets.get(pos, [])
             for x in content['table']:
                 st = '-@'
                 if len(x) == 2:
@@ -258,7 +255,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if s == b'n' and ('DIR', x_num, x_gen, index) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'region_type': region_type.lower(),
                      'iref': iref, 'addr': addr, 'cl': cl, 'st': st
@@ -277,7 +274,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 macro_ind = '-'
                 env_pos, pos, seq_num = end_pos
                 env_iref = f"{env_num},"
-                if (env_num, seq_num) in emb_not_indexed:
+                if (env_num, content['o_num'], seq_num) in emb_not_indexed:
                     st = '?-'
             else:
                 if pos in dir_not_indexed:
@@ -313,10 +310,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
             lines.append(l)
         elif region_type == 'XREFSTREAM':
             trailer = content['trailer']
-            if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
-            else:
-                wt = set()
+            wt = wrong_targets.get(pos, [])
             for x in content['table']:
                 st = '-@'
                 _, _, _, y = x
@@ -331,7 +325,8 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                key = ('EMB', x_num, env_num, index) if env_num else ('DIR', x_num, x_gen, index)
+                if s == b'n' and key in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'pos': pos,
                      'region_type': region_type.lower(), 'iref': iref,
-- 
2.43.0


From 10a3f47d78064368e61cfb101ccd5f7d160bcc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:10 +0000
Subject: [PATCH 63/79] fix: nothing taken from the file is interpreted as
 markup in the browsable view

---
 pdfsyntax/display.py  | 32 +++++++++++++++++---------------
 pdfsyntax/graphics.py |  1 +
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..395f3c6 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -290,7 +290,7 @@ def build_nav_objects(articles) -> str:
                 c = c['entries']
             t = c.get("/Type", "")
         ret += '<li>'
-        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
+        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {html.escape(str(t))}'
         ret += '</li>\n'
     ret += '</ul>\n'
     ret += '</pre>\n'
@@ -330,7 +330,7 @@ def build_nav_info(structure, file_size) -> str:
     attrs.append(f'{"Linearized: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"])}')
     attrs.append(f'{"File size: ":{INFO_MAX_WIDTH}}{file_size} bytes')
     for x in attrs:
-        ret += f' <li class="">{x}</li>'
+        ret += f' <li class="">{html.escape(x)}</li>'
     ret += '</ul>\n'
     ret += '</pre>\n'
     ret += '</details>\n'
@@ -359,7 +359,7 @@ def build_header(filename: str) -> str:
     ret = ''
     ret += f'<div class="header b3">\n'
     ret += f'<pre>\n'
-    ret += f'{os.path.basename(filename)} - '
+    ret += f'{html.escape(os.path.basename(filename))} - '
     ret += f'internal view generated by '
     ret += f'<a href="https://pdfsyntax.dev">PDFSyntax</a>\n'
     ret += f'</pre>\n'
@@ -390,7 +390,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = html.escape(comment[:10].decode('ascii'))
     except:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
@@ -494,19 +494,19 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         keys = move_list_item(keys, '/Type', 0)
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
-            name = i #name = i.decode('ascii')
+            name = html.escape(f'{i:{NAME_MAX_WIDTH}}') #name = i.decode('ascii')
             value = follow_obj(obj[i], index, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
-            if name == '/Type' or name == '/Subtype':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
-            elif name == '/JS':
-                ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
+            if i == '/Type' or i == '/Subtype':
+                ret += f'  {name}<span class="important">{value}</span>\n'
+            elif i == '/JS':
+                ret += f'  <span class="warning">{name}</span>{value}\n'
             elif value == '/JavaScript':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
-            elif name == '/Prev':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
+                ret += f'  {name}<span class="warning">{value}</span>\n'
+            elif i == '/Prev' and type(obj[i]) == int and '/Root' in obj and '/Size' in obj: #trailer
+                ret += f'  {name}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
-                ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
+                ret += f'  {name}{value}\n'
         ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
         ret += '&gt;&gt;'
         if content and display_stream:
@@ -525,8 +525,10 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         for i in obj:
             value = follow_obj(i, index)
             ret += f'{value} '
-        if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
-            ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
+        if '<' not in ret: #no markup
+            text = html.unescape(ret)
+            if len(text) > VALUE_MAX_WIDTH:
+                ret = html.escape(text[:VALUE_MAX_WIDTH]) + TRUNCATED
         ret += ']'        
     else:
         comment = False
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 41e206e..51df0cc 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -149,6 +149,7 @@ def printable_stream_content(content_stream: bytes, escape = True) -> str:
             return None
     ret = c.decode('latin-1')
     if escape:
+        ret = ret.replace('&', '&amp;')
         ret = ret.replace('<', '&lt;')
         ret = ret.replace('>', '&gt;')
     return ret
-- 
2.43.0


From bda6f182006e87f93aefa94f13d3c12e6e262a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:12 +0000
Subject: [PATCH 64/79] fix: links of the browsable view lead to the right
 objects, and references to missing objects are plain text

---
 pdfsyntax/api.py     | 34 ++++++++++++---------
 pdfsyntax/display.py | 72 ++++++++++++++++++++++++++++++++------------
 2 files changed, 72 insertions(+), 34 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 5b94224..4c8558e 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -403,20 +403,14 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
 def find_xref_table_pos_in_index(xref_table_pos, index):
     """."""
     found = None
-    obj = index[0][0]
-    if type(obj) == dict:
-        obj_list = [obj]
-    else:
-        obj_list = obj
-    for o in obj_list:
-        if o.get('xref_table_pos') == xref_table_pos:
-            found = (0, 0)
-    for ver in range(1, len(index)):
+    for ver in range(len(index)):
         obj = index[ver][0]
         if obj is None:
             continue
-        if obj.get('xref_table_pos') == xref_table_pos:
-            found = (0, ver)
+        obj_list = [obj] if type(obj) == dict else obj
+        for o in obj_list:
+            if o.get('xref_table_pos') == xref_table_pos:
+                found = (0, ver)
     return found
 
 
@@ -438,6 +432,14 @@ def find_abs_pos_in_index(abs_pos, index):
     return found
 
 
+def find_target_pos(iref, current):
+    """Position of the target of a reference in a revision (None if the object does not exist)."""
+    o_num = int(iref.imag)
+    if o_num < 1 or o_num >= len(current) - 1 or current[o_num] is None or 'DELETED' in current[o_num]:
+        return None
+    return current[o_num].get('abs_pos')
+
+
 def cross_map_index(sections, index):
     """."""
     ret = {}
@@ -457,14 +459,16 @@ def cross_map_index(sections, index):
             ret[abs_pos] = o_num, relevance, targets, []
     for abs_pos in ret:
         o_num, relevance, targets, _ = ret[abs_pos]
+        if relevance is None: #not indexed
+            continue
         _, ver = relevance
         if ver < len(index) - 1:
             continue
         for target in targets:
-            target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
-            _, _, _, target_used_by = ret[target_pos]
-            target_used_by.append((o_num, abs_pos))
+            target_pos = find_target_pos(target, index[-1])
+            if target_pos in ret:
+                _, _, _, target_used_by = ret[target_pos]
+                target_used_by.append((o_num, abs_pos))
     return ret
 
 
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 395f3c6..42846d5 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -4,7 +4,7 @@ import os
 import html
 from .objects import Stream
 from .graphics import printable_stream_content
-from .api import bool2yesno
+from .api import bool2yesno, find_target_pos
 
 
 NAME_MAX_WIDTH = 20
@@ -218,8 +218,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
                 page += add_comment(article)
         elif typ == 'IND_OBJ':
             page += build_obj_header(article, index, cross)
-            _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            ver = find_revision(abs_pos, cross)
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
                 page += follow_obj(o, index[ver], display_stream=False)
@@ -231,10 +230,16 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
             page += build_obj_header(article, index, cross)
             page += build_xref_table(content['table'], index)
             page += "\ntrailer\n"
+            ver = find_revision(abs_pos, cross)
             page += follow_obj(content['trailer'], index[ver])
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
-            page += build_xref_stream(content['table'], index)
+            _, relevance, _, _ = cross[abs_pos]
+            doc_ver = None
+            if relevance:
+                o_num, ver = relevance
+                doc_ver = index[ver][o_num]['doc_ver']
+            page += build_xref_stream(content['table'], index, doc_ver)
             page += '\n\nendobj'
             page += build_obj_trailer()
     page += build_header(filename)
@@ -248,6 +253,12 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
     return page
 
 
+def find_revision(abs_pos, cross: dict) -> int:
+    """Last revision that uses this section (last revision of file if not indexed)."""
+    _, relevance, _, _ = cross[abs_pos]
+    return relevance[1] if relevance else -1
+
+
 def build_nav_pages(pages, index) -> str:
     """."""
     ret = '\n'
@@ -439,7 +450,18 @@ def build_xref_table(table: list, index: list) -> str:
     return ret
 
 
-def build_xref_stream(table: list, index: list) -> str:
+def find_embedded(o_num: int, env_num: int, o_pos: int, index: list, doc_ver: int) -> dict:
+    """Find the index entry of an embedded object, preferably the one added by revision doc_ver."""
+    found = None
+    for current in index:
+        entry = current[o_num] if o_num < len(current) - 1 else None
+        if entry and entry.get('env_num') == env_num and entry.get('o_pos') == o_pos:
+            if found is None or entry['doc_ver'] == doc_ver:
+                found = entry
+    return found
+
+
+def build_xref_stream(table: list, index: list, doc_ver: int) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
     ret += '\nstream\n\n'
@@ -447,14 +469,16 @@ def build_xref_stream(table: list, index: list) -> str:
         _, _, _, y = x
         _, pos, o_num, o_gen, st, env_num, raw_line = y
         if o_num != 0:
+            target = pos if st != b'f' else None
             if env_num:
-                #abs_pos = envs[env_num] + (pos + 1) / 10000
-                #ret += f'<a href="#idx{abs_pos}">'
-                ret += f'<a href="#obj{o_num}.{o_gen}.0">'
+                entry = find_embedded(o_num, env_num, pos, index, doc_ver)
+                target = entry['abs_pos'] if entry else None
+            if target is None:
+                ret += f'#{o_num} {o_gen}'
             else:
-                ret += f'<a href="#idx{pos}">'
-            ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
-            ret += '</a>'
+                ret += f'<a href="#idx{target}">'
+                ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
+                ret += '</a>'
             ret += '    '
             if env_num:
                 ret += f'In object stream {env_num} at {pos:010} {st.decode("ascii")}\n'
@@ -480,7 +504,9 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     if isinstance(obj, complex):
         o_num = int(obj.imag)
         o_gen = int(obj.real)
-        abs_pos = index[o_num].get('abs_pos')
+        abs_pos = find_target_pos(obj, index)
+        if abs_pos is None: #same as null
+            return f'{o_num} {o_gen} R'
         ret += f'<a href="#idx{abs_pos}">'
         ret += f'<span class="obj-link">{o_num} {o_gen} R</span>'
         ret += '</a>'
@@ -557,6 +583,16 @@ def build_xref_item_header() -> str:
     return ret
 
 
+def build_obj_anchor(pos, index, cross) -> str:
+    """Open the element that identifies an object version."""
+    _, relevance, _, _ = cross[pos]
+    if relevance is None: #not indexed
+        return f'<div>\n'
+    o_num, ver = relevance
+    entry = index[ver][o_num]
+    return f'<div id="obj{o_num}.{entry["o_gen"]}.{entry["o_ver"]}">\n'
+
+
 def build_obj_header(article, index, cross) -> str:
     """Add opening elements to object."""
     pos, addon, typ, obj = article
@@ -574,13 +610,11 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<div>\n'
         ret += f'<pre>\n'
     elif type(pos) == int:
-        _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = index[ver][o_num]['o_gen']
-        o_ver = index[ver][o_num]['o_ver']
+        _, _, _, used_by = cross[pos]
+        o_num, o_gen = obj['o_num'], obj['o_gen']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += build_obj_anchor(pos, index, cross)
         ret += f'<pre>\n'
         ret += f'<span class="c1">{pos:010d}</span>'
         ret += f'<span class="obj-header b0"><strong>{o_num}</strong> '
@@ -595,11 +629,11 @@ def build_obj_header(article, index, cross) -> str:
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = obj['o_num'], 0, 0
+        o_num, o_gen = obj['o_num'], 0
         _, _, _, used_by = cross[pos]
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += build_obj_anchor(pos, index, cross)
         ret += f'<pre>\n'
         embedded = f'{obj["env_num"]} #{seq}'
         ret += f'<span class="c1">{embedded:10}</span>'
-- 
2.43.0


From b659fb28d9053258df82587c5604bf335755c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:55 +0000
Subject: [PATCH 65/79] fix: hybrid files are detected whatever the revision

---
 pdfsyntax/docstruct.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index fee43ec..c454965 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -488,10 +488,11 @@ def encrypted(doc: Doc) -> bool:
 
 def hybrid(doc: Doc) -> bool:
     """Detect if doc is hybrid."""
-    if len(doc.index) >= 2 and doc.index[1][0].get('xref_stm'):
-        return True
-    else:
-        return False
+    for rev in doc.index:
+        entries = rev[0] if type(rev[0]) == list else [rev[0]]
+        if any(e and e.get('xref_stm') for e in entries):
+            return True
+    return False
 
 
 def catalog(doc: Doc):
-- 
2.43.0


From 137921b3b1967861a1db36c8abe68e185ef8ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:57 +0000
Subject: [PATCH 66/79] fix: a null Encrypt entry does not make a document
 encrypted

---
 pdfsyntax/docstruct.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c454965..dbe0792 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -479,11 +479,8 @@ def trailer(doc: Doc):
 def encrypted(doc: Doc) -> bool:
     """Detect if doc is encrypted."""
     trail = trailer(doc)
-    encrypt = trail.get('/Encrypt')
-    if encrypt:
-        return True
-    else:
-        return False
+    encrypt = get_object(doc, trail.get('/Encrypt'))
+    return not is_null(encrypt)
 
 
 def hybrid(doc: Doc) -> bool:
-- 
2.43.0


From cae351f2156804cd362a66b52d7330f9ddf46403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:59 +0000
Subject: [PATCH 67/79] fix: indirect Version entry of the catalog

---
 pdfsyntax/docstruct.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index dbe0792..76f0f4b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -446,16 +446,19 @@ def version(doc: Doc) -> str:
     bdata, a0, _, _ = fdata(5, 3)
     ver = bdata[a0:a0+3]
     cat, _ = catalog(doc)
-    if '/Version' in cat and cat['/Version'][1:] > ver.decode('ascii'):
-            return cat['/Version'][1:]
+    cat_ver = get_object(doc, cat.get('/Version'))
+    if not is_null(cat_ver) and cat_ver[1:] > ver.decode('ascii'):
+            return cat_ver[1:]
     return ver.decode('ascii')
 
 
 def update_version(doc: Doc, ver: str) -> Doc:
     """Upgrade PDF version in incremental update."""
     cat, i_ref = catalog(doc)
-    if '/Version' in cat:
-        if cat['/Version'][1:] < ver:
+    cat = deepcopy(cat)
+    cat_ver = get_object(doc, cat.get('/Version'))
+    if not is_null(cat_ver):
+        if cat_ver[1:] < ver:
             cat['/Version'] = '/' + ver
             return update_object(doc, int(i_ref.imag), cat)
         else:
-- 
2.43.0


From 74b112f34dd0474d9957cac4caacb8569f926fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:01 +0000
Subject: [PATCH 68/79] fix: linearization dictionary after any number of
 comments

---
 pdfsyntax/filestruct.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ff1d3fc..4bb7821 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -630,11 +630,10 @@ def linearized(fdata: Callable) -> dict:
     """ """
     HEADER = b'%PDF-X.Y'
     bdata, a0, o0, _ = fdata(len(HEADER), 1024 - len(HEADER))
-    i, j, _ = next_token(bdata, a0) #comment
-    i, j, _ = next_token(bdata, j)  #o_num
-    i, j, _ = next_token(bdata, j)  #gen_num
-    i, j, _ = next_token(bdata, j)  #obj keyword
-    i, j, t = next_token(bdata, j)  #dict ?
+    i, j, _ = next_token_no_comment(bdata, a0) #o_num
+    i, j, _ = next_token_no_comment(bdata, j)  #gen_num
+    i, j, _ = next_token_no_comment(bdata, j)  #obj keyword
+    i, j, t = next_token_no_comment(bdata, j)  #dict ?
     if t == 'DICT':
         o = bdata[i:j]
         first_obj = parse_obj(o)
-- 
2.43.0


From 3384d60715918eb7ebec245bfd1e1016f82be407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:03 +0000
Subject: [PATCH 69/79] fix: paper of a page whose box has swapped corners or
 indirect numbers

---
 pdfsyntax/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 4c8558e..7a8d2ee 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -142,7 +142,8 @@ def structure(doc: Doc) -> dict:
         ret['Linearized'] = True
     else:
         ret['Linearized'] = False
-    ret['Paper of 1st page'] = paper(page_layouts(doc, 1)[0][0])
+    mediabox = page_layouts(doc, 1)[0][0]
+    ret['Paper of 1st page'] = paper([get_object(doc, x) for x in mediabox])
     return ret
 
 
@@ -167,7 +168,7 @@ def metadata(doc: Doc) -> dict:
 
 def paper(mediabox: list) -> str:
     """Detect paper size."""
-    x, y = mediabox[2] - mediabox[0], mediabox[3] - mediabox[1]
+    x, y = abs(mediabox[2] - mediabox[0]), abs(mediabox[3] - mediabox[1])
     ptype = 'unknown'
     for t in PAPER_SIZES:
         if PAPER_SIZES[t] == (x, y):
-- 
2.43.0


From e7aaba4f542274edd64effed98d6d87093aa7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:31 +0000
Subject: [PATCH 70/79] fix: null fonts and null Unicode mappings

---
 pdfsyntax/docstruct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 76f0f4b..2ef0057 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -961,6 +961,8 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc['type'] = get_object(doc, o['/Subtype'])
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
+    if is_null(get_object(doc, font_desc['to_unicode'])):
+        font_desc['to_unicode'] = None
     font_desc['encoding'] = get_object(doc, o.get('/Encoding'))
     if is_null(font_desc['encoding']):
         font_desc['encoding'] = None
@@ -1020,6 +1022,7 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
         if type(fonts) != dict:
             fonts = {}
         for font in fonts:
-            font_res[font] = prepare_font(doc, fonts[font])
+            if not is_null(get_object(doc, fonts[font])):
+                font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
     return ret
-- 
2.43.0


From ecb726b4ef26a1afa36f69e0b7749f1f4e7bba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:04:14 +0000
Subject: [PATCH 71/79] fix: a hybrid section's stream can free objects

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 4bb7821..3940695 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -321,7 +321,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         if x[0].get('xref_stm'): #Hybrid: the stream completes the table
             p = new_xref_seq[-1]
             in_table = {obj['o_num'] for obj in x if 'DELETED' not in obj}
-            in_stm = [obj for obj in p[1:-1] if obj['o_num'] not in in_table and 'DELETED' not in obj]
+            in_stm = [obj for obj in p[1:-1] if obj['o_num'] not in in_table]
             hidden = {obj['o_num'] for obj in in_stm}
             new_xref_seq[-1] = [obj for obj in x[:-1] if obj['o_num'] not in hidden] + in_stm + x[-1:]
         else:
-- 
2.43.0


From b48821a2b6af82346f9aba959acf728d8d2778c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:08:26 +0000
Subject: [PATCH 72/79] fix: reading past the end of a merged document gives
 nothing

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 2ef0057..fb2d26a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -551,6 +551,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
         size = index + len(bdata)
         if start_pos < 0:
             start_pos = max(start_pos + size, 0)
+        start_pos = min(start_pos, size)
         if length == -1 or length > size - start_pos:
             length = size - start_pos
         if start_pos >= index:
-- 
2.43.0


From e7f6b453cb28fa0bba4121a483f4597093518ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:17:01 +0000
Subject: [PATCH 73/79] fix: indirect stream lengths are found in object
 streams and among comments by the file map

---
 pdfsyntax/filestruct.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 3940695..c73c690 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -98,13 +98,32 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
     return ret
 
 
+def find_integers(bdata: bytes) -> dict:
+    """List the possible values of integer objects (candidates for indirect stream lengths)."""
+    res = {}
+    sp = rb'(?:[\x00\t\n\x0c\r ]|%[^\r\n]*[\r\n])*'
+    content = re.compile(sp + rb'(\d+)' + sp + rb'endobj')
+    for mo in re.finditer(rb'(?<!\d)(\d+)[\x00\s]+(\d+)[\x00\s]+obj', bdata):
+        value = content.match(bdata, mo.end())
+        if value:
+            res.setdefault(complex(int(mo[2]), int(mo[1])), []).append(int(value[1]))
+    embedded = {}
+    for mo in re.finditer(rb'obj' + sp + rb'(<<(?:(?!obj).)*?/ObjStm)', bdata, re.DOTALL):
+        o = parse_obj(bdata, mo.start(1), res.get)
+        if type(o) == Stream and o['entries'].get('/Type') == '/ObjStm':
+            for o_num, x, _, _, _ in parse_object_stream(o, None)[3]:
+                if type(x) == int:
+                    embedded.setdefault(complex(0, o_num), []).append(x)
+    for iref in embedded:
+        res[iref] = res.get(iref, []) + embedded[iref]
+    return res
+
+
 def file_object_map(fdata: Callable) -> list:
     """Parse whole file in sequential order without using xref."""
     sections = []
     bdata, _, _, length = fdata(0, -1) #Read all
-    integers = {} #candidates for indirect stream lengths
-    for o_num, o_gen, value in re.findall(rb'(\d+)\s+(\d+)\s+obj\s+(\d+)\s+endobj', bdata):
-        integers.setdefault(complex(int(o_gen), int(o_num)), []).append(int(value))
+    integers = find_integers(bdata)
     i = 0
     while i < length:
         mo = parse_region(bdata, i, integers.get)
-- 
2.43.0


From 7adc27284848eae2df05f96cbb87a923cc2fe057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:21:10 +0000
Subject: [PATCH 74/79] fix: a comment may follow an inline image

---
 pdfsyntax/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 51df0cc..18f9bf9 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -133,7 +133,7 @@ def parse_stream_content(content_stream: bytes) -> list:
                 ret.append(current)
                 current = []
                 if token == 'ID': #Skip the data of an inline image
-                    end = re.compile(rb'[\x00\t\n\x0c\r ]EI(?=[\x00\t\n\x0c\r /\[(<])').search(text, i)
+                    end = re.compile(rb'[\x00\t\n\x0c\r ]EI(?=[\x00\t\n\x0c\r /\[(<%])').search(text, i)
                     i = end.start() + 1 if end else len(text)
     if current:
         ret.append(current)
-- 
2.43.0


From 4204cc54adc1c40fe8c886285bcad7c08a830fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:24:15 +0000
Subject: [PATCH 75/79] fix: only trailers link to a previous cross-reference
 section in the browsable view

---
 pdfsyntax/display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 42846d5..e76169a 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -221,7 +221,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
             ver = find_revision(abs_pos, cross)
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
-                page += follow_obj(o, index[ver], display_stream=False)
+                page += follow_obj(o, index[ver], display_stream=False, trailer=True)
             else:
                 page += follow_obj(o, index[ver], display_stream=True)
                 page += '\n\nendobj'
@@ -231,7 +231,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
             page += build_xref_table(content['table'], index)
             page += "\ntrailer\n"
             ver = find_revision(abs_pos, cross)
-            page += follow_obj(content['trailer'], index[ver])
+            page += follow_obj(content['trailer'], index[ver], trailer=True)
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
             _, relevance, _, _ = cross[abs_pos]
@@ -497,7 +497,7 @@ def move_list_item(mod_list: list, item: int, new_pos: int) -> str:
     return mod_list
 
 
-def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
+def follow_obj(obj, index: list, depth=0, display_stream=True, trailer=False) -> str:
     """Recursively construct object representation."""
     ret = ''
     content = None
@@ -529,7 +529,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
                 ret += f'  <span class="warning">{name}</span>{value}\n'
             elif value == '/JavaScript':
                 ret += f'  {name}<span class="warning">{value}</span>\n'
-            elif i == '/Prev' and type(obj[i]) == int and '/Root' in obj and '/Size' in obj: #trailer
+            elif i == '/Prev' and type(obj[i]) == int and trailer:
                 ret += f'  {name}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
                 ret += f'  {name}{value}\n'
-- 
2.43.0


From f11cf54c2065e45a03edc32efa30a13ebd56b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:30:11 +0000
Subject: [PATCH 76/79] fix: word spacing applies to single-byte codes only

---
 pdfsyntax/api.py       | 4 ++--
 pdfsyntax/docstruct.py | 3 +++
 pdfsyntax/text.py      | 8 +++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 7a8d2ee..4bbaa3c 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -365,8 +365,8 @@ def build_text_fragments(page_contents: list, f: list):
         if te[-1] in ('TJ', 'Tj', "'", '"'):
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
-            uc, displacement, codes = show_text_element(f[0], te, ts)
-            spacing = ts['Tc'] * len(codes) + ts['Tw'] * codes.count(32)
+            uc, displacement, codes, words = show_text_element(f[0], te, ts)
+            spacing = ts['Tc'] * len(codes) + ts['Tw'] * words
             tx = (displacement * (ts['Tfs'] or 0) + spacing) * ts['Th'] / 100
             ty = 0 #TODO
             ts['tm'] = multiply_matrices([1, 0, 0, 1, tx, ty], ts['tm'])
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index fb2d26a..645ceff 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -990,10 +990,13 @@ def prepare_font(doc: Doc, iref) -> dict:
         simple = False
     else:
         simple = True
+    font_desc['word_space'] = simple
     cmap_stream = get_object(doc, font_desc['to_unicode'])
     if type(cmap_stream) == Stream:
         cmap = parse_obj(b'[' + cmap_stream['stream'] + b'\n]')
         tounicode = prepare_tounicode(cmap)
+        #Word spacing applies to the single-byte code 32 only
+        font_desc['word_space'] = simple or any(len(first) == 1 and first <= b' ' <= last for first, last in tounicode[0])
         def dec_unicode_cmap(text):
             return decode_with_tounicode(tounicode, text, simple)
         font_desc['dec_fun'] = dec_unicode_cmap
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 20c5614..d16f14f 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -192,12 +192,12 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
 
 def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
     """Return the text shown by a command and its width in text space units for a font size of 1."""
-    ustring, width, _ = show_text_element(fonts, element, ts)
+    ustring, width, _, _ = show_text_element(fonts, element, ts)
     return ustring, width
 
 
 def show_text_element(fonts: dict, element: list, ts: dict) -> tuple:
-    """Return the text shown by a command, its width and the list of shown character codes."""
+    """Return the text shown by a command, its width, the list of shown character codes and the number of word spaces."""
     font = fonts.get(ts['Tf'], DEFAULT_FONT)
     ustring = ''
     width = 0
@@ -216,10 +216,12 @@ def show_text_element(fonts: dict, element: list, ts: dict) -> tuple:
             if space_char_width > 0 and gap >= space_char_width:
                 ustring += ' ' * int(gap // space_char_width)
             width -= t / 1000
-    return ustring, width, codes
+    words = codes.count(32) if font.get('word_space', True) else 0
+    return ustring, width, codes, words
 
 
 DEFAULT_FONT = {
     'dec_fun': lambda string: apply_encoding(None, string),
     'char_width': lambda code: 500,
+    'word_space': True,
 }
-- 
2.43.0


From 150925330a66036d138bf6b309503361c9ce7a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:30:07 +0000
Subject: [PATCH 77/79] fix: font metrics that are null, absent or indirect in
 nested width arrays take the values the specification gives them

---
 pdfsyntax/docstruct.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 645ceff..62ee1b2 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -967,21 +967,23 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc['encoding'] = get_object(doc, o.get('/Encoding'))
     if is_null(font_desc['encoding']):
         font_desc['encoding'] = None
-    first_char = o.get('/FirstChar')
+    first_char = get_object(doc, o.get('/FirstChar'))
     #last_char = o.get('/LastChar')
-    widths = o.get('/Widths')
+    widths = get_object(doc, o.get('/Widths'))
     descendant = o.get('/DescendantFonts')
-    if widths:
-        widths = [get_object(doc, x) for x in get_object(doc, widths)]
+    if not is_null(widths):
+        widths = [get_object(doc, x) for x in widths]
         descriptor = get_object(doc, font_desc['descriptor'])
-        missing = get_object(doc, descriptor.get('/MissingWidth', 500)) if type(descriptor) == dict else 500
-        font_desc['char_width'] = prepare_widths(widths, get_object(doc, first_char) or 0, missing)
-    elif descendant:
+        missing = get_object(doc, descriptor.get('/MissingWidth')) if type(descriptor) == dict else 500
+        font_desc['char_width'] = prepare_widths(widths, 0 if is_null(first_char) else first_char, 0 if is_null(missing) else missing)
+    elif not is_null(get_object(doc, descendant)):
         iref = get_object(doc, descendant)[0]
         d = get_object(doc, iref)
-        w = [get_object(doc, x) for x in get_object(doc, d.get('/W')) or []]
-        dw = d.get('/DW', 1000)
-        font_desc['char_width'] = prepare_w(w, get_object(doc, dw))
+        w = get_object(doc, d.get('/W'))
+        w = [get_object(doc, x) for x in ([] if is_null(w) else w)]
+        w = [[get_object(doc, y) for y in x] if type(x) == list else x for x in w]
+        dw = get_object(doc, d.get('/DW'))
+        font_desc['char_width'] = prepare_w(w, 1000 if is_null(dw) else dw)
     else:
         #TODO Find standard fonts widths
         default_widths = [500] * 256
-- 
2.43.0


From 752d19611b16ee2a679fa801183fbe8a6eafe40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 78/79] fix: an annotation added to a page whose array of
 annotations is shared appeared elsewhere

---
 pdfsyntax/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 4bbaa3c..d9acaff 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -251,7 +251,9 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
     if not is_null(get_object(doc, annot_obj)):
         new_array = deepcopy(get_object(doc, annot_obj))
         new_array.append(a_iref)
-        if type(annot_obj) == complex:
+        shared = type(annot_obj) == complex and any(
+            annot_obj in deep_ref_detect([get_object(doc, ref)]) for ref in in_use(doc) if ref != page_ref)
+        if type(annot_obj) == complex and not shared:
             doc = update_object(doc, int(annot_obj.imag), new_array)
         else:
             new_page['/Annots'] = new_array
-- 
2.43.0


From 6e571ca5fd490477544814d4cefce3c9d5277a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 79/79] fix: a value given to a document changed in it when the
 caller modified it afterwards

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 62ee1b2..f0a9ffc 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -688,7 +688,7 @@ def update_object(doc: Doc, num: int, new_o, immut=True) -> Doc:
     else:
         new_doc = doc
     new_doc.index[-1][num] = new_i
-    new_doc.cache[num] = new_o
+    new_doc.cache[num] = deepcopy(new_o)
     return new_doc
 
 
@@ -704,7 +704,7 @@ def add_object(doc: Doc, new_o, immut=True) -> tuple:
     new_doc.index[-1].append(None)
     new_doc.index[-1][num] = new_i
     new_doc.cache.append(None)
-    new_doc.cache[num] = new_o
+    new_doc.cache[num] = deepcopy(new_o)
     return new_doc, complex(0, num)
 
 
-- 
2.43.0

