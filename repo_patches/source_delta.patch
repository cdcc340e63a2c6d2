From b75d53c3c9b06ad5da271c890c811d0b4113d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 01/85] fix: do not ignore a trailing newline when matching
 routes

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..daf3775 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -627,7 +627,7 @@ class Route(RouteFactory):
 
         if self.build_only:
             return
-        regex = r'^%s%s$' % (
+        regex = r'^%s%s\Z' % (
             u''.join(regex_parts),
             '(?<!/)(?P<__suffix__>/?)'
             if (not self.is_leaf or not self.strict_slashes)
-- 
2.43.0


From 6c5edf7310274221c88974c803554ada1caa7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 02/85] fix: accept a MultiDict of values when building urls

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index daf3775..075e5d8 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1531,7 +1531,7 @@ class MapAdapter(object):
         self.router.update()
         if values:
             if isinstance(values, MultiDict):
-                valueiter = values.iteritems(multi=True)
+                valueiter = values.items(multi=True)
             else:
                 valueiter = values.items()
             values = dict((k, v) for k, v in valueiter if v is not None)
-- 
2.43.0


From f1bdc802b122263bf9b1709bb3ddb99bb7727881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 03/85] fix: encode the query of redirects with the charset of
 the router

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 075e5d8..940d3b0 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1447,7 +1447,9 @@ class MapAdapter(object):
 
     def encode_query_args(self, query_args):
         if not isinstance(query_args, str):
-            query_args = urlencode(query_args, self.router.charset)
+            query_args = urlencode(
+                query_args, doseq=True, encoding=self.router.charset
+            )
         return query_args
 
     def make_redirect_url(self, path_info, query_args=None, domain_part=None):
-- 
2.43.0


From 59f1c25630ff23ae1fb8f6c7471b135f21e9a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 04/85] fix: keep redirect_to, alias and host of routes in
 route templates

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 940d3b0..15c1cf3 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -404,7 +404,10 @@ class RouteTemplateFactory(RouteFactory):
                     subdomain,
                     route.build_only,
                     new_endpoint,
-                    route.strict_slashes
+                    route.strict_slashes,
+                    route.redirect_to,
+                    route.alias,
+                    route.host,
                 )
 
 
-- 
2.43.0


From 6b6356b9b121b39c25f4a10fec7a84af9f001224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 05/85] fix: negotiate the language and the charset of
 representations

---
 verktyg/accept/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..e575b5f 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -172,13 +172,13 @@ class Representation(object):
         )
 
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
 
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From 7d50c473189e7cd8f55368a8d399f2c942c077f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 06/85] fix: make the ordering of acceptabilities consistent

A later criterion could overrule an earlier one, so that each of two
representations could be better than the other and the outcome of content
negotiation depended on the order of the ranges in the header.
---
 verktyg/accept/__init__.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index e575b5f..6bfdf44 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -53,29 +53,16 @@ class Acceptability(object):
         return True
 
     def __gt__(self, other):
-        def _gt(self, other):
-            if (self is None) and (other is None):
-                return False
-            if self <= other:
-                return False
-            return True
-
-        if _gt(
-                self._content_type_acceptability,
-                other._content_type_acceptability):
-            return True
-        if _gt(
-                self._language_acceptability,
-                other._language_acceptability):
-            return True
-        if _gt(
-                self._charset_acceptability,
-                other._charset_acceptability):
-            return True
-        if _gt(
-                self._qs,
-                other._qs):
-            return True
+        for ours, theirs in (
+            (self._content_type_acceptability,
+             other._content_type_acceptability),
+            (self._language_acceptability, other._language_acceptability),
+            (self._charset_acceptability, other._charset_acceptability),
+            (self._qs, other._qs),
+        ):
+            if ours == theirs:
+                continue
+            return ours is not None and (theirs is None or ours > theirs)
         return False
 
 
-- 
2.43.0


From e2fcab16e45bdecc7d47d5aab15668c6870361a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 07/85] fix: a range with a q of zero means not acceptable

---
 verktyg/accept/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eaca9ff..eb8aace 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -212,7 +212,7 @@ class Value(object):
                 if best_match is None or match > best_match:
                     best_match = match
 
-        if best_match is None:
+        if best_match is None or best_match._q <= 0:
             raise NotAcceptable()
 
         return best_match
-- 
2.43.0


From 557056bef3485fe6999273853729fb5381a94e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 08/85] fix: make exception dispatchers nestable

---
 verktyg/exception_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..1e731d2 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,8 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in self._handlers.values():
+            yield from handlers
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From 00ff3e7bc536b8219e0e3728740d54103cf2d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:52 +0000
Subject: [PATCH 09/85] fix: let the most specific range decide the quality of
 a value

---
 verktyg/accept/_base.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eb8aace..108e603 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -167,13 +167,10 @@ class Acceptability(object):
         if other is None:
             return True
 
-        if self._match_quality > other._match_quality:
-            return True
-
-        if self.quality > other.quality:
-            return True
+        if self._match_quality != other._match_quality:
+            return self._match_quality > other._match_quality
 
-        return False
+        return self.quality > other.quality
 
 
 # TODO better name
-- 
2.43.0


From 42b216e8df276371c700a87068b71eaf2f624fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 10/85] fix: close the response once if iteration is abandoned

---
 verktyg/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 385ff31..cd9e447 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -89,7 +89,10 @@ class BaseApplication(object):
     def _wsgi_inner(self, wsgi_env, start_response):
         with self.request_class(wsgi_env) as request:
             with self._get_response(request) as response:
-                yield from response(wsgi_env, start_response)
+                # not `yield from`, which would close the response a second
+                # time if the client goes away half way through
+                for chunk in response(wsgi_env, start_response):
+                    yield chunk
 
     def __call__(self, wsgi_env, start_response):
         wsgi_env['verktyg.application'] = self
-- 
2.43.0


From b8e94a0020e1c7b896674572e1f66c54a0a52346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:31 +0000
Subject: [PATCH 11/85] fix: trust subdomains, and only the ipv6 addresses
 which are listed

The normalized host is a bytestring, so looking for '.' + ref at its end
raised a TypeError instead of matching the subdomain.  Stripping a port from
an ipv6 literal that has none cut the address in half, making all of the
addresses that share a prefix with a trusted one trusted as well.
---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..f39c5a3 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -120,7 +120,7 @@ def host_is_trusted(hostname, trusted_list):
         trusted_list = [trusted_list]
 
     def _normalize(hostname):
-        if ':' in hostname:
+        if ':' in hostname and not hostname.endswith(']'):
             hostname = hostname.rsplit(':', 1)[0]
         return encode_idna(hostname)
 
@@ -134,7 +134,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From 7c57a1ec894451f0c3a7643e829e3519d5b83c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:35 +0000
Subject: [PATCH 12/85] fix: never read past the limit of a LimitedStream

Negative sizes other than -1 in read, and all of them in readline, were
passed on to the underlying stream, which then reads all it has.
---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index f39c5a3..16b4b33 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -869,7 +869,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # -1 is for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -885,7 +885,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:  # -1 is for consistence with file
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
-- 
2.43.0


From 2b8d04a6de719c02ebebb1ea5afefc8e10814766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:22 +0000
Subject: [PATCH 13/85] fix: iterate over the lines of bytestreams

make_line_iter was only able to handle text, although what it is for is
iterating over wsgi.input.
---
 verktyg/wsgi.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 16b4b33..d682197 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -700,7 +700,18 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+
+    _iter = chain((first_item,), _iter)
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
+        _join = empty.join
         buffer = []
         while 1:
             new_data = next(_iter, '')
@@ -709,20 +720,20 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in (cr, lf):
+                    yield _join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield _join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From b3781a08b04d45a4f7dff64e6c3f8075240df0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 14/85] fix: find separators that are split over two reads

make_chunk_iter looked for the separator in each of the blocks it read, so
whether a separator of more than one character was found depended on where
the blocks happened to end.
---
 verktyg/wsgi.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index d682197..9d66d44 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -9,7 +9,6 @@
     :license:
         BSD, see LICENSE for more details.
 """
-import re
 import os
 from io import BytesIO
 import sys
@@ -764,29 +763,24 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
         return
 
     _iter = chain((first_item,), _iter)
-    if isinstance(first_item, str):
-        _split = re.compile(r'(%s)' % re.escape(separator)).split
-        _join = ''.join
-    else:
-        _split = re.compile(b'(' + re.escape(separator) + b')').split
-        _join = b''.join
+    tail = first_item[:0]
+    _join = tail.join
+    overlap = len(separator) - 1
 
     buffer = []
-    while 1:
-        new_data = next(_iter, '')
-        if not new_data:
-            break
-        chunks = _split(new_data)
-        new_buf = []
-        for item in chain(buffer, chunks):
-            if item == separator:
-                yield _join(new_buf)
-                new_buf = []
-            else:
-                new_buf.append(item)
-        buffer = new_buf
-    if buffer:
-        yield _join(buffer)
+    for new_data in _iter:
+        # what could be the first half of a separator is kept back until the
+        # other half had a chance to arrive
+        *chunks, rest = (tail + new_data).split(separator)
+        for item in chunks:
+            buffer.append(item)
+            yield _join(buffer)
+            buffer = []
+        split_at = max(0, len(rest) - overlap)
+        buffer.append(rest[:split_at])
+        tail = rest[split_at:]
+    buffer.append(tail)
+    yield _join(buffer)
 
 
 class LimitedStream(object):
-- 
2.43.0


From 72d19f103028d4c1321614341545f381244dc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 15/85] fix: accept a list of rules for disallow in
 SharedDataMiddleware

This is what is documented, but only a single string worked.
---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 9d66d44..6fef5c7 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -398,7 +398,11 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, rule) for rule in disallow
+            )
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From f895ec825ffb5c7d7ff67cfc8fe480204f450a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 16/85] fix: do not unquote items of list and dict headers
 twice

parse_http_list has removed the escapes already.  Values that begin and end
with quotes lost them.
---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..05dfabd 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -612,7 +612,7 @@ def parse_list_header(value):
     result = []
     for item in _parse_list_header(value):
         if item[:1] == item[-1:] == '"':
-            item = unquote_header_value(item[1:-1])
+            item = item[1:-1]
         result.append(item)
     return result
 
@@ -653,7 +653,7 @@ def parse_dict_header(value, cls=dict):
             continue
         name, value = item.split('=', 1)
         if value[:1] == value[-1:] == '"':
-            value = unquote_header_value(value[1:-1])
+            value = value[1:-1]
         result[name] = value
     return result
 
-- 
2.43.0


From fab69691f5a1866fa1f8e99c396228d4b06a256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:40 +0000
Subject: [PATCH 17/85] fix: quote empty header values

An empty string is no token: empty options could not be told from options
without a value, and empty items disappeared from the end of lists.
---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 05dfabd..c6b6b72 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -78,7 +78,7 @@ def quote_header_value(value, extra_chars='', allow_token=True):
     value = str(value)
     if allow_token:
         token_chars = _token_chars | set(extra_chars)
-        if set(value).issubset(token_chars):
+        if value and set(value).issubset(token_chars):
             return value
     return '"%s"' % value.replace('\\', '\\\\').replace('"', '\\"')
 
-- 
2.43.0


From 10dca0949802dc8a1ce8b6e81042585e8dec74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 18/85] fix: do not raise StopIteration for empty options
 headers

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c6b6b72..b98df43 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -686,7 +686,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From 7a60a0403ec72821ff0625f2bfa3fd0fb5c17e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:47 +0000
Subject: [PATCH 19/85] fix: keep the items and the index of a HeaderSet in
 step

Removing a header by a name which is not lower case left it in the list that
is written to the header, and so did removing one that was passed to the
constructor more than once.
---
 verktyg/http/basic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index b98df43..9721338 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -970,8 +970,10 @@ class HeaderSet(object):
     """
 
     def __init__(self, headers=None, on_update=None):
-        self._headers = list(headers or ())
-        self._set = set([x.lower() for x in self._headers])
+        self._headers = []
+        self._set = set()
+        self.on_update = None
+        self.update(headers or ())
         self.on_update = on_update
 
     def add(self, header):
@@ -989,8 +991,8 @@ class HeaderSet(object):
         if key not in self._set:
             raise KeyError(header)
         self._set.remove(key)
-        for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+        for idx, item in enumerate(self._headers):
+            if item.lower() == key:
                 del self._headers[idx]
                 break
         if self.on_update is not None:
-- 
2.43.0


From ebd3c0987b6f764ddfbaff647b7fcf1781e6aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 20/85] fix: iteration over a FileStorage did not terminate

The end of a binary stream is an empty bytestring.
---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 9721338..faf825d 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -946,7 +946,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.stream)
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From 46791686290bb536835862d2db34cee34b36a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:57 +0000
Subject: [PATCH 21/85] fix: return None for malformed range headers

Positions that are no numbers and ranges behind an open ended one raised an
exception, and a suffix of no bytes was taken for all of them.
---
 verktyg/http/cache_control.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..c604f5b 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -134,21 +134,26 @@ def parse_range_header(value, make_inclusive=True):
         if item.startswith('-'):
             if last_end < 0:
                 return None
-            begin = int(item)
+            try:
+                begin = int(item)
+            except ValueError:
+                return None
+            if begin >= 0:
+                return None
             end = None
             last_end = -1
         elif '-' in item:
             begin, end = item.split('-', 1)
-            begin = int(begin)
+            try:
+                begin = int(begin)
+                end = int(end) + 1 if end else None
+            except ValueError:
+                return None
             if begin < last_end or last_end < 0:
                 return None
-            if end:
-                end = int(end) + 1
-                if begin >= end:
-                    return None
-            else:
-                end = None
-            last_end = end
+            if end is not None and begin >= end:
+                return None
+            last_end = end if end is not None else -1
         ranges.append((begin, end))
 
     return Range(units, ranges)
-- 
2.43.0


From 3b9869ad73291b39dfe17d17b782d6ef368992b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 22/85] fix: return None for content ranges with a length int
 can not parse

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index c604f5b..17c2462 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -257,7 +257,7 @@ def parse_content_range_header(value, on_update=None):
     rng, length = rangedef.split('/', 1)
     if length == '*':
         length = None
-    elif length.isdigit():
+    elif length.isdecimal():
         length = int(length)
     else:
         return None
-- 
2.43.0


From 7970ed3f6a1c13d76a5b85c5ba2b963953b4a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:04 +0000
Subject: [PATCH 23/85] fix: parse etag headers that end in a newline and empty
 etags

The first did not terminate and the second ended up as None in the set.
---
 verktyg/http/cache_control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 17c2462..2b169db 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -16,7 +16,7 @@ from verktyg.http.basic import (
 )
 
 
-_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|$)')
+_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|\Z)')
 
 
 class IfRange(object):
@@ -570,7 +570,7 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        elif quoted is not None:
             raw = quoted
         if is_weak:
             weak.append(raw)
-- 
2.43.0


From 0108d3d932e02e88fc250b3c14bcc0c0bcf857c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 24/85] fix: allow unsetting cache directives which are not set

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 2b169db..ec67212 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -337,7 +337,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From 6cc5fee8dc56f57ef84b7077a55af93796cf6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 25/85] fix: respect the error handler when decoding cookies

Any client was able to cause an UnicodeDecodeError.
---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..be3dde9 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From 39eeb6e4344441aeff4c4da9c4055ada212a96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:14 +0000
Subject: [PATCH 26/85] fix: do not lose the cookie that follows one without a
 value

The name of the latter became part of the name of the former.
---
 verktyg/http/cookies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index be3dde9..aede082 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -39,7 +39,7 @@ for _i in chain(range(32), range(127, 256)):
 _octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
 _quote_re = re.compile(b'[\\\\].')
 _cookie_re = re.compile(b"""(?x)
-    (?P<key>[^=]+)
+    (?P<key>[^=;]+)
     \s*=\s*
     (?P<val>
         "(?:[^\\\\"]|\\\\.)*" |
-- 
2.43.0


From 63b03025eb6beab391feb2e6ab458dc0119d5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:50 +0000
Subject: [PATCH 27/85] fix: count the bytes and not the characters for the
 content length

The Content-Length of responses that are lists of strings was too small if
they contained any characters which are not ascii.
---
 verktyg/responses.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..4fb7094 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(map(len, self.iter_encoded()))
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -560,14 +560,13 @@ class BaseResponse(object):
 
         # if we can determine the content length automatically, we
         # should try to do that.  But only if this does not involve
-        # flattening the iterator or encoding of unicode strings in
-        # the response.  We however should not do that if we have a 304
-        # response.
+        # flattening the iterator.  We however should not do that if we
+        # have a 304 response.
         if (
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(map(len, self.iter_encoded()))
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From a51d49ebc7df5ecf9817220c073d1b34d4068dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:42 +0000
Subject: [PATCH 28/85] fix: clear the items of ordered multi dicts

They were still there when iterating, only looking them up failed.
---
 verktyg/datastructures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..0994995 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -687,7 +687,7 @@ class OrderedMultiDict(MultiDict):
         return list(self.items(multi=True))
 
     def __setstate__(self, values):
-        dict.clear(self)
+        self.clear()
         for key, value in values:
             self.add(key, value)
 
@@ -787,6 +787,10 @@ class OrderedMultiDict(MultiDict):
             bucket.unlink(self)
         return buckets[0].value
 
+    def clear(self):
+        dict.clear(self)
+        self._first_bucket = self._last_bucket = None
+
     def popitem(self):
         try:
             key, buckets = dict.popitem(self)
-- 
2.43.0


From 67108b3c4cfad54d946c3db709bea688bfe569f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 29/85] fix: keep the order of items when copying ordered multi
 dicts

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 0994995..d5ac37e 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -761,6 +761,10 @@ class OrderedMultiDict(MultiDict):
         for value in new_list:
             self.add(key, value)
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(list(self.items(multi=True)), memo))
+
     def setlistdefault(self, key, default_list=None):
         raise TypeError(
             'setlistdefault is unsupported for ordered multi dicts'
-- 
2.43.0


From b3ec89128e5b30bd8c93eb1eaa944ba3ad508108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 30/85] fix: ordered multi dicts differ from what is no multi
 dict

Negating NotImplemented gives False.
---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index d5ac37e..7f0aa37 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -678,7 +678,8 @@ class OrderedMultiDict(MultiDict):
         return True
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        rv = self.__eq__(other)
+        return rv if rv is NotImplemented else not rv
 
     def __reduce_ex__(self, protocol):
         return type(self), (list(self.items(multi=True)),)
-- 
2.43.0


From 4e5e9a79c2f44fdb43eef79106789dc1089c24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:53 +0000
Subject: [PATCH 31/85] fix: do not lose values of combined multi dicts

to_dict only returned the values from one of the dicts that have the key, and
deep copies were not usable at all.
---
 verktyg/datastructures.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 7f0aa37..e1b608b 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -918,6 +918,10 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         """Return a shallow copy of this object."""
         return self.__class__(self.dicts[:])
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(self.dicts, memo))
+
     def to_dict(self, flat=True):
         """Return the contents as regular dict.  If `flat` is `True` the
         returned dict will only have the first item present, if `flat` is
@@ -930,10 +934,9 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         :return:
             A :class:`dict`
         """
-        rv = {}
-        for d in reversed(self.dicts):
-            rv.update(d.to_dict(flat))
-        return rv
+        if flat:
+            return dict(self.items())
+        return dict(self.lists())
 
     def __len__(self):
         return len(self._keys_impl())
-- 
2.43.0


From e9fafc14bda54a2ece2de06617d4c4dab6617b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 32/85] fix: do not allow clear and |= to change immutable
 lists and dicts

---
 verktyg/datastructures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index e1b608b..f87ffc5 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -80,6 +80,9 @@ class ImmutableListMixin(object):
         is_immutable(self)
     remove = append
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
@@ -155,6 +158,9 @@ class ImmutableDictMixin(object):
     def clear(self):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
 
 class ImmutableMultiDictMixin(ImmutableDictMixin):
     """Makes a :class:`MultiDict` immutable.
-- 
2.43.0


From ea0db09bf905a3fcf5396d1e4cef803106038aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 33/85] fix: call on_update when a dict is updated in place

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index f87ffc5..cb9366d 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -229,6 +229,7 @@ class UpdateDictMixin(object):
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
+    __ior__ = calls_update('__ior__')
     del calls_update
 
 
-- 
2.43.0


From ff42613a589c1acb7c1277d7eac346b02b7b5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 34/85] fix: encode fields that are no files in multipart
 bodies

The value was written into the headers of the part, and then failed to be
written a second time where it belongs.
---
 verktyg/test.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f6d2fd1..56957c4 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -98,12 +98,11 @@ def stream_encode_multipart(
                         break
                     write_binary(chunk)
             else:
-                if isinstance(value, str):
-                    write(value)
-                else:
-                    write_binary(value)
                 write('\r\n\r\n')
-                write_binary(value)
+                if isinstance(value, bytes):
+                    write_binary(value)
+                else:
+                    write(str(value))
             write('\r\n')
     write('--%s--\r\n' % boundary)
 
-- 
2.43.0


From 0a555d4d8eb61d44af4fae41d0fd07c903280e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 35/85] fix: send all of the values of repeated arguments and
 form fields

---
 verktyg/test.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 56957c4..4b463ae 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -24,7 +24,9 @@ from urllib.request import Request
 from http.cookiejar import CookieJar
 
 from verktyg.urls import url_fix, iri_to_uri
-from verktyg.datastructures import MultiDict, CombinedMultiDict
+from verktyg.datastructures import (
+    MultiDict, CombinedMultiDict, iter_multi_items,
+)
 from verktyg.http import Headers, FileStorage, dump_cookie
 from verktyg.wsgi import (
     get_host, get_current_url, ClosingIterator, wsgi_encoding_dance,
@@ -484,7 +486,9 @@ class EnvironBuilder(object):
     def _get_query_string(self):
         if self._query_string is None:
             if self._args is not None:
-                return urlencode(self._args, encoding=self.charset)
+                return urlencode(
+                    list(iter_multi_items(self._args)), encoding=self.charset
+                )
             return ''
         return self._query_string
 
@@ -570,7 +574,9 @@ class EnvironBuilder(object):
             )
             content_type += '; boundary="%s"' % boundary
         elif content_type == 'application/x-www-form-urlencoded':
-            values = urlencode(self.form, encoding=self.charset)
+            values = urlencode(
+                list(iter_multi_items(self.form)), encoding=self.charset
+            )
             values = values.encode('ascii')
             content_length = len(values)
             input_stream = BytesIO(values)
-- 
2.43.0


From eb07f456efc78bfa1a7ad2c7d5aa4923050cf280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:28 +0000
Subject: [PATCH 36/85] fix: keep what was written when buffering the output of
 an application

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 4b463ae..dda488e 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -933,10 +933,12 @@ def run_wsgi_app(app, environ, buffered=False):
     # application iterator into a regular list
     if buffered:
         try:
-            app_iter = list(app_iter)
+            for item in app_iter:
+                buffer.append(item)
         finally:
             if close_func is not None:
                 close_func()
+        app_iter = buffer
 
     # otherwise we iterate the application iter until we have a response, chain
     # the already received data with the already collected data and wrap it in
-- 
2.43.0


From f218825ecad26f9860e5dbc28ab5a5fd1b3434be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:31 +0000
Subject: [PATCH 37/85] fix: do not raise StopIteration if a generator has an
 empty body

The test client was not able to make HEAD requests to applications.
---
 verktyg/test.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index dda488e..2879f35 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -946,7 +946,10 @@ def run_wsgi_app(app, environ, buffered=False):
     # original return value.
     else:
         while not response:
-            buffer.append(next(app_iter))
+            try:
+                buffer.append(next(app_iter))
+            except StopIteration:
+                break
         if buffer:
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
-- 
2.43.0


From 9903f290f57466968a398ee5b8ab5570df12ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:34 +0000
Subject: [PATCH 38/85] fix: allow subdomain redirects in the test client

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 2879f35..e91a0a7 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -724,7 +724,9 @@ class Client(object):
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
 
         if self.allow_subdomain_redirects:
-            allowed = cur_server_name.endswith(real_server_name)
+            allowed = (
+                cur_server_name[-len(real_server_name):] == real_server_name
+            )
         else:
             allowed = cur_server_name == real_server_name
 
-- 
2.43.0


From c375881e943e74f5f49dc63194eb03295f4894c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 39/85] fix: re-raise what is passed to start_response with its
 traceback

---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index e91a0a7..9a1c655 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -922,7 +922,7 @@ def run_wsgi_app(app, environ, buffered=False):
         if exc_info is not None:
             exc_type, exc_value, exc_traceback = exc_info
             if exc_value.__traceback__ is not exc_traceback:
-                raise exc_value.with_traceback()
+                raise exc_value.with_traceback(exc_traceback)
             raise exc_value
         response[:] = [status, headers]
         return buffer.append
-- 
2.43.0


From d6e55e8617e01a7fc5ac502049c22b2ef271736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 40/85] fix: is_secure was always None

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..e54c125 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ['wsgi.url_scheme'] == 'https'
 
     @property
     def is_multithread(self):
-- 
2.43.0


From d90418fe9bd9ac1438789421976638e6c55ea202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 41/85] fix: max_forwards is None if there is no such header

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index e54c125..3b2a841 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -616,7 +616,7 @@ class CommonRequestDescriptorsMixin(object):
         """
         try:
             return int(self.environ.get('HTTP_MAX_FORWARDS'))
-        except ValueError:
+        except (TypeError, ValueError):
             return None
 
     def _parse_content_type(self):
-- 
2.43.0


From 000d216fa41b548ca1a9e5568d5c9bb36f265bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:05 +0000
Subject: [PATCH 42/85] fix: leave characters quoted that would change what an
 iri means

A quoted '#' in the path became the start of the fragment, a quoted '?' or
'#' in the user name the end of the host, and quoted newlines disappeared when
the iri was parsed again.
---
 verktyg/urls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 983173b..94abab1 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -141,14 +141,14 @@ def uri_to_iri(uri, errors='replace'):
     if uri.username or uri.password:
         if uri.username:
             username = _safe_urlunquote(
-                uri.username, errors='strict', unsafe='/:%'
+                uri.username, errors='strict', unsafe='/:?#[]@%\t\r\n'
             )
         else:
             username = ''
 
         if uri.password:
             password = _safe_urlunquote(
-                uri.password, errors='strict', unsafe='/:%'
+                uri.password, errors='strict', unsafe='/:?#[]@%\t\r\n'
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -157,13 +157,13 @@ def uri_to_iri(uri, errors='replace'):
         netloc = '%s@%s' % (auth, netloc)
 
     path = _safe_urlunquote(
-        uri.path, errors=errors, unsafe='%/;?'
+        uri.path, errors=errors, unsafe='%/;?#\t\r\n'
     )
     query = _safe_urlunquote(
-        uri.query, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.query, errors=errors, unsafe='%;/?:@&=+,$#\t\r\n'
     )
     fragment = _safe_urlunquote(
-        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#\t\r\n'
     )
     return urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
-- 
2.43.0


From 3518576ffcff00541b4caaf77abd16f82d5472cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:23 +0000
Subject: [PATCH 43/85] fix: reject newlines in headers given as a list

---
 verktyg/http/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index faf825d..f4a7a2a 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -152,7 +152,10 @@ class Headers(object):
         self._list = []
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
-                self._list.extend(defaults)
+                for key, value in defaults:
+                    if isinstance(value, str):
+                        self._validate_value(value)
+                    self._list.append((key, value))
             else:
                 self.extend(defaults)
 
-- 
2.43.0


From e7a5f8656cab47299763833514c5a122492d981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:25 +0000
Subject: [PATCH 44/85] fix: Headers.extend dropped repeated values of a
 MultiDict

---
 verktyg/http/basic.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index f4a7a2a..e0d42ac 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -15,7 +15,7 @@ from email.utils import parsedate_tz
 from urllib.request import parse_http_list as _parse_list_header
 from datetime import datetime, timedelta
 
-from verktyg.datastructures import is_immutable
+from verktyg.datastructures import is_immutable, iter_multi_items
 from verktyg import exceptions
 
 
@@ -283,16 +283,8 @@ class Headers(object):
         """Extend the headers with a dict or an iterable yielding keys and
         values.
         """
-        if isinstance(iterable, dict):
-            for key, value in iterable.items():
-                if isinstance(value, (tuple, list)):
-                    for v in value:
-                        self.add(key, v)
-                else:
-                    self.add(key, value)
-        else:
-            for key, value in iterable:
-                self.add(key, value)
+        for key, value in iter_multi_items(iterable):
+            self.add(key, value)
 
     def __delitem__(self, key, _index_operation=True):
         if _index_operation and isinstance(key, (int, slice)):
-- 
2.43.0


From 9ebb916dd59eb40d6e3a0e20e4c9d8ccb2b2b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:29 +0000
Subject: [PATCH 45/85] fix: clear on immutable headers

---
 verktyg/http/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index e0d42ac..c4b0482 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -522,6 +522,9 @@ class ImmutableHeadersMixin(object):
     def popitem(self):
         is_immutable(self)
 
+    def clear(self):
+        is_immutable(self)
+
     def setdefault(self, key, default):
         is_immutable(self)
 
-- 
2.43.0


From ad912633e932d28a953dc2a91538a41ed2051269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:31 +0000
Subject: [PATCH 46/85] fix: comparing EnvironHeaders with anything else

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 6fef5c7..b50fec9 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -285,7 +285,10 @@ class EnvironHeaders(http.ImmutableHeadersMixin, http.Headers):
         self.environ = environ
 
     def __eq__(self, other):
-        return self.environ is other.environ
+        return (
+            other.__class__ is self.__class__ and
+            self.environ is other.environ
+        )
 
     def __getitem__(self, key, _get_mode=False):
         # _get_mode is a no-op for this class as there is no index but
-- 
2.43.0


From b14561b412d9c8510360916b38df68659863fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:52 +0000
Subject: [PATCH 47/85] fix: blanks after an option value are not part of it

---
 verktyg/http/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c4b0482..bbc9623 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -677,7 +677,9 @@ def parse_options_header(value):
             key, value = match.groups()
             key = unquote_header_value(key)
             if value is not None:
-                value = unquote_header_value(value, key == 'filename')
+                value = unquote_header_value(
+                    value.rstrip(), key == 'filename'
+                )
             yield key, value
 
     if not value:
-- 
2.43.0


From c55f7592c0fb6ea4728fae27c3163fa0e518cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:11 +0000
Subject: [PATCH 48/85] fix: parsing a long cookie header without an equals
 sign took cubic time

---
 verktyg/http/cookies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index aede082..f2649fa 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -39,8 +39,9 @@ for _i in chain(range(32), range(127, 256)):
 _octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
 _quote_re = re.compile(b'[\\\\].')
 _cookie_re = re.compile(b"""(?x)
+    (?<![^=;])
     (?P<key>[^=;]+)
-    \s*=\s*
+    =\s*
     (?P<val>
         "(?:[^\\\\"]|\\\\.)*" |
          (?:.*?)
-- 
2.43.0


From 5ebbd2abfc371184c379b8a85a7ee4db497742f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:07 +0000
Subject: [PATCH 49/85] fix: copying and pickling Authorization lost everything

---
 verktyg/http/auth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/auth.py b/verktyg/http/auth.py
index 8e32395..8a280f2 100644
--- a/verktyg/http/auth.py
+++ b/verktyg/http/auth.py
@@ -30,6 +30,9 @@ class Authorization(datastructures.ImmutableDictMixin, dict):
         dict.__init__(self, data or {})
         self.type = auth_type
 
+    def __reduce_ex__(self, protocol):
+        return type(self), (self.type, dict(self))
+
     username = property(lambda x: x.get('username'), doc='''
         The username transmitted.  This is set for both basic and digest
         auth all the time.''')
-- 
2.43.0


From e48be84daefc81c3314c6d7c6ba6176c71ab3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:10 +0000
Subject: [PATCH 50/85] fix: no_transform could not be read

---
 verktyg/http/cache_control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index ec67212..97a50bd 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -306,7 +306,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
     no_cache = cache_property('no-cache', '*', None)
     no_store = cache_property('no-store', None, bool)
     max_age = cache_property('max-age', -1, int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
 
     def __init__(self, values=(), on_update=None):
         dict.__init__(self, values or ())
@@ -376,7 +376,7 @@ class RequestCacheControl(datastructures.ImmutableDictMixin, _CacheControl):
 
     max_stale = cache_property('max-stale', '*', int)
     min_fresh = cache_property('min-fresh', '*', int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
     only_if_cached = cache_property('only-if-cached', None, bool)
 
 
-- 
2.43.0


From ea4960af41b515ad3e155dd86920eb5a4dd93a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 51/85] fix: quote the path when redirecting to append a slash

The path of the WSGI environment was used as if it were a URL: a path such
as /http://example.com redirected to another site, question marks were taken
for the start of the query and non ASCII paths were encoded twice.
---
 verktyg/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index ad20122..7d13485 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -15,6 +15,7 @@ import re
 import os
 
 from html import escape
+from urllib.parse import quote as urlquote
 
 
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
@@ -228,7 +229,8 @@ def append_slash_redirect(environ, code=301):
     :param code:
         The status code for the redirect.
     """
-    new_path = environ['PATH_INFO'].strip('/') + '/'
+    path_info = environ['PATH_INFO'].strip('/').encode('latin1')
+    new_path = urlquote(path_info) + '/'
     query_string = environ.get('QUERY_STRING')
     if query_string:
         new_path += '?' + query_string
-- 
2.43.0


From c49bff857f8bdb7e13272c09a28db2af42069c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 52/85] fix: pass requests for directories of a package to the
 application

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index b50fec9..a61c958 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -438,7 +438,10 @@ class SharedDataMiddleware(object):
             if path is None:
                 return None, None
             path = posixpath.join(package_path, path)
-            if not provider.has_resource(path):
+            if (
+                not provider.has_resource(path) or
+                provider.resource_isdir(path)
+            ):
                 return None, None
             basename = posixpath.basename(path)
             if filesystem_bound:
-- 
2.43.0


From 7fa8239d5c4a5b6461cf11288a68a0e7e1c03436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:59 +0000
Subject: [PATCH 53/85] fix: send the length of shared data from zipped
 packages

---
 verktyg/wsgi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index a61c958..48e67a4 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -447,11 +447,11 @@ class SharedDataMiddleware(object):
             if filesystem_bound:
                 return basename, self._opener(
                     provider.get_resource_filename(manager, path))
-            return basename, lambda: (
-                provider.get_resource_stream(manager, path),
-                loadtime,
-                0
-            )
+
+            def opener():
+                data = provider.get_resource_string(manager, path)
+                return BytesIO(data), loadtime, len(data)
+            return basename, opener
         return loader
 
     def get_directory_loader(self, directory):
-- 
2.43.0


From 19139baaf8ecf6637ad4a5176e260dd3c91b7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 54/85] fix: let ClosingIterator close the iterable it was
 given

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 48e67a4..f35e48c 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -592,7 +592,7 @@ class ClosingIterator(object):
             callbacks = [callbacks]
         else:
             callbacks = list(callbacks)
-        iterable_close = getattr(iterator, 'close', None)
+        iterable_close = getattr(iterable, 'close', None)
         if iterable_close:
             callbacks.insert(0, iterable_close)
         self._callbacks = callbacks
-- 
2.43.0


From d0d63b972085fffa406d43e2841211f929cf8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:25 +0000
Subject: [PATCH 55/85] fix: only answer conditional GET and HEAD requests for
 shared data with 304

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index f35e48c..c175c16 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -512,7 +512,10 @@ class SharedDataMiddleware(object):
                 ('Etag', '"%s"' % etag),
                 ('Cache-Control', 'max-age=%d, public' % timeout)
             ]
-            if not is_resource_modified(environ, etag, last_modified=mtime):
+            if (
+                environ['REQUEST_METHOD'] in ('GET', 'HEAD') and
+                not is_resource_modified(environ, etag, last_modified=mtime)
+            ):
                 f.close()
                 start_response('304 Not Modified', headers)
                 return []
-- 
2.43.0


From 1c4e9c861841610671286faf96cbf958228f76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:46 +0000
Subject: [PATCH 56/85] fix: JsonView works on an application without a debug
 attribute

---
 verktyg/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/views.py b/verktyg/views.py
index 24e52cd..b541e27 100644
--- a/verktyg/views.py
+++ b/verktyg/views.py
@@ -89,7 +89,7 @@ class JsonView(View):
             # no content
             return Response(status=204)
 
-        if env.debug:
+        if getattr(env, 'debug', False):
             json_response = json.dumps(res, indent=4)
         else:
             json_response = json.dumps(res, separators=(',', ':'))
-- 
2.43.0


From f3b524ea61fff275c4c8029730375b0e23945c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:49 +0000
Subject: [PATCH 57/85] fix: exceptions made by HTTPException.wrap can be
 pickled

---
 verktyg/exceptions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/exceptions.py b/verktyg/exceptions.py
index 373d2d5..b4814dc 100644
--- a/verktyg/exceptions.py
+++ b/verktyg/exceptions.py
@@ -142,6 +142,8 @@ class HTTPException(Exception):
                 exception.__init__(self, arg)
         newcls.__module__ = sys._getframe(1).f_globals.get('__name__')
         newcls.__name__ = name or cls.__name__ + exception.__name__
+        # pickle finds classes by their qualified name
+        newcls.__qualname__ = newcls.__name__
         return newcls
 
     @property
-- 
2.43.0


From 71ea681a8d39e91c9a85605b507d2b758bf7cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:52 +0000
Subject: [PATCH 58/85] fix: str() and repr() of an HTTPException without code

---
 verktyg/exceptions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/exceptions.py b/verktyg/exceptions.py
index b4814dc..d06a95a 100644
--- a/verktyg/exceptions.py
+++ b/verktyg/exceptions.py
@@ -152,7 +152,9 @@ class HTTPException(Exception):
         return HTTP_STATUS_CODES.get(self.code, 'Unknown Error')
 
     def __str__(self):
-        return '%d: %s' % (self.code, self.name)
+        # ``abort(response)`` raises exceptions that have no code
+        code = self.code if self.code is not None else '???'
+        return '%s: %s' % (code, self.name)
 
     def __repr__(self):
         return '<%s \'%s\'>' % (self.__class__.__name__, self)
-- 
2.43.0


From d10c5a60de9724c9a9f531d59761fbd2d35858b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 59/85] fix: RequestRedirect has no response attribute

---
 verktyg/exceptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/exceptions.py b/verktyg/exceptions.py
index d06a95a..8f65407 100644
--- a/verktyg/exceptions.py
+++ b/verktyg/exceptions.py
@@ -123,6 +123,7 @@ class HTTPException(Exception):
     """
     code = None
     description = None
+    response = None
 
     def __init__(self, description=None, response=None):
         Exception.__init__(self)
-- 
2.43.0


From 5390a7463042aaf1dd0326173e95e4a12dd5a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:52 +0000
Subject: [PATCH 60/85] fix: do not sort routes in place while other threads
 may be matching

A list is empty while it is being sorted, so requests that came in during the
first one were answered with a 404 by multithreaded servers.
---
 verktyg/routing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 15c1cf3..8ead07e 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1242,9 +1242,15 @@ class URLMap(object):
         in the correct order after things changed.
         """
         if self._remap:
-            self._routes.sort(key=lambda x: x.match_compare_key())
-            for routes in self._routes_by_endpoint.values():
-                routes.sort(key=lambda x: x.build_compare_key())
+            # not sorted in place: a list is empty while it is being sorted,
+            # and other threads may be using it
+            self._routes = sorted(
+                self._routes, key=lambda x: x.match_compare_key()
+            )
+            for endpoint, routes in list(self._routes_by_endpoint.items()):
+                self._routes_by_endpoint[endpoint] = sorted(
+                    routes, key=lambda x: x.build_compare_key()
+                )
             self._remap = False
 
     def __repr__(self):
-- 
2.43.0


From 7b21949fb17434ceb427d9aed64d25129fb1257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:26 +0000
Subject: [PATCH 61/85] fix: EnvironBuilder.close() left all but the first file
 of a field open

---
 verktyg/test.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 9a1c655..96b074d 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -545,10 +545,10 @@ class EnvironBuilder(object):
         if self.closed:
             return
         try:
-            files = self.files.values()
+            files = list(self.files.items(multi=True))
         except AttributeError:
             files = ()
-        for f in files:
+        for key, f in files:
             try:
                 f.close()
             except Exception:
-- 
2.43.0


From 9af7c4b1420c06e3b825cacaa6a302778866b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:37 +0000
Subject: [PATCH 62/85] fix: Headers made from a list took bytes with line
 breaks

---
 verktyg/http/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index bbc9623..f361ef2 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -153,7 +153,8 @@ class Headers(object):
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
                 for key, value in defaults:
-                    if isinstance(value, str):
+                    if isinstance(value, (bytes, str)):
+                        value = unicodify_header_value(value)
                         self._validate_value(value)
                     self._list.append((key, value))
             else:
-- 
2.43.0


From c61c3e5bdae2ec903de8a5e0e6ad4d6a0faa6dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 63/85] fix: do not let a source quality of zero make the order
 of ranges matter

---
 verktyg/accept/_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index 108e603..04579bf 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -206,7 +206,12 @@ class Value(object):
             except NotAcceptable:
                 pass
             else:
-                if best_match is None or match > best_match:
+                # the quality of the value itself must not hide the difference
+                # between two ranges
+                if best_match is None or (
+                    (match._match_quality, match._q) >
+                    (best_match._match_quality, best_match._q)
+                ):
                     best_match = match
 
         if best_match is None or best_match._q <= 0:
-- 
2.43.0


From 7ccb6a5ec8b575094901ee3cd6a2a5992fba8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 64/85] fix: secure_filename let some device names of Windows
 through

---
 verktyg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index 7d13485..ce9ce44 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -20,8 +20,9 @@ from urllib.parse import quote as urlquote
 
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
 _windows_device_files = {
-    'CON', 'AUX', 'COM1', 'COM2', 'COM3', 'COM4',
-    'LPT1', 'LPT2', 'LPT3', 'PRN', 'NUL',
+    'CON', 'AUX', 'COM1', 'COM2', 'COM3', 'COM4', 'COM5', 'COM6', 'COM7',
+    'COM8', 'COM9', 'LPT1', 'LPT2', 'LPT3', 'LPT4', 'LPT5', 'LPT6', 'LPT7',
+    'LPT8', 'LPT9', 'PRN', 'NUL',
 }
 _missing = object()
 
-- 
2.43.0


From 76a0cd48ad20978ae9876f8de3af2e542df6790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 65/85] fix: calling a star etag set did not match every tag

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 97a50bd..06140ce 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -529,7 +529,7 @@ class ETags(object):
         if include_weak:
             if etag in self._weak:
                 return True
-        return etag in self._strong
+        return self.contains(etag)
 
     def __bool__(self):
         return bool(self.star_tag or self._strong or self._weak)
-- 
2.43.0


From 65262b7fedfdea912eeb2a6d505dd6292b5b3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 66/85] fix: a foreign host reached routes with a variable
 subdomain

---
 verktyg/routing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 8ead07e..e4cf2aa 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1348,6 +1348,11 @@ class MapAdapter(object):
         if query_args is None:
             query_args = self.query_args
 
+        if not self.router.host_matching and self.subdomain == '<invalid>':
+            # bound to a host that is not below the server name, which a
+            # variable in the subdomain of a route must not match either
+            raise NotFound()
+
         path = u'%s|/%s' % (
             self.router.host_matching and self.server_name or
             self.subdomain, path_info.lstrip('/')
-- 
2.43.0


From 4809969d81492ea3a3a1cc7230b77830ec8a1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:42 +0000
Subject: [PATCH 67/85] fix: a header given twice to the environ builder
 reached the application once

---
 verktyg/test.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 96b074d..c543d4d 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -613,8 +613,12 @@ class EnvironBuilder(object):
             'wsgi.multiprocess': self.multiprocess,
             'wsgi.run_once': self.run_once
         })
+        headers = {}
         for key, value in self.headers.to_wsgi_list():
-            result['HTTP_%s' % key.upper().replace('-', '_')] = value
+            key = 'HTTP_%s' % key.upper().replace('-', '_')
+            headers.setdefault(key, []).append(value)
+        for key, values in headers.items():
+            result[key] = ', '.join(values)
         if self.environ_overrides:
             result.update(self.environ_overrides)
         return result
-- 
2.43.0


From 2e850c8581d7be7bd5fe6b88b17a485fdcb88c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 68/85] fix: values given as lists were lost from the query of
 built urls

---
 verktyg/routing.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index e4cf2aa..29699b1 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -94,6 +94,7 @@
 import re
 import uuid
 import posixpath
+from operator import itemgetter
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
     urlunparse, ParseResult
@@ -708,9 +709,13 @@ class Route(RouteFactory):
                 if key in query_vars:
                     del query_vars[key]
 
-            if query_vars:
+            # lists stand for repeated parameters, which keep their order
+            query_items = list(query_vars.items(multi=True))
+            if query_items:
                 url += u'?' + urlencode(
-                    sorted(query_vars.items(), key=self.router.sort_key),
+                    sorted(
+                        query_items, key=self.router.sort_key or itemgetter(0)
+                    ),
                     encoding=self.router.charset,
                 )
 
-- 
2.43.0


From 5f89b764b900c57c5ff823b524cd53af2fa9e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 69/85] fix: a stream that counts as false was replaced by an
 empty one

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index f361ef2..71bbcd9 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -845,7 +845,7 @@ class FileStorage(object):
         headers=None,
     ):
         self.name = name
-        self.stream = stream or BytesIO()
+        self.stream = stream if stream is not None else BytesIO()
 
         # if no filename is provided we can attempt to get the filename
         # from the stream object passed.  There we have to be careful to
-- 
2.43.0


From e6c3e01cc0b637574131591875d6de46018c8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:12 +0000
Subject: [PATCH 70/85] fix: files without a name could not be wrapped as
 uploads

---
 verktyg/http/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 71bbcd9..165bce9 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -862,6 +862,10 @@ class FileStorage(object):
                     sys.getfilesystemencoding(), 'replace'
                 )
 
+            # The name of a file opened from a descriptor is a number.
+            if not isinstance(filename, str):
+                filename = None
+
             if filename and filename[0] == '<' and filename[-1] == '>':
                 filename = None
 
-- 
2.43.0


From 85b9e056192a7cc07d931a406763693d3788bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 71/85] fix: tags that read like a date were taken for one in
 If-Range

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 06140ce..bd5d16d 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -53,7 +53,8 @@ def parse_if_range_header(value):
     """
     if not value:
         return IfRange()
-    date = parse_date(value)
+    # an etag is quoted, even if what it says reads like a date
+    date = parse_date(value) if '"' not in value else None
     if date is not None:
         return IfRange(date=date)
     # drop weakness information
-- 
2.43.0


From ca217659004f28392bea3ccad1de98cc8439f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 72/85] fix: a number with more digits than python converts
 does not match

---
 verktyg/routing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 29699b1..bd29920 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -914,7 +914,11 @@ class NumberConverter(BaseConverter):
     def to_python(self, value):
         if (self.fixed_digits and len(value) != self.fixed_digits):
             raise ValidationError()
-        value = self.num_convert(value)
+        try:
+            value = self.num_convert(value)
+        except ValueError:
+            # python limits the number of digits it is willing to convert
+            raise ValidationError()
         if (
             (self.min is not None and value < self.min) or
             (self.max is not None and value > self.max)
-- 
2.43.0


From 478de494b809f9df34b325cf7a938d783d26370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 73/85] fix: parse_content_range_header raised for lengths of
 thousands of digits

---
 verktyg/http/cache_control.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index bd5d16d..ea48d3c 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -259,7 +259,11 @@ def parse_content_range_header(value, on_update=None):
     if length == '*':
         length = None
     elif length.isdecimal():
-        length = int(length)
+        try:
+            length = int(length)
+        except ValueError:
+            # python limits the number of digits it is willing to convert
+            return None
     else:
         return None
 
-- 
2.43.0


From bfbcef47a2c65c665b39972ab19050995a1d7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 74/85] fix: reading Response.content_range rewrote or removed
 the header

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index ea48d3c..53900d8 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -167,8 +167,9 @@ class ContentRange(object):
     def __init__(self, units, start, stop, length=None, on_update=None):
         if not is_byte_range_valid(start, stop, length):
             raise ValueError('Bad range provided')
-        self.on_update = on_update
+        self.on_update = None
         self.set(start, stop, length, units)
+        self.on_update = on_update
 
     def _callback_property(name):
         def fget(self):
-- 
2.43.0


From d4a6b0bf7d2a24dcde1363f79e39d14d2506f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 75/85] fix: Response.retry_after raised for numbers it can not
 represent

---
 verktyg/responses.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index 4fb7094..6e2ceb7 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -913,8 +913,11 @@ class CommonResponseDescriptorsMixin(object):
         value = self.headers.get('retry-after')
         if value is None:
             return
-        elif value.isdigit():
-            return datetime.utcnow() + timedelta(seconds=int(value))
+        elif value.isdecimal():
+            try:
+                return datetime.utcnow() + timedelta(seconds=int(value))
+            except (ValueError, OverflowError):
+                return None
         return parse_date(value)
 
     def _set_retry_after(self, value):
-- 
2.43.0


From 694086dd50add232f84163746c265797cb36f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 76/85] fix: routes added before one that can not be added were
 not sorted in

---
 verktyg/routing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index bd29920..5c754c9 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1118,7 +1118,8 @@ class URLMap(object):
                 self._routes_by_endpoint.setdefault(
                     route.endpoint, []
                 ).append(route)
-        self._remap = True
+                # here, as the next route might fail to bind
+                self._remap = True
 
     def bind(
         self, server_name, script_name=None, subdomain=None,
-- 
2.43.0


From b268d3be73d9f8e668d331433bd4c09fcd49012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:41 +0000
Subject: [PATCH 77/85] fix: keep query arguments with an empty value in
 Request.args

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 3b2a841..c8350c3 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -267,7 +267,7 @@ class BaseRequest(object):
             errors=self.encoding_errors,
         )
         return self.parameter_storage_class(parse_qsl(
-            qs, errors=self.encoding_errors,
+            qs, keep_blank_values=True, errors=self.encoding_errors,
         ))
 
     def get_data(self, cache=True, as_text=False):
-- 
2.43.0


From a4f8a80fd0f67ffee5f2bf9f795064834f54b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 78/85] fix: a MultiDict key without values has no first value

---
 verktyg/datastructures.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index cb9366d..3539310 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -336,6 +336,8 @@ class MultiDict(TypeConversionDict):
             for key, value in mapping.items():
                 if isinstance(value, (tuple, list)):
                     value = list(value)
+                    if not value:
+                        continue
                 else:
                     value = [value]
                 tmp[key] = value
@@ -362,7 +364,8 @@ class MultiDict(TypeConversionDict):
         :raise KeyError:
             If the key does not exist.
         """
-        if key in self:
+        # the list is empty if it comes from `setlistdefault`
+        if key in self and dict.__getitem__(self, key):
             return dict.__getitem__(self, key)[0]
         raise exceptions.BadRequestKeyError(key)
 
@@ -432,7 +435,12 @@ class MultiDict(TypeConversionDict):
             An iterable with the new values for the key.  Old values are
             removed first.
         """
-        dict.__setitem__(self, key, list(new_list))
+        new_list = list(new_list)
+        if new_list:
+            dict.__setitem__(self, key, new_list)
+        else:
+            # a key without values is no different from a missing one
+            dict.pop(self, key, None)
 
     def setdefault(self, key, default=None):
         """Returns the value for the key if it is in the dict, otherwise it
@@ -444,7 +452,7 @@ class MultiDict(TypeConversionDict):
             The default value to be returned if the key is not in the dict.  If
             not further specified it's `None`.
         """
-        if key not in self:
+        if not self.getlist(key):
             self[key] = default
         else:
             default = self[key]
@@ -489,7 +497,7 @@ class MultiDict(TypeConversionDict):
             if multi:
                 for value in values:
                     yield key, value
-            else:
+            elif values:
                 yield key, values[0]
 
     def lists(self):
@@ -508,7 +516,8 @@ class MultiDict(TypeConversionDict):
     def values(self):
         """Returns an iterator of the first value on every key's value list."""
         for values in dict.values(self):
-            yield values[0]
+            if values:
+                yield values[0]
 
     def listvalues(self):
         """Return an iterator of all values associated with a key.  Zipping
@@ -568,7 +577,7 @@ class MultiDict(TypeConversionDict):
         """
         try:
             return dict.pop(self, key)[0]
-        except KeyError as e:
+        except (KeyError, IndexError) as e:
             if default is not _missing:
                 return default
             raise exceptions.BadRequestKeyError(str(e))
@@ -576,8 +585,10 @@ class MultiDict(TypeConversionDict):
     def popitem(self):
         """Pop an item from the dict."""
         try:
-            item = dict.popitem(self)
-            return (item[0], item[1][0])
+            key, values = dict.popitem(self)
+            while not values:
+                key, values = dict.popitem(self)
+            return (key, values[0])
         except KeyError as e:
             raise exceptions.BadRequestKeyError(str(e))
 
-- 
2.43.0


From 42a77e9491584c9bb8ce3701037355040d35cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 79/85] fix: |= on a MultiDict stores lists of values

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 3539310..54ec0f2 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -559,6 +559,10 @@ class MultiDict(TypeConversionDict):
         for key, value in iter_multi_items(other_dict):
             MultiDict.add(self, key, value)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def pop(self, key, default=_missing):
         """Pop the first item for a list on the dict.  Afterwards the
         key is removed from the dict, so additional values are discarded:
-- 
2.43.0


From 14915ca7481ce454f86862c8d8db3125b1491857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:50 +0000
Subject: [PATCH 80/85] fix: updating a multi dict with itself comes to an end

---
 verktyg/datastructures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 54ec0f2..19b647a 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -556,7 +556,8 @@ class MultiDict(TypeConversionDict):
 
     def update(self, other_dict):
         """update() extends rather than replaces existing key lists."""
-        for key, value in iter_multi_items(other_dict):
+        # not added while iterating, it might be this dict
+        for key, value in list(iter_multi_items(other_dict)):
             MultiDict.add(self, key, value)
 
     def __ior__(self, other):
@@ -794,7 +795,7 @@ class OrderedMultiDict(MultiDict):
         )
 
     def update(self, mapping):
-        for key, value in iter_multi_items(mapping):
+        for key, value in list(iter_multi_items(mapping)):
             OrderedMultiDict.add(self, key, value)
 
     def poplist(self, key):
-- 
2.43.0


From ccd258d4645f6860144a7ef29a2de4d5950e9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:53 +0000
Subject: [PATCH 81/85] fix: extending headers by themselves comes to an end

---
 verktyg/http/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 165bce9..b57e53a 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -284,7 +284,8 @@ class Headers(object):
         """Extend the headers with a dict or an iterable yielding keys and
         values.
         """
-        for key, value in iter_multi_items(iterable):
+        # not added while iterating, it might be this object
+        for key, value in list(iter_multi_items(iterable)):
             self.add(key, value)
 
     def __delitem__(self, key, _index_operation=True):
-- 
2.43.0


From 59d1a3b931499a134e1fcf0dd3a2a5fb3eeddb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 82/85] fix: combined multi dicts are equal if their contents
 are

---
 verktyg/datastructures.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 19b647a..47d0374 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -867,6 +867,17 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
     def __init__(self, dicts=None):
         self.dicts = dicts or []
 
+    def __eq__(self, other):
+        if not isinstance(other, CombinedMultiDict):
+            return NotImplemented
+        return dict(self.lists()) == dict(other.lists())
+
+    def __ne__(self, other):
+        rv = self.__eq__(other)
+        return rv if rv is NotImplemented else not rv
+
+    __hash__ = ImmutableMultiDictMixin.__hash__
+
     @classmethod
     def fromkeys(cls):
         raise TypeError((
-- 
2.43.0


From 67e49d5fecc6902306e6e34f5b216e126991d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 83/85] fix: build urls of very large and very small floats

---
 verktyg/routing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 5c754c9..4b9b337 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -94,6 +94,7 @@
 import re
 import uuid
 import posixpath
+from decimal import Decimal
 from operator import itemgetter
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
@@ -975,6 +976,11 @@ class FloatConverter(NumberConverter):
     def __init__(self, router, min=None, max=None):
         NumberConverter.__init__(self, router, 0, min, max)
 
+    def to_url(self, value):
+        # without an exponent, which the converter does not accept
+        value = format(Decimal(str(self.num_convert(value))), 'f')
+        return value if '.' in value else value + '.0'
+
 
 class UUIDConverter(BaseConverter):
     """This converter only accepts UUID strings::
-- 
2.43.0


From aa1e1b4d572df43c99731d52556d796433cd1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:02 +0000
Subject: [PATCH 84/85] fix: keep empty and dot segments in relative urls

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 4b9b337..09d55a7 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1589,7 +1589,7 @@ class MapAdapter(object):
                 (host_matching and host == self.server_name) or
                 (not host_matching and domain_part == self.subdomain)
             ):
-                return str(urljoin(self.script_name, './' + path.lstrip('/')))
+                return posixpath.join(self.script_name, path.lstrip('/'))
 
         return urlunparse(ParseResult(
             scheme=self.url_scheme or '',
-- 
2.43.0


From 2a0268998b82f128a6aac4054439100dc5a35b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 85/85] fix: the test client follows relative locations

---
 verktyg/test.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index c543d4d..0d6659c 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -17,7 +17,9 @@ from random import random
 from itertools import chain
 from tempfile import TemporaryFile
 from io import BytesIO
-from urllib.parse import urlencode, urlunsplit, urlsplit, unquote as urlunquote
+from urllib.parse import (
+    urlencode, urljoin, urlunsplit, urlsplit, unquote as urlunquote
+)
 
 from urllib.request import Request
 
@@ -812,7 +814,10 @@ class Client(object):
                 not follow_redirects
             ):
                 break
-            new_location = response[2]['location']
+            # may be given relative to the current url
+            new_location = urljoin(
+                get_current_url(environ), response[2]['location']
+            )
 
             new_redirect_entry = (new_location, status_code)
             if new_redirect_entry in redirect_chain:
-- 
2.43.0

