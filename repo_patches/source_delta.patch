From 60b662e6cd2ad6811ab03f28544ed0757c2d6991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 01/25] fix: reject signs, prefixes and underscores in chunk
 sizes

int(..., 16) is more liberal than chunk-size = 1*HEXDIG: a size of -1
swallowed the rest of the stream, and -5 crashed with ValueError.
---
 httpolice/framing1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..324ac69 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -26,6 +26,7 @@ chunk_size = Symbol(u'chunk-size', RFC(7230, section=u'4.1'))
 
 HTTP_VERSION = re.compile(u'^HTTP/[0-9]\\.[0-9]$')
 STATUS_CODE = re.compile(u'^[0-9]{3}$')
+CHUNK_SIZE = re.compile(u'^[0-9A-Fa-f]+$')
 
 
 MAX_BODY_SIZE = 1024 * 1024 * 1024
@@ -299,10 +300,10 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')                # RFC errata ID: 4667
+            if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
+            size = int(size_s, 16)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From 4af0ea533d7f6a35f5083805429528f264780ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 02/25] fix: silence the whole exchange when given a one-shot
 iterable

A generator passed to Exchange.silence() was exhausted before it reached
the request and responses.
---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..1f44737 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = list(notice_ids)       # In case it is a one-shot iterator
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From 0c143a4958bf0eebe884273da541e7b45f55bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 03/25] fix: typo in the name of a day of the week in notice
 1108

---
 httpolice/syntax/rfc7231.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..d08aa54 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -19,7 +19,7 @@ from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
 # The standard library's day and month names are locale-dependent,
 # which brings in Unicode problems.
 _DAY_NAMES = [u'Monday', u'Tuesday', u'Wednesday', u'Thursday', u'Friday',
-              u'Saturady', u'Sunday']
+              u'Saturday', u'Sunday']
 _MONTH_NAMES = [u'Jan', u'Feb', u'Mar', u'Apr', u'May', u'Jun', u'Jul', u'Aug',
                 u'Sep', u'Oct', u'Nov', u'Dec']
 
-- 
2.43.0


From b1f636b41e67253917e2a8bac181b906ebd8bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 04/25] fix: do not crash on a charset that is not a text
 encoding

Python has codecs like "hex" and "rot13" that codecs.lookup() finds but
bytes.decode() refuses with LookupError.
---
 httpolice/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..b837b2c 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -107,7 +107,9 @@ class Message(Blackboard):
         if okay(self.decoded_body):
             try:
                 self.decoded_body.decode(charset)   # pylint: disable=no-member
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # `LookupError` is for codecs that are not text encodings,
+                # such as ``hex`` or ``rot13``.
                 return None
         return charset
 
-- 
2.43.0


From 213d7154cd6dab1f51462fbb1c838e258e4220b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 05/25] fix: report, rather than crash on, XML in an
 unsupported encoding

ElementTree raises ValueError for multi-byte encodings and LookupError
for unknown ones.
---
 httpolice/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index b837b2c..f91974b 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -156,7 +156,10 @@ class Message(Blackboard):
                 self.complain(1275)
                 return Unavailable(self.decoded_body)
             # https://bugs.python.org/issue29896
-            except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
+            # `LookupError` and `ValueError` are for encodings
+            # that are unknown to, or not supported by, the XML parser.
+            except (xml.etree.ElementTree.ParseError,
+                    LookupError, ValueError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
         else:
-- 
2.43.0


From db3c416a64eaca57a0ea98d5867161786261ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 06/25] fix: do not crash on deeply nested JSON

json.loads() and json.dumps() raise RecursionError, and dumps() does so at
a lesser depth than loads().
---
 httpolice/message.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index f91974b..a905f7d 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -134,7 +134,7 @@ class Message(Blackboard):
                 okay(self.unicode_body) and self.content_is_full:
             try:
                 r = json.loads(self.unicode_body)
-            except ValueError as e:
+            except (RecursionError, ValueError) as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
             else:
@@ -215,8 +215,16 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        pretty_json = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                pretty_json = json.dumps(self.json_data,
+                                         indent=2, ensure_ascii=False)
+            except RecursionError:      # Too deeply nested to pretty-print
+                pass
+
+        if pretty_json is not None:
+            r = pretty_json
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From 4e123188b8101de17bee468a0110a77232b7a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 07/25] fix: do not crash on an Age too big for the datetime
 module

---
 httpolice/inputs/streams.py | 7 +++++--
 httpolice/response.py       | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..91917db 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -311,8 +311,11 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                try:
+                    return (resp.headers.date.value +
+                            timedelta(seconds=resp.headers.age.value))
+                except OverflowError:       # `Age` is absurdly big
+                    pass
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..b4ffa13 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -115,8 +115,9 @@ class Response(message.Message):
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
             date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            # `Age` may be too big for `timedelta`, so compare plain numbers.
+            max_age = datetime.utcnow() + timedelta(seconds=30) - date
+            if self.headers.age.value > max_age.total_seconds():
                 self.complain(1241)
                 return None
 
-- 
2.43.0


From f152aa4d885bc8a47fc33558ff4723df7e71c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 08/25] fix: do not crash on Link parameters without a value

For example, "Link: <a>; rel" or "Link: <a>; title".
---
 httpolice/syntax/rfc8288.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..e2a74f2 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,8 +23,7 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
-        if value is not None:
-            (parsed_as, value) = value
+        (parsed_as, value) = value if value is not None else (None, None)
         if name == u'title' and parsed_as is token:
             complain(1307)
         if name == u'hreflang' and parsed_as is quoted_string:
@@ -34,8 +33,9 @@ def _process_params(complain, params):
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
         if symbol is not None:
-            value = parse(value, symbol, complain, 1158,
-                          name=name, value=value)
+            # None of these make sense without a value.
+            value = parse(value or u'', symbol, complain, 1158,
+                          name=name, value=value or u'')
         r.append((name, value))
         if name == u'rev':
             complain(1226)
-- 
2.43.0


From b4ec0f52631fa3f055111a249a8c9a06047a15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 09/25] fix: do not crash on a 451 response with a malformed
 link relation

---
 httpolice/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index b4ffa13..521b157 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -326,8 +326,8 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
-                   for link in headers.link):
+        rels = [link.param.get(u'rel') for link in headers.link]
+        if not any(u'blocked-by' in rel for rel in rels if okay(rel)):
             complain(1243)
 
     if headers.content_disposition.is_okay:
-- 
2.43.0


From afb70ee85bae4ed060ad826a88e16ad359e2db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 10/25] fix: do not repeat notice 1000 when a chunked message
 has trailers

After reading a trailer, the headers are parsed again, and errors for
headers already parsed (such as Transfer-Encoding) were reported twice.
---
 httpolice/parse.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..39f580c 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -168,6 +168,21 @@ class ParseError(Exception):
         self.expected = expected
         self.found = found
 
+    def _key(self):
+        return (self.name, self.position, self.expected, self.found)
+
+    # Equality is needed so that the same header, when parsed again,
+    # does not lead to a duplicate complaint on the same blackboard.
+
+    def __eq__(self, other):
+        if not isinstance(other, ParseError):
+            return NotImplemented
+        # pylint: disable=protected-access
+        return self._key() == other._key()
+
+    def __hash__(self):
+        return hash((self.name, self.position, self.found))
+
 
 ###############################################################################
 # Combinators to construct a grammar suitable for the Earley algorithm.
-- 
2.43.0


From e0a827689cb7af9e449ac71e827a8ccf44916865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 11/25] fix: report tcpflow timestamps that are out of range as
 input errors

---
 httpolice/inputs/streams.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 91917db..188158c 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -80,14 +80,18 @@ def tcpflow_input(dir_paths):
                                  u'(did you use the right -T option?)' % name)
             (timestamp, src, dest) = match.groups()
             timestamp = int(timestamp)
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (OverflowError, OSError, ValueError) as exc:
+                raise InputError(u'wrong timestamp in tcpflow filename %s' %
+                                 name) from exc
             if (src, dest) in seen:
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
-                sort_hint=timestamp))
+                time_hint=time_hint, sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
     return _path_pairs_input(path_pairs, sniff_direction=True,
-- 
2.43.0


From 6acd0435694ffa3b0a025f763ea5848d5a2e13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 12/25] fix: do not crash on URIs that urllib cannot handle

urllib.parse raises ValueError on some grammatically valid IP literals,
such as http://[V1.a]/.
---
 httpolice/request.py  |  3 ++-
 httpolice/response.py |  2 +-
 httpolice/util/uri.py | 21 +++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)
 create mode 100644 httpolice/util/uri.py

diff --git a/httpolice/request.py b/httpolice/request.py
index 5a3e717..bcefd71 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -2,7 +2,7 @@ import base64
 import fnmatch
 import itertools
 import string
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -16,6 +16,7 @@ from httpolice.syntax.rfc7230 import (absolute_form, asterisk_form,
                                       authority_form, origin_form)
 from httpolice.util.data import duplicates, iterbytes
 from httpolice.util.text import force_unicode
+from httpolice.util.uri import urlparse
 
 
 normal_target = mark(origin_form) | mark(absolute_form)
diff --git a/httpolice/response.py b/httpolice/response.py
index 521b157..af51906 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,5 +1,4 @@
 from datetime import datetime, timedelta
-from urllib.parse import urljoin, urlparse
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -12,6 +11,7 @@ from httpolice.syntax import rfc6749, rfc7230
 from httpolice.util.data import duplicates
 from httpolice.util.text import (contains_percent_encodes, force_unicode,
                                  is_ascii)
+from httpolice.util.uri import urljoin, urlparse
 
 
 class Response(message.Message):
diff --git a/httpolice/util/uri.py b/httpolice/util/uri.py
new file mode 100644
index 0000000..deaf384
--- /dev/null
+++ b/httpolice/util/uri.py
@@ -0,0 +1,21 @@
+"""Functions from :mod:`urllib.parse` that do not raise `ValueError`.
+
+The originals do that on some URIs that are fine according to RFC 3986,
+such as ``http://[V1.a]/`` or ``http://[fe80::1%25%41]/``.
+"""
+
+from urllib import parse as urllib_parse
+
+
+def urlparse(uri):
+    try:
+        return urllib_parse.urlparse(uri)
+    except ValueError:
+        return urllib_parse.urlparse(u'')
+
+
+def urljoin(base, uri):
+    try:
+        return urllib_parse.urljoin(base, uri)
+    except ValueError:
+        return None
-- 
2.43.0


From 279a9fddbafd4597ed8c092eaa591e05801d1ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 13/25] fix: report more kinds of malformed HAR data as input
 errors

A null httpVersion, a non-string header value, an unparseable URL and so on
raised AttributeError or ValueError instead of InputError.
---
 httpolice/inputs/har.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..6931835 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -32,7 +32,7 @@ def har_input(paths):
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (AttributeError, KeyError, TypeError, ValueError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
-- 
2.43.0


From 65252967684448ec962297a387965a4720ae8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 14/25] fix: compare media types case-insensitively when
 looking for Accept subsumptions (1276)

---
 httpolice/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index bcefd71..515422d 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -446,8 +446,8 @@ def _accept_subsumptions(items):
 
     for ((item1, q1), (item2, q2)) in itertools.permutations(normalized, 2):
         if (item1 == u'*' or item1.endswith(u'/*')) and \
-                fnmatch.fnmatch(item2, item1) and \
-                not fnmatch.fnmatch(item1, item2) and \
+                fnmatch.fnmatch(item2.lower(), item1.lower()) and \
+                not fnmatch.fnmatch(item1.lower(), item2.lower()) and \
                 q1 == q2:
             yield (item1, item2)
 
-- 
2.43.0


From a06c60915ffc2d3776c50858cf5db42eac9824b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 15/25] fix: show status and warn codes as plain numbers

Since Python 3.8, int has no __str__ of its own, so that str() of a subclass
that defines __repr__ yields that repr, and reports said 'StatusCode(200) OK'.
---
 httpolice/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index c05700f..846e13f 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -198,6 +198,9 @@ class StatusCode(int):
     def __repr__(self):
         return 'StatusCode(%d)' % self
 
+    def __str__(self):
+        return '%d' % self
+
     informational = property(lambda self: 100 <= self <= 199)
     successful = property(lambda self: 200 <= self <= 299)
     redirection = property(lambda self: 300 <= self <= 399)
@@ -367,6 +370,9 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
+    def __str__(self):
+        return '%d' % self
+
 
 class AuthScheme(CaseInsensitive):
 
-- 
2.43.0


From 0010d11836df4e3987fb96698004f70483e3cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 16/25] fix: report a truncated gzip body as undecodable

Unlike zlib.decompress and brotli.decompress, a decompressobj does not complain
about input that ends early, so the notices 1027 and 1037 were missing.
---
 httpolice/codings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index b827432..751e169 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -7,7 +7,11 @@ import brotli
 
 def decode_gzip(data):
     # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
+    decompressor = zlib.decompressobj(16 + zlib.MAX_WBITS)
+    r = decompressor.decompress(data)
+    if data and not decompressor.eof:
+        raise zlib.error('incomplete or truncated stream')
+    return r
 
 
 def decode_deflate(data):
-- 
2.43.0


From ba51ae0e08784fbb878abeaff9f8cf1851528115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 17/25] fix: show warn codes with their leading zeros

In HTML reports, Warning: 000 was shown as Warning: 0.
---
 httpolice/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index 846e13f..7283fd5 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -371,7 +371,7 @@ class WarnCode(int):
         return 'WarnCode(%d)' % self
 
     def __str__(self):
-        return '%d' % self
+        return '%03d' % self
 
 
 class AuthScheme(CaseInsensitive):
-- 
2.43.0


From 1bab914433f8149127668f939328dd591f258d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 18/25] fix: report NaN and Infinity as malformed JSON

---
 httpolice/message.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index a905f7d..6e7ca24 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -35,6 +35,11 @@ URL_ENCODED_GOOD_CHARS = Bits(
 )
 
 
+def _forbid_constant(name):
+    # Python's parser accepts ``NaN`` and the like, but they are not JSON.
+    raise ValueError('%s is not allowed in JSON' % name)
+
+
 class Message(Blackboard):
 
     """An HTTP message (request or response)."""
@@ -133,7 +138,8 @@ class Message(Blackboard):
                 known.media_type.is_json(self.headers.content_type.item) and \
                 okay(self.unicode_body) and self.content_is_full:
             try:
-                r = json.loads(self.unicode_body)
+                r = json.loads(self.unicode_body,
+                               parse_constant=_forbid_constant)
             except (RecursionError, ValueError) as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
-- 
2.43.0


From 6305b4148106248b21ea0387f0532722e787804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 19/25] fix: decode all members of gzip data

---
 httpolice/codings.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index 751e169..3262961 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -7,10 +7,16 @@ import brotli
 
 def decode_gzip(data):
     # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    decompressor = zlib.decompressobj(16 + zlib.MAX_WBITS)
-    r = decompressor.decompress(data)
-    if data and not decompressor.eof:
-        raise zlib.error('incomplete or truncated stream')
+    r = b''
+    while data:
+        decompressor = zlib.decompressobj(16 + zlib.MAX_WBITS)
+        r += decompressor.decompress(data)
+        if not decompressor.eof:
+            raise zlib.error('incomplete or truncated stream')
+        # There may be another member (RFC 1952 Section 2.2).
+        data = decompressor.unused_data
+        if not data.startswith(b'\x1f\x8b'):
+            break
     return r
 
 
-- 
2.43.0


From 6f63675bb62d8da13e163ebb1136a03e46a42f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 20/25] fix: keep path parameters and empty paths when building
 targets from HAR URLs

---
 httpolice/inputs/har.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6931835..67d78aa 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -1,7 +1,7 @@
 import base64
 import io
 import json
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 
 from httpolice.exchange import Exchange
 from httpolice.helpers import pop_pseudo_headers
@@ -46,7 +46,7 @@ def _process_entry(data, creator, path):
 def _process_request(data, creator, path):
     version, header_entries = _process_message(data, creator)
     method = data['method']
-    parsed = urlparse(data['url'])
+    parsed = urlsplit(data['url'])
     scheme = parsed.scheme
 
     if method == m.CONNECT:
@@ -54,7 +54,7 @@ def _process_request(data, creator, path):
     elif any(name == h.host for (name, _) in header_entries):
         # With HAR, we can't tell if the request was to a proxy or to a server.
         # So we force most requests into the "origin form" of the target,
-        target = parsed.path
+        target = parsed.path or u'/'
         if parsed.query:
             target += u'?' + parsed.query
     else:
-- 
2.43.0


From 247e2bf96b82776a137dfd6e81b922e85a25cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 21/25] fix: report HAR values of unexpected types as input
 errors

---
 httpolice/inputs/har.py | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 67d78aa..c9086ec 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -26,17 +26,25 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (RecursionError, ValueError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
-                for entry in data['log']['entries']:
+                for entry in _get(data['log'], 'entries', list):
                     yield _process_entry(entry, creator, path)
-            except (AttributeError, KeyError, TypeError, ValueError) as exc:
+            except (AttributeError, KeyError, OverflowError, TypeError,
+                    ValueError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
 
+def _get(data, key, type_):
+    value = data[key]
+    if not isinstance(value, type_):
+        raise TypeError('unexpected value of %s: %r' % (key, value))
+    return value
+
+
 def _process_entry(data, creator, path):
     req = _process_request(data['request'], creator, path)
     resp = _process_response(data['response'], req, creator, path)
@@ -45,8 +53,9 @@ def _process_entry(data, creator, path):
 
 def _process_request(data, creator, path):
     version, header_entries = _process_message(data, creator)
-    method = data['method']
-    parsed = urlsplit(data['url'])
+    method = _get(data, 'method', str)
+    url = _get(data, 'url', str)
+    parsed = urlsplit(url)
     scheme = parsed.scheme
 
     if method == m.CONNECT:
@@ -63,7 +72,7 @@ def _process_request(data, creator, path):
         # unless we set the full URL ("absolute form") as the target.
         # To prevent this from having an effect on the proxy logic,
         # we explicitly set `Request.is_to_proxy` to `None` later.
-        target = data['url']
+        target = url
 
     if data['bodySize'] == 0:
         # No body, or a body of length 0 (which we do not distinguish).
@@ -80,7 +89,7 @@ def _process_request(data, creator, path):
     text = None
     post = data.get('postData')
     if post and post.get('text'):
-        text = post['text']
+        text = _get(post, 'text', str)
         if creator in FIDDLER and method == m.CONNECT and u'Fiddler' in text:
             # Fiddler's HAR export adds a body with debug information
             # to CONNECT requests.
@@ -101,6 +110,8 @@ def _process_response(data, req, creator, path):
     version, header_entries = _process_message(data, creator)
     status = StatusCode(data['status'])
     reason = data['statusText']
+    if reason is not None and not isinstance(reason, str):
+        raise TypeError('statusText must be str, not %r' % reason)
 
     if creator in FIDDLER and req.method == m.CONNECT and status.successful:
         # Fiddler's HAR export adds extra debug headers to CONNECT responses
@@ -127,10 +138,12 @@ def _process_response(data, req, creator, path):
     resp = Response(version, status, reason, header_entries, body=body,
                     remark=u'from %s' % path)
 
-    if data['content'].get('text') and status != st.not_modified:
-        if data['content'].get('encoding', u'').lower() == u'base64':
+    content = _get(data, 'content', dict)
+    if content.get('text') and status != st.not_modified:
+        text = _get(content, 'text', str)
+        if content.get('encoding', u'').lower() == u'base64':
             try:
-                decoded_body = base64.b64decode(data['content']['text'])
+                decoded_body = base64.b64decode(text)
             except ValueError:
                 pass
             else:
@@ -142,15 +155,15 @@ def _process_response(data, req, creator, path):
                 else:
                     resp.decoded_body = decoded_body
 
-        elif 'encoding' not in data['content']:
-            resp.unicode_body = data['content']['text']
+        elif 'encoding' not in content:
+            resp.unicode_body = text
 
     return resp
 
 
 def _process_message(data, creator):
-    header_entries = [(FieldName(d['name']), d['value'])
-                      for d in data['headers']]
+    header_entries = [(FieldName(_get(d, 'name', str)), _get(d, 'value', str))
+                      for d in _get(data, 'headers', list)]
     pop_pseudo_headers(header_entries)
 
     # Web browsers' HAR export poorly reflects the actual traffic on the wire.
@@ -159,7 +172,7 @@ def _process_message(data, creator):
     # the Host header from HTTP/1.1 requests. Just consider their HTTP version
     # to be always unknown, and a lot of this pain goes away.
     version = None
-    if data['httpVersion'].startswith(u'HTTP/') and \
+    if _get(data, 'httpVersion', str).startswith(u'HTTP/') and \
             creator not in CHROME + FIREFOX + EDGE:
         version = data['httpVersion']
 
-- 
2.43.0


From daffefdb8c30f366f7a1b5f105ef659bdb25960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 22/25] fix: no notice 1269 when the access token may be in a
 query or form that is unknown

---
 httpolice/response.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index af51906..376edd2 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -841,6 +841,16 @@ def _check_bearer_challenge(resp, hdr, challenge):
             u'access_token' in req.query_params
         )
 
+        # The token may also be somewhere we can't see.
+        query_is_unknown = req.effective_uri is None and u'?' in req.target
+        form_is_unknown = (
+            req.headers.content_type ==
+            media.application_x_www_form_urlencoded and
+            not okay(req.url_encoded_data)
+        )
+        if not request_has_token and (query_is_unknown or form_is_unknown):
+            request_has_token = None
+
     params = challenge.param
 
     if isinstance(params, str) or not params:
@@ -877,7 +887,8 @@ def _check_bearer_challenge(resp, hdr, challenge):
             resp.complain(1268, error_code=error_code,
                           expected_status=expected_status)
 
-    if req and req.headers.authorization.is_absent and not request_has_token:
+    if req and req.headers.authorization.is_absent and \
+            request_has_token is False:
         for param in [u'error', u'error_description', u'error_uri']:
             if param in params:
                 resp.complain(1269, param=param)
-- 
2.43.0


From bcd5d346582130c56119f684390cab70d4c2de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 23/25] fix: no crash on a multipart body that is nested too
 deeply

---
 httpolice/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 6e7ca24..a3ab109 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -182,7 +182,10 @@ class Message(Blackboard):
             # and should be parseable as email message payloads.
             multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
                               b'\r\n\r\n' + self.decoded_body)
-            parsed = parse_email_message(multipart_code)
+            try:
+                parsed = parse_email_message(multipart_code)
+            except RecursionError:      # Too deeply nested
+                return Unavailable(self.decoded_body)
             for d in parsed.defects:
                 if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
                     self.complain(1139)
-- 
2.43.0


From 58f1ebde0c082b3e7599520fe1fb98d8ec020379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 24/25] fix: do not highlight the request target for a wildcard
 elsewhere

In HTML reports, what a notice mentions is matched to what is displayed
by object identity. CPython shares all one-character strings, so notice
1276, which mentions a '*' in a conditional header, also highlighted
the '*' of an OPTIONS * request line. Make the request target an object
of its own, like the method.
---
 httpolice/request.py   | 5 +++--
 httpolice/structure.py | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 515422d..61310f6 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -9,7 +9,8 @@ from httpolice.blackboard import derived_property
 from httpolice.known import auth, cache, cc, h, m, prefer, tc, upgrade
 from httpolice.parse import mark, parse
 from httpolice.structure import (EntityTag, Method, MultiDict, Parametrized,
-                                 Versioned, http2, http10, http11, okay)
+                                 RequestTarget, Versioned, http2, http10,
+                                 http11, okay)
 from httpolice.syntax import rfc7230
 from httpolice.syntax.common import CTL
 from httpolice.syntax.rfc7230 import (absolute_form, asterisk_form,
@@ -108,7 +109,7 @@ class Request(message.Message):
                                       trailer_entries, remark)
         self.scheme = force_unicode(scheme) if scheme is not None else None
         self.method = Method(force_unicode(method))
-        self.target = force_unicode(target)
+        self.target = RequestTarget(force_unicode(target))
 
     def __repr__(self):
         return '<Request %s>' % self.method
diff --git a/httpolice/structure.py b/httpolice/structure.py
index 7283fd5..df776c6 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -191,6 +191,13 @@ class Method(ProtocolString):
     __slots__ = ()
 
 
+class RequestTarget(ProtocolString):
+
+    """A request target (RFC 7230 Section 5.3)."""
+
+    __slots__ = ()
+
+
 class StatusCode(int):
 
     __slots__ = ()
-- 
2.43.0


From 456c56900e483b993251b4a62cea8828f2510434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 25/25] fix: do not report the same error again when an
 exchange is checked again

---
 httpolice/blackboard.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 1f44737..857f6d2 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -15,6 +15,17 @@ class Complaint(namedtuple('Complaint', ('notice', 'context'))):
         # in the Sphinx docs because of ``autoclass_content = 'both'``.
         return tuple.__new__(cls, (notice, context))
 
+    def __eq__(self, other):
+        if not isinstance(other, Complaint):
+            return NotImplemented
+        return (self.notice is other.notice and
+                _comparable(self.context) == _comparable(other.context))
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None         # `context` is a dictionary
+
     @property
     def id(self):
         """The notice's ID (an integer)."""
@@ -29,6 +40,14 @@ class Complaint(namedtuple('Complaint', ('notice', 'context'))):
         return self.notice.severity
 
 
+def _comparable(context):
+    # Exceptions are normally compared by identity, but the same error
+    # may be raised anew when the same data is checked again.
+    return {key: ((type(value), value.args, vars(value))
+                  if isinstance(value, Exception) else value)
+            for key, value in context.items()}
+
+
 class Blackboard:
 
     """Shared state that various parts of the code can "write upon".
-- 
2.43.0

