From 48fde3c738e5666652dd6ad957e93e2a2f127b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 01/89] fix: don't raise on field values whose URI can't be
 parsed

urljoin() and urlsplit() raise ValueError for things like an unclosed IPv6
literal; Link, NEL, Reporting-Endpoints and Speculation-Rules let that escape
from process_headers().
---
 httplint/field/parsers/link.py                |  5 ++++-
 httplint/field/parsers/nel.py                 |  7 +++++--
 httplint/field/parsers/reporting_endpoints.py | 13 +++++++++++--
 httplint/field/parsers/speculation_rules.py   | 12 ++++++++++--
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 97d4653..9628515 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -58,7 +58,10 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             for token in rel.lower().split():
                 if token not in hints:
                     continue
-                scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                try:
+                    scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                except ValueError:  # not a parseable URI
+                    continue
                 if scheme and scheme not in ("http", "https"):
                     bad_targets.append((token, link_value, scheme))
                 else:
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index f62c1a9..fe76652 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -19,8 +19,11 @@ def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
         url = item[0]
         if not isinstance(url, str):
             continue
-        target = urljoin(base_uri, url)
-        scheme = urlsplit(target).scheme.lower()
+        try:
+            target = urljoin(base_uri, url)
+            scheme = urlsplit(target).scheme.lower()
+        except ValueError:  # not a parseable URI
+            continue
         if scheme and scheme not in ("https", "wss"):
             continue
         valid.add(name)
diff --git a/httplint/field/parsers/reporting_endpoints.py b/httplint/field/parsers/reporting_endpoints.py
index 26d4494..0b06fdd 100644
--- a/httplint/field/parsers/reporting_endpoints.py
+++ b/httplint/field/parsers/reporting_endpoints.py
@@ -35,8 +35,17 @@ API."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not a parseable URI
+                add_note(
+                    BAD_REPORTING_ENDPOINT_SYNTAX,
+                    name=name,
+                    value=url,
+                    found_type=type(url).__name__,
+                )
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(ENDPOINT_NOT_SECURE, name=name, url=url)
 
diff --git a/httplint/field/parsers/speculation_rules.py b/httplint/field/parsers/speculation_rules.py
index 63e990c..5174cd8 100644
--- a/httplint/field/parsers/speculation_rules.py
+++ b/httplint/field/parsers/speculation_rules.py
@@ -35,8 +35,16 @@ point to speculation rules files."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not a parseable URI
+                add_note(
+                    SPECULATION_RULES_BAD_TYPE,
+                    value=url,
+                    found_type=type(url).__name__,
+                )
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(SPECULATION_RULE_NOT_SECURE, url=url)
 
-- 
2.43.0


From 2a1e82396d71bb7914fb72b864e004410878418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 02/89] fix: report JSON that can't be decoded because of
 nesting or number size

json.loads() raises RecursionError for deeply nested input and ValueError for
integers over the interpreter's digit limit; both escaped from JsonField.
---
 httplint/field/json_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 6408a8a..c72beeb 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -25,7 +25,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
         combined_value = f"[{', '.join(self.value)}]"
         try:
             self.value = json.loads(combined_value)
-        except json.JSONDecodeError as why:
+        except (ValueError, RecursionError) as why:
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
 
-- 
2.43.0


From a1fce0ba8ee283d78453a6f8b8d7bc2ff7cc023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 03/89] fix: render relative times that don't fit into a
 timedelta

Cache-Control: max-age=99999999999999 made Note.summary raise OverflowError.
---
 httplint/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/util.py b/httplint/util.py
index 4365a44..930f9d3 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -78,7 +78,10 @@ class RelativeTime:
 
     def __str__(self) -> str:
         delta_secs = self.utime - self.now
-        delta = timedelta(seconds=delta_secs)
+        try:
+            delta = timedelta(seconds=delta_secs)
+        except OverflowError:  # too far apart to represent
+            delta = timedelta.max if delta_secs > 0 else timedelta.min
         if self.show_sign == 1:
             output = format_timedelta(delta, add_direction=True, threshold=1.2)
         else:
-- 
2.43.0


From 7c5183b993147d417eba329cec5d3976b54a0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 04/89] fix: give CONTENT_NOT_ALLOWED the variable and text it
 needs

Its summary raised KeyError and its text was in an unused attribute.
---
 httplint/message.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 140a2d1..3e0562a 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -145,7 +145,9 @@ class HttpMessageLinter:
                     )
         else:
             if self.content_length and not self.no_content:
-                self.notes.add("message", CONTENT_NOT_ALLOWED)
+                self.notes.add(
+                    "message", CONTENT_NOT_ALLOWED, message=translate(self.message_type)
+                )
         self.post_checks()
 
         for section in [self.headers, self.trailers]:
@@ -338,7 +340,7 @@ class CONTENT_NOT_ALLOWED(Note):
     category = categories.GENERAL
     level = levels.BAD
     _summary = "%(message)s can not have content."
-    _note = """\
+    _text = """\
 HTTP does not allow this message to have content; including it can cause security and
 interoperability issues.
 """
-- 
2.43.0


From e18d33824753eb2fab4d9f75067e5e5894b00dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 05/89] fix: calculate age when the Age field is invalid or
 huge

With a related request that has a start time, an invalid Age raised TypeError
(None + delay) and one with hundreds of digits raised OverflowError.
---
 httplint/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1b3adfb..0380854 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -128,8 +128,8 @@ class ResponseCacheChecker:
             apparent_age = 0
 
         if self.request_time and self.response_time:
-            response_delay = self.response_time - self.request_time
-            corrected_age_value = self.age_value + response_delay
+            response_delay = int(self.response_time - self.request_time)
+            corrected_age_value = (self.age_value or 0) + response_delay
         elif self.age_value is not None:
             corrected_age_value = self.age_value
         else:
-- 
2.43.0


From 7810dda0e5ec0e5a65952e5cc4de4204f9bed47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 06/89] fix: don't raise on false booleans in Cache-Status
 parameters

'Cache-Status: a; hit=?0' formatted a description without placeholders.
---
 httplint/field/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 2098d58..75dcb25 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -270,10 +270,13 @@ def check_sf_params(
                 else:
                     param_list.append(f"* `{param_name}`: `{param_value}`")
             elif "desc" in known_params[param_name]:
-                if param_value is True:
-                    param_list.append(f"* {known_params[param_name]['desc']}")
+                desc = known_params[param_name]["desc"]
+                if param_value is False:
+                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                elif param_value is True:
+                    param_list.append(f"* {desc}")
                 else:
-                    param_list.append(f"* {known_params[param_name]['desc'] % param_value}")
+                    param_list.append(f"* {desc % param_value}")
             else:
                 if param_value is True:
                     param_list.append(f"* `{param_name}`")
-- 
2.43.0


From cf808e91fcbbc57f9c60f03c4734371e90f597e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 07/89] fix: keep field content inside code spans in note
 details

---
 httplint/field/parsers/cache_status.py         |  8 ++++----
 httplint/field/parsers/content_encoding.py     |  2 +-
 .../field/parsers/content_security_policy.py   |  5 ++---
 httplint/field/parsers/link.py                 |  5 ++---
 httplint/field/parsers/nel.py                  |  4 ++--
 httplint/field/parsers/proxy_status.py         | 12 ++++++------
 httplint/field/parsers/set_cookie.py           |  6 ++----
 httplint/field/utils.py                        | 18 ++++++++++--------
 httplint/note.py                               | 13 ++++++++++++-
 9 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/httplint/field/parsers/cache_status.py b/httplint/field/parsers/cache_status.py
index c7e012c..b30eb6e 100644
--- a/httplint/field/parsers/cache_status.py
+++ b/httplint/field/parsers/cache_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_span, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -41,10 +41,10 @@ debugging caches."""
                 CACHE_STATUS_UNKNOWN_PARAM,
                 CACHE_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**{code_span(target_str)}**:\n{param_str}")
 
         if status_list:
-            add_note(CACHE_STATUS, status="\n\n".join(status_list))
+            add_note(CACHE_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -87,7 +87,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         "type": bool,
         "desc": "The request was collapsed with another request.",
     },
-    "key": {"type": str, "desc": "The cache key was `%s`."},
+    "key": {"type": str, "desc": "The cache key was %s."},
     "detail": {"type": (Token, str), "desc": "Additional details: %s"},
 }
 
diff --git a/httplint/field/parsers/content_encoding.py b/httplint/field/parsers/content_encoding.py
index c6b685d..d9b63ec 100644
--- a/httplint/field/parsers/content_encoding.py
+++ b/httplint/field/parsers/content_encoding.py
@@ -78,7 +78,7 @@ class ENCODING_UNWANTED(Note):
     level = levels.WARN
     _summary = "This response uses the '%(coding)s' content-coding, but it wasn't requested."
     _text = """\
-This response's `Content-Encoding` header indicates it has the `%(coding)s content-coding applied
+This response's `Content-Encoding` header indicates it has the `%(coding)s` content-coding applied
 , but the client didn't indicate support for it in the request.
 
 Normally, clients ask for the encodings they want in the `Accept-Encoding` request header. Using
diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 2b8e4d7..9703bfd 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -2,7 +2,7 @@ from typing import Dict, List
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_span, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -175,8 +175,7 @@ sources of content that browsers are allowed to load on a page."""
                     )
 
     def _make_list(self, items: list[str]) -> MarkdownSafe:
-        safe = [item.replace("`", "") for item in items]
-        return MarkdownSafe("\n".join(f"* `{item}`" for item in safe))
+        return MarkdownSafe("\n".join(f"* {code_span(item)}" for item in items))
 
 
 class CONTENT_SECURITY_POLICY(Note):
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 9628515..dbbbcba 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -6,7 +6,7 @@ from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import PARAM_REPEATS, parse_params
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_span, levels
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -75,8 +75,7 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             hints_plain = ", ".join(present)
             lines = []
             for rel_name, targets in present.items():
-                safe = [t.replace("`", "") for t in targets]
-                lines.append(f"- `{rel_name}`: {', '.join(f'`{t}`' for t in safe)}")
+                lines.append(f"- `{rel_name}`: {', '.join(code_span(t) for t in targets)}")
             add_note(
                 LINK_RESOURCE_HINTS,
                 hints=hints_plain,
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index fe76652..dce989d 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -4,7 +4,7 @@ from urllib.parse import urljoin, urlsplit
 from httplint.field.json_field import BAD_JSON, JsonField
 from httplint.field.parsers.reporting_endpoints import ENDPOINT_NOT_SECURE
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_span, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -135,7 +135,7 @@ It allows websites to declare that they want to receive reports about network er
         if resolved_endpoints:
             add_note(
                 NEL_CONFIGURED,
-                endpoints=", ".join(f"`{e}`" for e in resolved_endpoints),
+                endpoints=MarkdownSafe(", ".join(code_span(e) for e in resolved_endpoints)),
             )
 
 
diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 28e4eb2..1ce03a8 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_span, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -39,16 +39,16 @@ The `Proxy-Status` header field indicates how intermediaries have handled the re
                 PROXY_STATUS_UNKNOWN_PARAM,
                 PROXY_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**{code_span(target_str)}**:\n{param_str}")
 
         if status_list:
-            add_note(PROXY_STATUS, status="\n\n".join(status_list))
+            add_note(PROXY_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
     "error": {
         "type": Token,
-        "desc": "The error was `%s`.",
+        "desc": "The error was %s.",
         "value_desc": {
             Token(
                 "dns_timeout"
@@ -103,8 +103,8 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
             Token("proxy_loop_detected"): "The proxy detected a loop.",
         },
     },
-    "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
-    "next-protocol": {"type": Token, "desc": "The next protocol was `%s`."},
+    "next-hop": {"type": (Token, str), "desc": "The next hop was %s."},
+    "next-protocol": {"type": Token, "desc": "The next protocol was %s."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
     "details": {"type": (Token, str), "desc": "Additional details: %s"},
 }
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 675b6cf..d81efce 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -6,7 +6,7 @@ from urllib.parse import urlsplit
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_span, levels
 from httplint.types import (
     AddNoteMethodType,
     DeferredNoteType,
@@ -60,9 +60,7 @@ requests to the server."""
         if hardened:
             add_note(
                 SET_COOKIE_HARDENED,
-                cookie_names=MarkdownSafe(
-                    ", ".join(f"`{n.replace('`', '')}`" for n in hardened)
-                ),
+                cookie_names=MarkdownSafe(", ".join(code_span(n) for n in hardened)),
             )
 
         for note_adder, note, category, kwargs in self._deferred_notes:
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 75dcb25..664d888 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -6,7 +6,7 @@ from urllib.parse import unquote as urlunquote
 
 from http_sf import Token
 
-from httplint.note import Note, categories, levels
+from httplint.note import Note, categories, code_span, levels
 from httplint.syntax import rfc6838, rfc9110
 from httplint.types import AddNoteMethodType, ParamDictType
 
@@ -241,7 +241,7 @@ def check_sf_params(
     for param_name, param_value in params.items():
         if param_name not in known_params:
             add_note(unknown_param_note, param=param_name)
-            param_list.append(f"* `{param_name}`: `{param_value}`")
+            param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
         else:
             expected_type = known_params[param_name].get("type")
             if expected_type and not isinstance(param_value, expected_type):
@@ -250,7 +250,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
                 continue
 
             allowed_values = known_params[param_name].get("values")
@@ -260,7 +260,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
                 continue
 
             if "value_desc" in known_params[param_name]:
@@ -268,20 +268,22 @@ def check_sf_params(
                 if desc:
                     param_list.append(f"* {desc}")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
             elif "desc" in known_params[param_name]:
                 desc = known_params[param_name]["desc"]
                 if param_value is False:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
                 elif param_value is True:
                     param_list.append(f"* {desc}")
+                elif isinstance(param_value, str):
+                    param_list.append(f"* {desc % code_span(param_value)}")
                 else:
                     param_list.append(f"* {desc % param_value}")
             else:
                 if param_value is True:
                     param_list.append(f"* `{param_name}`")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
 
     return "\n".join(param_list)
 
@@ -366,7 +368,7 @@ Parameter values that end in '*' are reserved for non-ascii text, as explained i
 [RFC5987](https://www.rfc-editor.org/rfc/rfc5987).
 
 The `%(param)s` parameter on the `%(field_name)s` field does not allow this; you should use
-%(param)s without the "*" on the end (and without the associated encoding)."""
+`%(param)s` without the "*" on the end (and without the associated encoding)."""
 
 
 class PARAM_STAR_QUOTED(Note):
diff --git a/httplint/note.py b/httplint/note.py
index f73b1b6..62e68a2 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -31,6 +31,16 @@ class MarkdownSafe(str):
     """
 
 
+def code_span(value: Any) -> MarkdownSafe:
+    """
+    Format arbitrary text as a Markdown code span.
+
+    Backticks are removed so that the text can't close the span, and empty text becomes a
+    space, because "``" isn't a span and would pair with the backticks of a later one.
+    """
+    return MarkdownSafe(f"`{str(value).replace('`', '') or ' '}`")
+
+
 def _get_markdown() -> Markdown:
     """Return a per-thread Markdown instance, creating it on first use."""
     if not hasattr(_md_local, "md"):
@@ -152,7 +162,8 @@ class Note:
         def _coerce(val: Any) -> str:
             if isinstance(val, MarkdownSafe):
                 return str(val)
-            return str(val).replace("`", "")
+            # An empty value can't make a code span; "``" would pair with a later one.
+            return str(val).replace("`", "") or " "
 
         safe_vars = {k: _coerce(v) for k, v in self.vars.items()}
         return Markup(
-- 
2.43.0


From c0886c6463b309548884b422ee0c2263a9dbbae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 08/89] fix: only accept ASCII digits as integers

---
 .../field/parsers/access_control_max_age.py    |  6 +++++-
 httplint/field/parsers/age.py                  |  6 +++++-
 httplint/field/parsers/cache_control.py        | 18 +++++++++---------
 httplint/field/parsers/cdn_cache_control.py    |  3 ++-
 httplint/field/parsers/content_length.py       |  3 ++-
 httplint/field/parsers/content_range.py        |  6 +++---
 httplint/field/parsers/range.py                |  4 ++--
 httplint/field/parsers/set_cookie.py           |  2 +-
 .../field/parsers/strict_transport_security.py |  3 ++-
 httplint/field/utils.py                        | 10 ++++++++++
 10 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/httplint/field/parsers/access_control_max_age.py b/httplint/field/parsers/access_control_max_age.py
index bf87e72..3c53669 100644
--- a/httplint/field/parsers/access_control_max_age.py
+++ b/httplint/field/parsers/access_control_max_age.py
@@ -1,6 +1,7 @@
 from httplint.field.cors import CORS_PREFLIGHT_ONLY
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -24,7 +25,10 @@ request (as scoped by the `Access-Control-Allow-Methods` and
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            val = int(field_value)
+            if field_value.startswith("-"):
+                val = -parse_digits(field_value[1:])
+            else:
+                val = parse_digits(field_value)
         except ValueError:
             add_note(CORS_MAX_AGE_INVALID, ref_uri=self.reference)
             raise
diff --git a/httplint/field/parsers/age.py b/httplint/field/parsers/age.py
index dfbe618..4512e50 100644
--- a/httplint/field/parsers/age.py
+++ b/httplint/field/parsers/age.py
@@ -1,5 +1,6 @@
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -22,7 +23,10 @@ The `Age` response header conveys the sender's estimate of the amount of time si
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            age_value = int(field_value)
+            if field_value.startswith("-"):
+                age_value = -parse_digits(field_value[1:])
+            else:
+                age_value = parse_digits(field_value)
         except ValueError:
             add_note(AGE_NOT_INT)
             raise
diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 65ba95f..c475fae 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -2,7 +2,7 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
+from httplint.field.utils import parse_digits, unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -16,9 +16,9 @@ from httplint.util import markdown_list
 # values are (valid_in_requests, valid_in_responses, value_type, value_type_str)
 KNOWN_CC: Dict[str, Tuple[bool, bool, Union[None, Callable[..., Any]], str]] = {
     "immutable": (False, True, None, "none"),
-    "max-age": (True, True, int, "integer"),
-    "max-stale": (True, False, int, "integer"),
-    "min-fresh": (True, False, int, "integer"),
+    "max-age": (True, True, parse_digits, "integer"),
+    "max-stale": (True, False, parse_digits, "integer"),
+    "min-fresh": (True, False, parse_digits, "integer"),
     "must-revalidate": (False, True, None, "none"),
     "must-understand": (False, True, None, "none"),
     "no-cache": (True, True, unquote_string, "quoted string"),
@@ -28,11 +28,11 @@ KNOWN_CC: Dict[str, Tuple[bool, bool, Union[None, Callable[..., Any]], str]] = {
     "private": (False, True, unquote_string, "quoted string"),
     "proxy-revalidate": (False, True, None, "none"),
     "public": (False, True, None, "none"),
-    "s-maxage": (False, True, int, "integer"),
-    "stale-if-error": (False, True, int, "integer"),
-    "stale-while-revalidate": (False, True, int, "integer"),
-    "pre-check": (False, True, int, "integer"),
-    "post-check": (False, True, int, "integer"),
+    "s-maxage": (False, True, parse_digits, "integer"),
+    "stale-if-error": (False, True, parse_digits, "integer"),
+    "stale-while-revalidate": (False, True, parse_digits, "integer"),
+    "pre-check": (False, True, parse_digits, "integer"),
+    "post-check": (False, True, parse_digits, "integer"),
 }
 
 # cache directives and those they override. Listed in order of
diff --git a/httplint/field/parsers/cdn_cache_control.py b/httplint/field/parsers/cdn_cache_control.py
index fe58dab..4924d38 100644
--- a/httplint/field/parsers/cdn_cache_control.py
+++ b/httplint/field/parsers/cdn_cache_control.py
@@ -4,6 +4,7 @@ from httplint.field import RESPONSE_HDR_IN_REQUEST
 from httplint.field.parsers.cache_control import KNOWN_CC
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FakeRequestLinter, FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
@@ -44,7 +45,7 @@ The `CDN-Cache-Control` header field targets cache directives to Content Deliver
                             bad_directive=directive_name,
                             expected_type="no value",
                         )
-                elif value_func is int:
+                elif value_func is parse_digits:
                     # Expecting integer
                     if not isinstance(directive_val, int):
                         add_note(
diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 2f95d29..d31bd0c 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -1,5 +1,6 @@
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -26,7 +27,7 @@ store the response (since they can't be sure if they have the whole response).""
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            value = int(field_value)
+            value = parse_digits(field_value)
         except ValueError:
             add_note(CL_BAD_SYNTAX)
             raise
diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index e8f7044..ec9a12c 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -92,7 +92,7 @@ in `416` (Requested Range Not Satisfiable) responses."""
         if len_str == "*":
             add_note(CONTENT_RANGE_UNKNOWN_LENGTH)
             return None
-        if not len_str.isdigit():
+        if not (len_str.isascii() and len_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=len_str)
             return None
         return int(len_str)
@@ -108,10 +108,10 @@ in `416` (Requested Range Not Satisfiable) responses."""
             return None, None
 
         first_str, last_str = rng.split("-", 1)
-        if not first_str.isdigit():
+        if not (first_str.isascii() and first_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=first_str)
             return None, None
-        if not last_str.isdigit():
+        if not (last_str.isascii() and last_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=last_str)
             return None, None
 
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index ab3f8cb..f4ec181 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -52,7 +52,7 @@ parts of the representation that are specified."""
             last_byte_pos: Optional[int] = None
 
             if first_str:
-                if not first_str.isdigit():
+                if not (first_str.isascii() and first_str.isdigit()):
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
@@ -62,7 +62,7 @@ parts of the representation that are specified."""
                 first_byte_pos = int(first_str)
 
             if last_str:
-                if not last_str.isdigit():
+                if not (last_str.isascii() and last_str.isdigit()):
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index d81efce..51e7c4b 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -197,7 +197,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdigit():
+        if not (attribute_value.isascii() and attribute_value.isdigit()):
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
         delta_seconds = int(attribute_value)
diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 30ce922..26c08ea 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -2,6 +2,7 @@ from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -55,7 +56,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if name == "max-age":
                 try:
                     if value is not None:
-                        parsed["max-age"] = int(value)
+                        parsed["max-age"] = parse_digits(value)
                     else:
                         raise ValueError
                 except (ValueError, TypeError):
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 664d888..a470c10 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -126,6 +126,16 @@ def parse_http_date(
     return calendar.timegm(date_tuple)
 
 
+def parse_digits(value: str) -> int:
+    """
+    Parse 1*DIGIT. Raises ValueError if it's anything else; int() also allows signs,
+    underscores, whitespace and non-ASCII digits.
+    """
+    if not re.fullmatch(r"[0-9]+", value):
+        raise ValueError
+    return int(value)
+
+
 def unquote_string(instr: str) -> str:
     """
     Unquote a unicode string; does NOT unquote control characters.
-- 
2.43.0


From b53d7c96f4562cd13e62e2eaed0ecfd4e4ac7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 09/89] fix: don't give Cache-Control directives without an
 argument the value 'None'

---
 httplint/field/parsers/cache_control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index c475fae..967156b 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -35,6 +35,9 @@ KNOWN_CC: Dict[str, Tuple[bool, bool, Union[None, Callable[..., Any]], str]] = {
     "post-check": (False, True, parse_digits, "integer"),
 }
 
+# known cache directives whose argument is optional
+OPTIONAL_VALUE_CC = ["max-stale", "no-cache", "private"]
+
 # cache directives and those they override. Listed in order of
 # significance; only the first match will be shown.
 CONFLICTING_CC: List[Tuple[str, List[str]]] = [
@@ -114,7 +117,7 @@ ignoring it there."""
             if value_func is None:
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
-            else:
+            elif directive_val is not None or directive_name not in OPTIONAL_VALUE_CC:
                 try:
                     val = value_func(directive_val)
                     if isinstance(val, int) and val > 2147483648:
-- 
2.43.0


From d0f40f400a303fac58f48aabe1c0e13908d82e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 10/89] fix: report directives, languages and codings in a
 stable order

---
 httplint/field/parsers/cache_control.py     | 4 ++--
 httplint/field/parsers/content_language.py  | 6 +++---
 httplint/field/parsers/transfer_encoding.py | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 967156b..49c8f12 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -142,7 +142,7 @@ ignoring it there."""
         if self.message.message_type == "response":
             for directive, potential_conflicts in CONFLICTING_CC:
                 if directive in cc_list:
-                    conflicts = list(set(cc_list).intersection(set(potential_conflicts)))
+                    conflicts = [d for d in potential_conflicts if d in cc_list]
                     if len(conflicts) > 0:
                         add_note(
                             CC_CONFLICTING,
@@ -151,7 +151,7 @@ ignoring it there."""
                         )
                         break  # only show the first conflict
 
-        for directive in set(cc_list):
+        for directive in dict.fromkeys(cc_list):
             # wrong message type
             if (
                 self.message.message_type == "request"
diff --git a/httplint/field/parsers/content_language.py b/httplint/field/parsers/content_language.py
index 6dff857..003e8ee 100644
--- a/httplint/field/parsers/content_language.py
+++ b/httplint/field/parsers/content_language.py
@@ -26,12 +26,12 @@ messsage. Note that this might not convey all of the languages used."""
         if self.value:
             if len(self.value) != len(set(self.value)):
                 seen = set()
-                duplicates = set()
+                duplicates = []
                 for lang in self.value:
                     if lang in seen:
-                        duplicates.add(lang)
+                        duplicates.append(lang)
                     seen.add(lang)
-                for lang in duplicates:
+                for lang in dict.fromkeys(duplicates):
                     add_note(CONTENT_LANGUAGE_DUP, lang=lang)
 
 
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index f4f1366..d9eb3ee 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -46,7 +46,9 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
         return coding, param_dict
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        unwanted = {c[0] for c in self.value if c[0] not in ["chunked", "identity"]}
+        unwanted = list(
+            dict.fromkeys(c[0] for c in self.value if c[0] not in ["chunked", "identity"])
+        )
         if unwanted:
             # check to see if the client asked for it
             if (
@@ -56,7 +58,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             ):
                 request = response.request
                 te = [t[0] for t in request.headers.parsed.get("te", [])]
-                unwanted = {c for c in unwanted if c not in te}
+                unwanted = [c for c in unwanted if c not in te]
 
         if unwanted:
             for coding in unwanted:
-- 
2.43.0


From 981da69a23ac1366cfa845196b6f077ae29a8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 11/89] fix: don't depend on field order when comparing fields

---
 httplint/field/parsers/content_length.py | 2 +-
 httplint/field/parsers/date.py           | 2 +-
 httplint/field/parsers/last_modified.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index d31bd0c..14b8bcd 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -35,7 +35,7 @@ store the response (since they can't be sure if they have the whole response).""
             add_note(CL_TOO_LARGE)
         return value
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if "transfer-encoding" in self.message.headers.parsed:
             add_note(CL_AND_TE_PRESENT)
 
diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index c190eaa..751280d 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -27,7 +27,7 @@ It is used by caches as input to expiration calculations, and to detect clock dr
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if self.message.message_type == "response" and self.message.start_time and self.value:
             age_value = self.message.headers.parsed.get("age", 0) or 0
             skew = self.value - int(self.message.start_time) + age_value
diff --git a/httplint/field/parsers/last_modified.py b/httplint/field/parsers/last_modified.py
index 9ccce42..6192a2b 100644
--- a/httplint/field/parsers/last_modified.py
+++ b/httplint/field/parsers/last_modified.py
@@ -24,7 +24,7 @@ representation was last modified."""
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         date_value = self.message.headers.parsed.get("date", None)
         lm_value = self.value
         if lm_value:
-- 
2.43.0


From 1a7e238e5741dd505fa3e606801c81f17c38a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 12/89] fix: compare Accept-CH with Vary case-insensitively

---
 httplint/field/parsers/accept_ch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_ch.py b/httplint/field/parsers/accept_ch.py
index 806ba1a..fc1a424 100644
--- a/httplint/field/parsers/accept_ch.py
+++ b/httplint/field/parsers/accept_ch.py
@@ -54,7 +54,9 @@ willing to process."""
             for item in self.value:
                 # item is (value, params)
                 field_name = item[0]
-                if field_name not in vary_header:
+                if not isinstance(field_name, Token):
+                    continue
+                if str(field_name).lower() not in vary_header:
                     missing_vary.append(str(field_name))
 
             if missing_vary:
-- 
2.43.0


From 0f50f9767e6eb789f33e9ff068e151cd1a0b4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 13/89] fix: use one year as the HSTS max-age threshold

---
 .../parsers/strict_transport_security.py      | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 26c08ea..0ae713e 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -94,7 +94,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if (
                 parsed["includesubdomains"]
                 and parsed["max-age"] is not None
-                and parsed["max-age"] >= 1536000
+                and parsed["max-age"] >= 31536000
             ):
                 notes_to_add.append(HSTS_PRELOAD)
             else:
@@ -109,7 +109,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             is_valid = False
         elif parsed["max-age"] == 0:
             notes_to_add.append(HSTS_MAX_AGE_ZERO)
-        elif parsed["max-age"] < 1536000:
+        elif parsed["max-age"] < 31536000:
             notes_to_add.append(HSTS_SHORT_MAX_AGE)
 
         if parsed["includesubdomains"]:
@@ -304,8 +304,8 @@ directive. It should not have an associated value."""
 
 class HSTSTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000; includeSubDomains"]
-    expected_out = {"max-age": 31536000, "includesubdomains": True, "preload": False}
+    inputs = [b"max-age=331536000; includeSubDomains"]
+    expected_out = {"max-age": 331536000, "includesubdomains": True, "preload": False}
     expected_notes: NoteClassListType = [HSTS_SUBDOMAINS, HSTS_NO_PRELOAD, HSTS_VALID]
 
     def set_response_context(self, message: ResponseLinterProtocol) -> None:
@@ -314,8 +314,8 @@ class HSTSTest(FieldTest[ResponseLinterProtocol]):
 
 class HSTSValidTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000; includeSubDomains; preload"]
-    expected_out = {"max-age": 31536000, "includesubdomains": True, "preload": True}
+    inputs = [b"max-age=331536000; includeSubDomains; preload"]
+    expected_out = {"max-age": 331536000, "includesubdomains": True, "preload": True}
     expected_notes: NoteClassListType = [HSTS_SUBDOMAINS, HSTS_PRELOAD, HSTS_VALID]
 
     def set_response_context(self, message: ResponseLinterProtocol) -> None:
@@ -324,8 +324,8 @@ class HSTSValidTest(FieldTest[ResponseLinterProtocol]):
 
 class HSTSHttpTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000"]
-    expected_out = {"max-age": 31536000, "includesubdomains": False, "preload": False}
+    inputs = [b"max-age=331536000"]
+    expected_out = {"max-age": 331536000, "includesubdomains": False, "preload": False}
     expected_notes: NoteClassListType = [
         HSTS_OVER_HTTP,
         HSTS_NO_SUBDOMAINS,
@@ -339,8 +339,8 @@ class HSTSHttpTest(FieldTest[ResponseLinterProtocol]):
 
 class HSTSDuplicateTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000; max-age=100"]
-    expected_out = {"max-age": 31536000, "includesubdomains": False, "preload": False}
+    inputs = [b"max-age=331536000; max-age=100"]
+    expected_out = {"max-age": 331536000, "includesubdomains": False, "preload": False}
     expected_notes: NoteClassListType = [
         HSTS_DUPLICATE_DIRECTIVE,
         HSTS_NO_SUBDOMAINS,
@@ -354,8 +354,8 @@ class HSTSDuplicateTest(FieldTest[ResponseLinterProtocol]):
 
 class HSTSTripleDuplicateTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000; max-age=100; max-age=200"]
-    expected_out = {"max-age": 31536000, "includesubdomains": False, "preload": False}
+    inputs = [b"max-age=331536000; max-age=100; max-age=200"]
+    expected_out = {"max-age": 331536000, "includesubdomains": False, "preload": False}
     expected_notes: NoteClassListType = [
         HSTS_DUPLICATE_DIRECTIVE,
         HSTS_NO_SUBDOMAINS,
@@ -369,8 +369,8 @@ class HSTSTripleDuplicateTest(FieldTest[ResponseLinterProtocol]):
 
 class HSTSMultipleHeadersTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000", b"max-age=0"]
-    expected_out = {"max-age": 31536000, "includesubdomains": False, "preload": False}
+    inputs = [b"max-age=331536000", b"max-age=0"]
+    expected_out = {"max-age": 331536000, "includesubdomains": False, "preload": False}
     expected_notes: NoteClassListType = [
         SINGLE_HEADER_REPEAT,
         HSTS_NO_SUBDOMAINS,
@@ -429,8 +429,8 @@ class HSTSMaxAgeZeroTest(FieldTest[ResponseLinterProtocol]):
 
 class HSTSNoSubdomainsTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000"]
-    expected_out = {"max-age": 31536000, "includesubdomains": False, "preload": False}
+    inputs = [b"max-age=331536000"]
+    expected_out = {"max-age": 331536000, "includesubdomains": False, "preload": False}
     expected_notes: NoteClassListType = [HSTS_NO_SUBDOMAINS, HSTS_NO_PRELOAD, HSTS_VALID]
 
     def set_response_context(self, message: ResponseLinterProtocol) -> None:
@@ -469,8 +469,8 @@ class HSTSBadMaxAgeValueTest(FieldTest[ResponseLinterProtocol]):
 
 class HSTSTrailingSemicolonTest(FieldTest[ResponseLinterProtocol]):
     name = "Strict-Transport-Security"
-    inputs = [b"max-age=31536000;includeSubdomains;"]
-    expected_out = {"max-age": 31536000, "includesubdomains": True, "preload": False}
+    inputs = [b"max-age=331536000;includeSubdomains;"]
+    expected_out = {"max-age": 331536000, "includesubdomains": True, "preload": False}
     expected_notes: NoteClassListType = [
         HSTS_SUBDOMAINS,
         HSTS_NO_PRELOAD,
-- 
2.43.0


From 717a9561c24e11d38500865aedb0b15c4f920fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 14/89] fix: don't find X-Frame-Options values inside other
 values

---
 httplint/field/parsers/x_frame_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/x_frame_options.py b/httplint/field/parsers/x_frame_options.py
index 194a7ec..aae9018 100644
--- a/httplint/field/parsers/x_frame_options.py
+++ b/httplint/field/parsers/x_frame_options.py
@@ -38,9 +38,9 @@ the transmitted content in frames that are part of other web pages.
         return field_value.upper()
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "DENY" in self.value:
+        if self.value == "DENY":
             add_note(FRAME_OPTIONS_DENY)
-        elif "SAMEORIGIN" in self.value:
+        elif self.value == "SAMEORIGIN":
             add_note(FRAME_OPTIONS_SAMEORIGIN)
         else:
             add_note(FRAME_OPTIONS_UNKNOWN)
-- 
2.43.0


From e396f62e84a42f55af8ca84bccd2006b72dd3711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 15/89] fix: compare nosniff case-insensitively, and only with
 the first value

---
 httplint/field/parsers/x_content_type_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/x_content_type_options.py b/httplint/field/parsers/x_content_type_options.py
index bc0c43d..978e94f 100644
--- a/httplint/field/parsers/x_content_type_options.py
+++ b/httplint/field/parsers/x_content_type_options.py
@@ -15,7 +15,7 @@ Indicates that the client should not 'sniff' the `Content-Type` of the message f
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "nosniff" in self.value:
+        if self.value and self.value[0].lower() == "nosniff":
             add_note(CONTENT_TYPE_OPTIONS)
         else:
             add_note(CONTENT_TYPE_OPTIONS_UNKNOWN)
-- 
2.43.0


From b813d60d10effee367cc2de6fd40b2d790c0b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 16/89] fix: find path characters in both Content-Disposition
 filenames

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 14ada6c..47d3240 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -39,7 +39,7 @@ the file, rather than display it."""
         filename_star = param_dict.get("filename*", None)
         if filename and "%" in filename:
             add_note(DISPOSITION_FILENAME_PERCENT)
-        if (filename and "/" in filename) or (filename_star and r"\\" in filename_star):
+        if any(char in name for name in (filename, filename_star) if name for char in "/\\"):
             add_note(DISPOSITION_FILENAME_PATH_CHAR)
         return disposition, param_dict
 
-- 
2.43.0


From ea66f1a0676c4988f517f85ba6e4315c5f905290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 17/89] fix: allow whitespace before a semicolon

---
 httplint/field/parsers/accept_encoding.py     | 2 +-
 httplint/field/parsers/accept_language.py     | 2 +-
 httplint/field/parsers/content_disposition.py | 2 +-
 httplint/field/parsers/te.py                  | 2 +-
 httplint/field/parsers/transfer_encoding.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/httplint/field/parsers/accept_encoding.py b/httplint/field/parsers/accept_encoding.py
index e4dbb2a..3effbac 100644
--- a/httplint/field/parsers/accept_encoding.py
+++ b/httplint/field/parsers/accept_encoding.py
@@ -27,7 +27,7 @@ acceptable in the response."""
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index c86f6dd..7aa019e 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -36,7 +36,7 @@ preferred in the response."""
         except ValueError:
             language, param_str = field_value, ""
 
-        language = language.lower()
+        language = language.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
 
         q_val: Optional[float] = None
diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 47d3240..bf6001f 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -29,7 +29,7 @@ the file, rather than display it."""
             disposition, param_str = field_value.split(";", 1)
         except ValueError:
             disposition, param_str = field_value, ""
-        disposition = disposition.lower()
+        disposition = disposition.strip().lower()
         param_dict = parse_params(param_str, add_note)
         if disposition not in ["inline", "attachment"]:
             add_note(DISPOSITION_UNKNOWN, disposition=disposition)
diff --git a/httplint/field/parsers/te.py b/httplint/field/parsers/te.py
index 830a2a0..010e538 100644
--- a/httplint/field/parsers/te.py
+++ b/httplint/field/parsers/te.py
@@ -26,7 +26,7 @@ The most common transfer-coding, `chunked`, doesn't need to be listed in `TE`.
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index d9eb3ee..ea96549 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -39,7 +39,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             coding, param_str = field_value.split(";", 1)
         except ValueError:
             coding, param_str = field_value, ""
-        coding = coding.lower()
+        coding = coding.strip().lower()
         param_dict = parse_params(param_str, add_note, True)
         if param_dict:
             add_note(TRANSFER_CODING_PARAM)
-- 
2.43.0


From 7ca28b2bbe635002a4106290a4644ebaca2d6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 18/89] fix: don't consider a response storable when it's
 reported not to be

---
 httplint/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 0380854..32270d6 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -108,14 +108,16 @@ class ResponseCacheChecker:
             if (
                 "public" in self.cc_dict
                 or "private" in self.cc_dict
-                or self.expires_value
+                or self.expires_value is not None
                 or "max-age" in self.cc_dict
                 or self._response.status_code in HEURISTIC_CACHEABLE_STATUS
             ):
                 self.notes.add("field-cache-control", STORE_STORABLE)
             elif "s-maxage" in self.cc_dict:
+                self.store_private = False
                 self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
             else:
+                self.store_shared = self.store_private = False
                 self.notes.add("field-cache-control", STORE_UNSTORABLE)
                 return False
 
-- 
2.43.0


From e77a6469c4177acd65dbf6b647eee37aa77e6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 19/89] fix: allow semicolons in Link targets

---
 httplint/field/parsers/link.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index dbbbcba..fe9b058 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -27,10 +27,14 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-        try:
-            link_value, param_str = field_value.split(";", 1)
-        except ValueError:
+        # a URI can contain ";", so look for the closing bracket first
+        target = re.match(r"<[^>]*>", field_value)
+        target_end = target.end() if target else 0
+        param_start = field_value.find(";", target_end)
+        if param_start == -1:
             link_value, param_str = field_value, ""
+        else:
+            link_value, param_str = field_value[:param_start], field_value[param_start + 1 :]
         link_value = link_value.strip()[1:-1]  # trim the angle brackets
         param_dict = parse_params(
             param_str, add_note, ["rel", "rev", "anchor", "hreflang", "type", "media"]
-- 
2.43.0


From b0855fcc53a9bb8cb92478b93fb5efd53276ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 20/89] fix: only accept q values with the right syntax

---
 httplint/field/parsers/accept.py          | 8 ++------
 httplint/field/parsers/accept_language.py | 8 ++------
 httplint/field/utils.py                   | 9 +++++++++
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/httplint/field/parsers/accept.py b/httplint/field/parsers/accept.py
index fd2c048..78fd43a 100644
--- a/httplint/field/parsers/accept.py
+++ b/httplint/field/parsers/accept.py
@@ -4,7 +4,7 @@ from typing import Optional
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_media_type
+from httplint.field.utils import parse_media_type, parse_qvalue
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -48,11 +48,7 @@ acceptable in responses."""
                 q_str = param_dict.pop("q")
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:  # 0.123
-                    raise ValueError
-                q_val = float(q_str)
-                if not 0.0 <= q_val <= 1.0:
-                    raise ValueError
+                q_val = parse_qvalue(q_str)
             except (ValueError, TypeError):
                 add_note(BAD_Q_VALUE, media_type=media_type)
                 q_val = None  # Discard invalid q
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index 7aa019e..d560269 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -4,7 +4,7 @@ from typing import Optional
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_params
+from httplint.field.utils import parse_params, parse_qvalue
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -45,11 +45,7 @@ preferred in the response."""
             try:
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:
-                    raise ValueError
-                q_val = float(q_str)
-                if not 0.0 <= q_val <= 1.0:
-                    raise ValueError
+                q_val = parse_qvalue(q_str)
             except (ValueError, TypeError):
                 add_note(BAD_Q_VALUE, language=language)
                 q_val = None
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index a470c10..429d99e 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -136,6 +136,15 @@ def parse_digits(value: str) -> int:
     return int(value)
 
 
+def parse_qvalue(value: str) -> float:
+    """
+    Parse a qvalue (RFC 9110, Section 12.4.2). Raises ValueError if it's bad.
+    """
+    if not re.fullmatch(r"0(?:\.[0-9]{0,3})?|1(?:\.0{0,3})?", value):
+        raise ValueError
+    return float(value)
+
+
 def unquote_string(instr: str) -> str:
     """
     Unquote a unicode string; does NOT unquote control characters.
-- 
2.43.0


From 67b7ac68506338f5c755a72e798369c90ad561dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 21/89] fix: show the language in BAD_Q_VALUE

---
 httplint/field/parsers/accept_language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index d560269..ce66dbb 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -63,7 +63,7 @@ preferred in the response."""
 class BAD_Q_VALUE(Note):
     category = categories.CONNEG
     level = levels.WARN
-    _summary = "The q value on '{language}' is invalid."
+    _summary = "The q value on '%(language)s' is invalid."
     _text = """\
 The `q` parameter must be a decimal number between 0 and 1, with at most 3 digits of precision."""
 
-- 
2.43.0


From fbcc11ba6591bccb80b719980e338ca991bf17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 22/89] fix: parse cookie dates as RFC 6265 specifies

---
 httplint/field/parsers/set_cookie.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 51e7c4b..929d642 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -1,4 +1,4 @@
-from calendar import timegm
+from calendar import monthrange, timegm
 from re import match, split
 from typing import Any, List, Optional, Tuple, Union
 from urllib.parse import urlsplit
@@ -333,7 +333,7 @@ def loose_date_parse(cookie_date: str) -> int:
     for date_token in date_tokens:
         re_match = None
         if not found_time:
-            re_match = match(r"^(\d{2}:\d{2}:\d{2})(?:\D)?", date_token)
+            re_match = match(r"^([0-9]{1,2}:[0-9]{1,2}:[0-9]{1,2})(?:[^0-9]|$)", date_token)
             if re_match:
                 found_time = True
                 hour_value, minute_value, second_value = [
@@ -341,7 +341,7 @@ def loose_date_parse(cookie_date: str) -> int:
                 ]
                 continue
         if not found_day_of_month:
-            re_match = match(r"^(\d\d?)(?:\D)?", date_token)
+            re_match = match(r"^([0-9]{1,2})(?:[^0-9]|$)", date_token)
             if re_match:
                 found_day_of_month = True
                 day_of_month_value = int(re_match.group(1))
@@ -351,7 +351,7 @@ def loose_date_parse(cookie_date: str) -> int:
             month_value = MONTHS[date_token[:3].lower()]
             continue
         if not found_year:
-            re_match = match(r"^(\d{2,4})(?:\D)?", date_token)
+            re_match = match(r"^([0-9]{2,4})(?:[^0-9]|$)", date_token)
             if re_match:
                 found_year = True
                 year_value = int(re_match.group(1))
@@ -371,10 +371,10 @@ def loose_date_parse(cookie_date: str) -> int:
         year_value += 1900
     if 69 >= year_value >= 0:
         year_value += 2000
-    if not 1 <= day_of_month_value <= 31:
-        raise ValueError(f"{day_of_month_value} is out of range for day_of_month")
     if year_value < 1601:
         raise ValueError(f"{year_value} is out of range for year")
+    if not 1 <= day_of_month_value <= monthrange(year_value, month_value)[1]:
+        raise ValueError(f"{day_of_month_value} is out of range for day_of_month")
     if hour_value > 23:
         raise ValueError(f"{hour_value} is out of range for hour")
     if minute_value > 59:
-- 
2.43.0


From abab55e2f50535aa6086144efe67f99d4cc995df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 23/89] fix: don't check the content type of 199 responses

---
 httplint/charset.py      | 2 +-
 httplint/content_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 2f3916d..9a73fc6 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -41,7 +41,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
diff --git a/httplint/content_type.py b/httplint/content_type.py
index 646e2b4..eb5822d 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -22,7 +22,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
 
     # Don't verify content type for responses that don't carry a full representation
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
-- 
2.43.0


From 960bbab15d284668f4c86a6a61299e6fe82cb2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 24/89] fix: don't accept booleans as numbers

---
 httplint/field/parsers/cdn_cache_control.py |  2 +-
 httplint/field/parsers/nel.py               | 12 ++++++++----
 httplint/field/parsers/report_to.py         |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/cdn_cache_control.py b/httplint/field/parsers/cdn_cache_control.py
index 4924d38..e994fee 100644
--- a/httplint/field/parsers/cdn_cache_control.py
+++ b/httplint/field/parsers/cdn_cache_control.py
@@ -47,7 +47,7 @@ The `CDN-Cache-Control` header field targets cache directives to Content Deliver
                         )
                 elif value_func is parse_digits:
                     # Expecting integer
-                    if not isinstance(directive_val, int):
+                    if isinstance(directive_val, bool) or not isinstance(directive_val, int):
                         add_note(
                             BAD_CDN_CC_TYPE,
                             bad_directive=directive_name,
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index dce989d..733a3a9 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -69,7 +69,7 @@ It allows websites to declare that they want to receive reports about network er
             if "max_age" not in policy:
                 add_note(NEL_MISSING_KEY, key="max_age")
                 clean = False
-            elif not isinstance(policy["max_age"], int):
+            elif type(policy["max_age"]) is not int:  # pylint: disable=unidiomatic-typecheck
                 add_note(NEL_BAD_TYPE, key="max_age", expected="integer")
                 clean = False
 
@@ -81,19 +81,23 @@ It allows websites to declare that they want to receive reports about network er
                 clean = False
 
             if "success_fraction" in policy:
-                if not isinstance(policy["success_fraction"], (int, float)):
+                if isinstance(policy["success_fraction"], bool) or not isinstance(
+                    policy["success_fraction"], (int, float)
+                ):
                     add_note(NEL_BAD_TYPE, key="success_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["success_fraction"] <= 1.0:
                     add_note(
                         NEL_BAD_VALUE,
                         key="success_fraction",
-                        details="itmust be between 0.0 and 1.0",
+                        details="it must be between 0.0 and 1.0",
                     )
                     clean = False
 
             if "failure_fraction" in policy:
-                if not isinstance(policy["failure_fraction"], (int, float)):
+                if isinstance(policy["failure_fraction"], bool) or not isinstance(
+                    policy["failure_fraction"], (int, float)
+                ):
                     add_note(NEL_BAD_TYPE, key="failure_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["failure_fraction"] <= 1.0:
diff --git a/httplint/field/parsers/report_to.py b/httplint/field/parsers/report_to.py
index ac38996..b13d7a5 100644
--- a/httplint/field/parsers/report_to.py
+++ b/httplint/field/parsers/report_to.py
@@ -25,7 +25,7 @@ It has been replaced by the Reporting-Endpoints header field."""
             # max_age is required
             if "max_age" not in group:
                 add_note(REPORT_TO_MISSING_KEY, key="max_age")
-            elif not isinstance(group["max_age"], int):
+            elif type(group["max_age"]) is not int:  # pylint: disable=unidiomatic-typecheck
                 add_note(REPORT_TO_BAD_TYPE, key="max_age", expected="integer")
 
             # endpoints is required
-- 
2.43.0


From 16afda021aa1d620cff3b813ed972b43672125a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 25/89] fix: count fields that fail pre-checks

---
 httplint/field/section.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index ce27bea..53d8917 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -39,9 +39,8 @@ class FieldSection:
             - calculate the total section size
             - call msg.add_note as appropriate
         """
-        offset = 0  # what number field we're on
-
-        for name, value in raw_fields:
+        # offset is what number field we're on
+        for offset, (name, value) in enumerate(raw_fields):
             add_note = partial(self.message.notes.add, f"offset-{offset}")
 
             # track size
@@ -66,9 +65,8 @@ class FieldSection:
                 add_note,
                 field_name=handler.canonical_name,
             )
-            if not handler.pre_check(field_add_note):
-                continue
-            handler.handle_input(str_value, field_add_note, offset)
+            if handler.pre_check(field_add_note):
+                handler.handle_input(str_value, field_add_note, offset)
 
             if field_size > self.max_field_size:
                 add_note(
@@ -76,7 +74,6 @@ class FieldSection:
                     field_name=handler.canonical_name,
                     field_size=f_num(field_size),
                 )
-            offset += 1
 
         if self.size > self.max_total_size:
             self.message.notes.add(
-- 
2.43.0


From f15b440f22f46ba21bf64862ff2611b6480d3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 26/89] fix: match URIs with an empty path, IPv6 address or
 userinfo

---
 httplint/syntax/rfc3986.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 5509735..6fbdf34 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -77,13 +77,13 @@ ls32 = rf"(?: (?: {h16} : {h16} ) | {IPv4address} )"
 #                 / [ *6( h16 ":" ) h16 ] "::"
 IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
                                                  :: (?: {h16} : ){{5}} {ls32} |
-                                           {h16} :: (?: {h16} : ){{4}} {ls32} |
-                        (?: {h16} : )      {h16} :: (?: {h16} : ){{3}} {ls32} |
-                        (?: {h16} : ){{2}} {h16} :: (?: {h16} : ){{2}} {ls32} |
-                        (?: {h16} : ){{3}} {h16} ::     {h16} :        {ls32} |
-                        (?: {h16} : ){{4}} {h16} ::                    {ls32} |
-                        (?: {h16} : ){{5}} {h16} ::                    {h16}  |
-                        (?: {h16} : ){{6}} {h16} ::
+                         (?:                {h16} )? :: (?: {h16} : ){{4}} {ls32} |
+                         (?: (?: {h16} : ){{0,1}} {h16} )? :: (?: {h16} : ){{3}} {ls32} |
+                         (?: (?: {h16} : ){{0,2}} {h16} )? :: (?: {h16} : ){{2}} {ls32} |
+                         (?: (?: {h16} : ){{0,3}} {h16} )? ::     {h16} :        {ls32} |
+                         (?: (?: {h16} : ){{0,4}} {h16} )? ::                    {ls32} |
+                         (?: (?: {h16} : ){{0,5}} {h16} )? ::                    {h16}  |
+                         (?: (?: {h16} : ){{0,6}} {h16} )? ::
                     )
 """
 
@@ -97,7 +97,7 @@ IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
 reg_name = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} )*"
 
 #   userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
-userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )"
+userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )*"
 
 #   host          = IP-literal / IPv4address / reg-name
 host = rf"(?: {IP_literal} | {IPv4address} | {reg_name} )"
@@ -134,7 +134,7 @@ path_noscheme = rf"{segment_nz_nc} (?: / {segment} )*"
 path_rootless = rf"{segment_nz} (?: / {segment} )*"
 
 #   path-empty    = 0<pchar>
-path_empty = rf"{pchar}{0}"
+path_empty = rf"{pchar}{{0}}"
 
 #   path          = path-abempty    ; begins with "/" or is empty
 #                 / path-absolute   ; begins with "/" but not "//"
-- 
2.43.0


From 19435995582b96f275d0b989586711d1988b9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 27/89] fix: require a question mark before the query in
 partial-URI

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 8cf0720..3cfa258 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -262,7 +262,7 @@ Content_Length = rf"{DIGIT}+"
 
 #   partial-URI = relative-part [ "?" query ]
 
-partial_URI = rf"(?: {relative_part} (?: {query} )? )"
+partial_URI = rf"(?: {relative_part} (?: \? {query} )? )"
 
 #   Content-Location = absolute-URI / partial-URI
 
-- 
2.43.0


From aaf3fd82ef31fe35f1a168b058e603990103c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 28/89] fix: don't expect content in 1xx and 204 responses

---
 httplint/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/message.py b/httplint/message.py
index 3e0562a..986fcf6 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -302,7 +302,9 @@ class HttpResponseLinter(HttpMessageLinter):
     def can_have_content(self) -> bool:
         if self.is_head_response:
             return False
-        if self.status_code in [304]:
+        if self.status_code is not None and 100 <= self.status_code <= 199:
+            return False
+        if self.status_code in [204, 304]:
             return False
         return True
 
-- 
2.43.0


From a7b395899c34bf5a9e20170865e4c31cd04b1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 29/89] fix: allow commas in Link targets

---
 httplint/field/list_field.py   | 10 ++++++++--
 httplint/field/parsers/link.py |  8 ++++++--
 httplint/field/utils.py        | 10 +++++++---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 183f00f..4f6046c 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -1,6 +1,6 @@
 import re
 from functools import partial
-from typing import Any, Generic
+from typing import Any, Generic, List
 
 from httplint.field import BAD_SYNTAX, BAD_SYNTAX_DETAILED, HttpField
 from httplint.field.utils import RE_FLAGS, split_list_field
@@ -13,6 +13,12 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
     A HTTP field that allows multiple values, separated by commas.
     """
 
+    def split(self, field_value: str) -> List[str]:
+        """
+        Given a string representing a field line, split it into its members.
+        """
+        return split_list_field(field_value)
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Any:
         """
         Given a string representing one value (after comma splitting), parse and return the result.
@@ -21,7 +27,7 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
         return field_value
 
     def handle_input(self, field_value: str, add_note: AddNoteMethodType, offset: int) -> None:
-        values = split_list_field(field_value)
+        values = self.split(field_value)
         i = 0
         for value in values:
             offset_add_note = partial(
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index fe9b058..3d71b69 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -1,11 +1,11 @@
 import re
-from typing import Tuple
+from typing import List, Tuple
 from urllib.parse import urljoin, urlsplit
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import PARAM_REPEATS, parse_params
+from httplint.field.utils import PARAM_REPEATS, parse_params, split_list_field
 from httplint.note import MarkdownSafe, Note, categories, code_span, levels
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
@@ -26,6 +26,10 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
     syntax = rfc8288.Link
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # a URI can contain ","
+        return split_list_field(field_value, rf"(?: <[^>]*> | {rfc9110.quoted_string} )")
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
         # a URI can contain ";", so look for the closing bracket first
         target = re.match(r"<[^>]*>", field_value)
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 429d99e..315a903 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -177,14 +177,18 @@ def split_string(instr: str, item: str, split: str) -> List[str]:
     return [h.strip() for h in re.findall(rf"{item}(?={split}|\s*$)", instr, re.VERBOSE)]
 
 
-def split_list_field(field_value: str) -> List[str]:
-    "Split a field field value on commas. needs to conform to the #rule."
+def split_list_field(field_value: str, delimited: str = rfc9110.quoted_string) -> List[str]:
+    """
+    Split a field field value on commas. needs to conform to the #rule.
+
+    Commas inside anything that matches ``delimited`` don't separate members.
+    """
     return [
         stripped
         for stripped in (
             f.strip()
             for f in re.findall(
-                r'((?:[^",]|%s)+)(?=%s|\s*$)' % (rfc9110.quoted_string, r"(?:\s*(?:,\s*)+)"),
+                r'((?:%s|[^",])+)(?=%s|\s*$)' % (delimited, r"(?:\s*(?:,\s*)+)"),
                 field_value,
                 RE_FLAGS,
             )
-- 
2.43.0


From ebe1f25712fe7bdaf721896054df1fbc57aa7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 30/89] fix: use RFC 9110's list of heuristically cacheable
 status codes

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 32270d6..a10214c 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -7,7 +7,7 @@ from httplint.util import relative_time
 
 ### configuration
 CACHEABLE_METHODS = ["GET", "HEAD"]
-HEURISTIC_CACHEABLE_STATUS = [200, 203, 206, 300, 301, 410]
+HEURISTIC_CACHEABLE_STATUS = [200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501]
 
 
 class ResponseCacheChecker:
-- 
2.43.0


From 89ce732ddf724c160e8788669ab6a0e11f313a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 31/89] fix: use the first occurrence of a repeated cache
 directive

---
 httplint/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index a10214c..98f0a08 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -28,7 +28,8 @@ class ResponseCacheChecker:
         self.etag_value = response.headers.parsed.get("etag", None)
         self.vary_value = response.headers.parsed.get("vary", set())
         self.cc_value = response.headers.parsed.get("cache-control", [])
-        self.cc_dict = dict(self.cc_value)
+        # when a directive is repeated, the first occurrence is used (RFC 9111, Section 4.2.1)
+        self.cc_dict = dict(reversed(self.cc_value))
 
         if self._request is not None:
             self.request_time = self._request.start_time
-- 
2.43.0


From 7e06227b099c5528e14e2972454059c641643285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 32/89] fix: use Expires with Date when the local time isn't
 known

---
 httplint/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 98f0a08..1a7efae 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -152,12 +152,12 @@ class ResponseCacheChecker:
         self.has_explicit_freshness = False
         self.has_heuristic_freshness = False
         freshness_hdrs = ["field-date"]
-        if expires_hdr_present and self.response_time:
+        if expires_hdr_present and (self.date_value or self.response_time):
             # An invalid Expires header means it's automatically stale
             self.has_explicit_freshness = True
             freshness_hdrs.append("field-expires")
             expires_lifetime = self.freshness_lifetime_shared = (self.expires_value or 0) - (
-                self.date_value or int(self.response_time)
+                self.date_value or int(self.response_time or 0)
             )
             self.freshness_lifetime_private = expires_lifetime
             self.freshness_lifetime_shared = expires_lifetime
-- 
2.43.0


From af92d612708dd4922edcf041a207ac445d68f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 33/89] fix: find fields by their whole name, and find X-Pad
 aliases

---
 httplint/field/finder.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index a27255f..e323267 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -11,14 +11,14 @@ class HttpFieldFinder:
 
     # map of field name aliases, lowercase-normalised
     field_aliases = {
-        "x-pad-for-netscrape-bug": "x-pad",
-        "xx-pad": "x-pad",
-        "x-browseralignment": "x-pad",
+        "x-pad-for-netscrape-bug": "x_pad",
+        "xx-pad": "x_pad",
+        "x-browseralignment": "x_pad",
         "nncoection": "connectiox",
         "cneonction": "connectiox",
         "yyyyyyyyyy": "connectiox",
         "xxxxxxxxxx": "connectiox",
-        "x_cnection": "connectiox",
+        "x-cnection": "connectiox",
         "_onnection": "connectiox",
         "from": "from_field",
     }
@@ -51,13 +51,15 @@ class HttpFieldFinder:
         Return a handler class for the given field name. Returns None if not found.
         """
 
+        norm_name = field_name.lower()
         name_token = HttpFieldFinder.name_token(field_name)
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
-
         module = HttpFieldFinder.find_module(field_name)
         if module and hasattr(module, name_token):
-            return cast(Type[HttpField[Any]], getattr(module, name_token))
+            handler_class = cast(Type[HttpField[Any]], getattr(module, name_token))
+            # other names can have the same token; e.g., "Content_Type", "From-Field"
+            canonical_name = getattr(handler_class, "canonical_name", field_name)
+            if norm_name in HttpFieldFinder.field_aliases or canonical_name.lower() == norm_name:
+                return handler_class
         if field_name.lower() in deprecated.field_lookup:
             return deprecated.DeprecatedField
         if field_name.lower() in unnecessary.UNNECESSARY_FIELDS:
@@ -72,8 +74,6 @@ class HttpFieldFinder:
         name_token = HttpFieldFinder.name_token(field_name)
         if name_token[0:1] == "_":  # these are special
             return None
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
         try:
             module_name = f"httplint.field.parsers.{name_token}"
             return sys.modules[module_name]
@@ -85,7 +85,10 @@ class HttpFieldFinder:
         """
         Return a tokenised, python-friendly name for a field.
         """
-        return field_name.replace("-", "_").lower()
+        norm_name = field_name.lower()
+        if norm_name in HttpFieldFinder.field_aliases:
+            return HttpFieldFinder.field_aliases[norm_name]
+        return norm_name.replace("-", "_")
 
 
 class UnknownHttpField(HttpField[Any]):
-- 
2.43.0


From 5f05cc597bac9e3287a4e9c7d672afc9f87f1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 34/89] fix: report whitespace around field names

---
 httplint/field/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/__init__.py b/httplint/field/__init__.py
index 0f2afab..c684d52 100644
--- a/httplint/field/__init__.py
+++ b/httplint/field/__init__.py
@@ -98,7 +98,7 @@ class HttpField(ABC, Generic[TMessage]):
             cls._valid_in_responses = True
 
     def __init__(self, wire_name: str, message: TMessage) -> None:
-        self.wire_name = wire_name.strip()
+        self.wire_name = wire_name
         self.message = message
         self.norm_name = self.wire_name.lower()
         if not hasattr(self, "canonical_name"):
@@ -140,7 +140,7 @@ class HttpField(ABC, Generic[TMessage]):
                 return False
 
         # check field name syntax
-        if not re.match(f"^{rfc9110.token}$", self.wire_name, RE_FLAGS):
+        if not re.fullmatch(rfc9110.token, self.wire_name, RE_FLAGS):
             add_note(FIELD_NAME_BAD_SYNTAX)
             return False
 
-- 
2.43.0


From 5da9b3b6a0ad9c94fbf7d098ca9528d27c1069ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 35/89] fix: don't accept dates that don't exist

---
 httplint/field/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 315a903..54a7031 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -123,6 +123,17 @@ def parse_http_date(
             date_tuple = (date_tuple[0] + 1900,) + date_tuple[1:]
         else:
             date_tuple = (date_tuple[0] + 2000,) + date_tuple[1:]
+    year, month, day, hour, minute, second = date_tuple[:6]
+    # the syntax allows any digits; a leap second is 60
+    if (
+        year < 1
+        or not 1 <= day <= calendar.monthrange(year, month)[1]
+        or hour > 23
+        or minute > 59
+        or second > 60
+    ):
+        add_note(BAD_DATE_SYNTAX, category=category)
+        raise ValueError
     return calendar.timegm(date_tuple)
 
 
-- 
2.43.0


From 7982da8fb49126c7c4c54f5e5ede6994212a511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 36/89] fix: don't guess the century of four-digit years

---
 httplint/field/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 54a7031..711028b 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -124,6 +124,8 @@ def parse_http_date(
         else:
             date_tuple = (date_tuple[0] + 2000,) + date_tuple[1:]
     year, month, day, hour, minute, second = date_tuple[:6]
+    if "-" not in value:  # four digits; lib_parsedate guesses a century for the first ones
+        year = int(re.findall(r"[0-9]{4}", value)[0])
     # the syntax allows any digits; a leap second is 60
     if (
         year < 1
@@ -134,7 +136,7 @@ def parse_http_date(
     ):
         add_note(BAD_DATE_SYNTAX, category=category)
         raise ValueError
-    return calendar.timegm(date_tuple)
+    return calendar.timegm((year, month, day, hour, minute, second))
 
 
 def parse_digits(value: str) -> int:
-- 
2.43.0


From 3b1ba18978c3d00bd5212f7b2a1ab9aa92f1e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 37/89] fix: don't lose what precedes an unterminated quoted
 string

---
 httplint/field/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 711028b..16d4818 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -201,7 +201,7 @@ def split_list_field(field_value: str, delimited: str = rfc9110.quoted_string) -
         for stripped in (
             f.strip()
             for f in re.findall(
-                r'((?:%s|[^",])+)(?=%s|\s*$)' % (delimited, r"(?:\s*(?:,\s*)+)"),
+                r'((?:%s|[^,])+)(?=%s|\s*$)' % (delimited, r"(?:\s*(?:,\s*)+)"),
                 field_value,
                 RE_FLAGS,
             )
-- 
2.43.0


From 5a59796f6cb78ab0834c2bc42d91994109cd43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 38/89] fix: accept the input mode on the command line

---
 httplint/cli/http_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index e9bbb5e..67ce06c 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -22,7 +22,7 @@ class HttpCliParser(HttpMessageHandler):
 
     def __init__(self, args: Namespace, start_time: Optional[float] = None) -> None:
         self.start_time = start_time
-        self.mode = args.mode
+        self.mode = modes(args.mode)
         self.linter: HttpMessageLinter
         HttpMessageHandler.__init__(self)
 
-- 
2.43.0


From 4b43887c052d8ead3465a9a8127ad7abddecd580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 39/89] fix: read messages as bytes on the command line

---
 httplint/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/__init__.py b/httplint/cli/__init__.py
index f0a01c0..8eebd20 100644
--- a/httplint/cli/__init__.py
+++ b/httplint/cli/__init__.py
@@ -11,7 +11,7 @@ def main() -> None:
     with set_locale(args.locale):
         start_time = time.time() if args.now else None
         parser = HttpCliParser(args, start_time)
-        parser.handle_input(sys.stdin.read().encode("utf-8", "replace"))
+        parser.handle_input(sys.stdin.buffer.read())
 
 
 def getargs() -> Namespace:
-- 
2.43.0


From 2bfdf30c6fae8ac1a2ab0d90b03db54781cfe357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 40/89] fix: recognise HTTP\/1.0 as the version in Expect

---
 httplint/field/parsers/expect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/expect.py b/httplint/field/parsers/expect.py
index fe43ec6..23957ff 100644
--- a/httplint/field/parsers/expect.py
+++ b/httplint/field/parsers/expect.py
@@ -19,7 +19,7 @@ fulfilled by the server in order to properly handle the request."""
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if self.message.version == "1.0":
+        if self.message.version.rpartition("/")[2] == "1.0":
             add_note(EXPECT_HTTP_1_0)
 
         unknown_expectations = []
-- 
2.43.0


From ae5c38e76d47e1e533032ed175a48d1f48f3281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 41/89] fix: accept variants, extensions and private use in
 language tags

---
 httplint/syntax/rfc5646.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5646.py b/httplint/syntax/rfc5646.py
index a2a579f..3c3ef40 100644
--- a/httplint/syntax/rfc5646.py
+++ b/httplint/syntax/rfc5646.py
@@ -13,7 +13,7 @@ from .rfc5234 import ALPHA, DIGIT
 
 # alphanum      = (ALPHA / DIGIT)     ; letters and numbers
 
-alphanum = r"(?: {ALPHA} | {DIGIT} )"
+alphanum = rf"(?: {ALPHA} | {DIGIT} )"
 
 # irregular     = "en-GB-oed"         ; irregular tags do not match
 #               / "i-ami"             ; the 'langtag' production and
-- 
2.43.0


From 5498af28ac8243b8296ff9623cd9fb0eb6b7617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 42/89] fix: don't split challenges between their parameters

---
 httplint/field/parsers/proxy_authenticate.py |  6 ++++++
 httplint/field/parsers/www_authenticate.py   |  6 ++++++
 httplint/field/utils.py                      | 14 ++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/httplint/field/parsers/proxy_authenticate.py b/httplint/field/parsers/proxy_authenticate.py
index 96587be..d096e19 100644
--- a/httplint/field/parsers/proxy_authenticate.py
+++ b/httplint/field/parsers/proxy_authenticate.py
@@ -1,4 +1,7 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
+from httplint.field.utils import split_challenges
 from httplint.syntax import rfc9110
 from httplint.types import ResponseLinterProtocol
 
@@ -11,3 +14,6 @@ scheme and parameters applicable to the proxy for this request-target."""
     reference = f"{rfc9110.SPEC_URL}#field.proxy-authenticate"
     syntax = rfc9110.Proxy_Authenticate
     deprecated = False
+
+    def split(self, field_value: str) -> List[str]:
+        return split_challenges(field_value)
diff --git a/httplint/field/parsers/www_authenticate.py b/httplint/field/parsers/www_authenticate.py
index b1ace16..58c4287 100644
--- a/httplint/field/parsers/www_authenticate.py
+++ b/httplint/field/parsers/www_authenticate.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_challenges
 from httplint.syntax import rfc9110
 from httplint.types import NoteClassListType, ResponseLinterProtocol
 
@@ -13,6 +16,9 @@ indicates the authentication scheme(s) and parameters applicable."""
     syntax = rfc9110.WWW_Authenticate
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        return split_challenges(field_value)
+
 
 class WWWAuthenticateTest(FieldTest[ResponseLinterProtocol]):
     name = "WWW-Authenticate"
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 16d4818..941bfec 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -210,6 +210,20 @@ def split_list_field(field_value: str, delimited: str = rfc9110.quoted_string) -
     ]
 
 
+def split_challenges(field_value: str) -> List[str]:
+    """
+    Split a list of challenges. Commas also separate their parameters, so a member that
+    starts like a parameter belongs to the challenge before it.
+    """
+    challenges: List[str] = []
+    for member in split_list_field(field_value):
+        if challenges and re.match(rf"{rfc9110.token}{rfc9110.BWS}=", member, RE_FLAGS):
+            challenges[-1] += f", {member}"
+        else:
+            challenges.append(member)
+    return challenges
+
+
 def parse_params(
     instr: str,
     add_note: AddNoteMethodType,
-- 
2.43.0


From 6e80cc4db08a431b633755015b515fa9a7db8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 43/89] fix: accept commas in the comments of Server and Via

---
 httplint/field/parsers/server.py | 6 ++++++
 httplint/field/parsers/via.py    | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/httplint/field/parsers/server.py b/httplint/field/parsers/server.py
index b28a995..f380039 100644
--- a/httplint/field/parsers/server.py
+++ b/httplint/field/parsers/server.py
@@ -1,3 +1,5 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.note import Note, categories, levels
@@ -16,6 +18,10 @@ handle the request."""
     syntax = rfc9110.Server
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # not a list; comments can contain commas
+        return [field_value.strip()]
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) > MAX_SERVER_LENGTH:
             add_note(
diff --git a/httplint/field/parsers/via.py b/httplint/field/parsers/via.py
index 5203702..03a2f57 100644
--- a/httplint/field/parsers/via.py
+++ b/httplint/field/parsers/via.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_list_field
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -19,6 +22,10 @@ the request/response chain."""
     syntax = rfc9110.Via
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # comments can contain commas
+        return split_list_field(field_value, rfc9110.comment)
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         via_list = "<ul>" + "\n".join([f"<li><code>{v}</code></li>" for v in self.value]) + "</ul>"
         add_note(VIA_PRESENT, via_list=via_list)
-- 
2.43.0


From 54d4bd2e1666578be9421646abf0d7ec5b5ec095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 44/89] fix: split entity tags that contain backslashes

---
 httplint/field/parsers/if_match.py      | 7 +++++++
 httplint/field/parsers/if_none_match.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/httplint/field/parsers/if_match.py b/httplint/field/parsers/if_match.py
index 992b882..975b18c 100644
--- a/httplint/field/parsers/if_match.py
+++ b/httplint/field/parsers/if_match.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_list_field
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -16,6 +19,10 @@ having a current representation of the target resource."""
     syntax = rfc9110.If_Match
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # entity tags don't have escapes
+        return split_list_field(field_value, rfc9110.opaque_tag)
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
 
diff --git a/httplint/field/parsers/if_none_match.py b/httplint/field/parsers/if_none_match.py
index 02d90f4..0ab94e4 100644
--- a/httplint/field/parsers/if_none_match.py
+++ b/httplint/field/parsers/if_none_match.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_list_field
 from httplint.note import categories
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -19,6 +22,10 @@ any current representation of the target resource."""
     category = categories.VALIDATION
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # entity tags don't have escapes
+        return split_list_field(field_value, rfc9110.opaque_tag)
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
 
-- 
2.43.0


From 122073c7d18bf4aa5b7f9213db371ca27c131a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 45/89] fix: keep backslashes in entity tags

---
 httplint/field/parsers/etag.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/etag.py b/httplint/field/parsers/etag.py
index 8826ae4..b29c1fd 100644
--- a/httplint/field/parsers/etag.py
+++ b/httplint/field/parsers/etag.py
@@ -3,7 +3,6 @@ from typing import Tuple
 from httplint.field import BAD_SYNTAX
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
 from httplint.note import categories
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -23,9 +22,16 @@ The `ETag` header provides an opaque identifier for the representation."""
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[bool, str]:
+        # entity tags don't have escapes
         if field_value[:2] == "W/":
-            return (True, unquote_string(field_value[2:]))
-        return (False, unquote_string(field_value))
+            return (True, self._unquote(field_value[2:]))
+        return (False, self._unquote(field_value))
+
+    @staticmethod
+    def _unquote(opaque_tag: str) -> str:
+        if len(opaque_tag) > 1 and opaque_tag[0] == opaque_tag[-1] == '"':
+            return opaque_tag[1:-1]
+        return opaque_tag
 
 
 class ETagTest(FieldTest[AnyMessageLinterProtocol]):
-- 
2.43.0


From 59aada0600a9b794c9c2c367fa8856115918f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 46/89] fix: only accept upper case in weak entity tags' prefix

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 3cfa258..859da4f 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -401,7 +401,7 @@ Date = HTTP_date
 
 #   weak = %x57.2F ; W/
 
-weak = r"(?: \x57\x2F )"
+weak = r"(?-i: \x57\x2F )"
 
 #   etagc = "!" / %x23-7E ; '#'-'~' / obs-text
 
-- 
2.43.0


From e8a23bae31ec9c021cc726f9f9758ea974a78044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 47/89] fix: check range units, and accept other units' syntax

---
 httplint/field/parsers/range.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index f4ec181..671aed3 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -1,8 +1,10 @@
+import re
 from dataclasses import dataclass
 from typing import List, Optional, Tuple
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import RE_FLAGS
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, NoteClassListType, RequestLinterProtocol
@@ -35,10 +37,23 @@ parts of the representation that are specified."""
                 problem="the range specifier must contain an equals sign",
             )
             raise
+        if not re.fullmatch(rfc9110.token, unit, RE_FLAGS):
+            add_note(
+                RANGE_BAD_SYNTAX,
+                ref_uri=self.reference,
+                problem="the range unit must be a token",
+            )
+            raise ValueError
 
         ranges: List[Tuple[Optional[int], Optional[int]]] = []
         for rng in rest.split(","):
             rng = rng.strip()
+            if (
+                unit.lower() != "bytes"
+                and not re.fullmatch(rf"{rfc9110.int_range}|{rfc9110.suffix_range}", rng, RE_FLAGS)
+                and re.fullmatch(rfc9110.other_range, rng, RE_FLAGS)
+            ):
+                continue  # other units can define their own syntax
             if "-" not in rng:
                 add_note(
                     RANGE_BAD_SYNTAX,
-- 
2.43.0


From 456636318adc35f8b9c0a7afc71dffa652f554fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 48/89] fix: report Content-Range values without a range or a
 valid unit

---
 httplint/field/parsers/content_range.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index ec9a12c..5296c77 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -1,11 +1,14 @@
+import re
 from dataclasses import dataclass
 from typing import (
     Optional,
     Tuple,
 )
 
+from httplint.field import BAD_SYNTAX
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import RE_FLAGS
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -43,7 +46,12 @@ in `416` (Requested Range Not Satisfiable) responses."""
             # if we see a slash, it's likely the unit is missing
             if "/" in field_value:
                 add_note(CONTENT_RANGE_MISSING_UNIT)
+            else:
+                add_note(CONTENT_RANGE_MISSING_SLASH)
             raise
+        if not re.fullmatch(rfc9110.range_unit, unit, RE_FLAGS):
+            add_note(BAD_SYNTAX, ref_uri=self.reference)
+            raise ValueError
 
         try:
             rng, len_str = rest.split("/", 1)
-- 
2.43.0


From 0aec74fc7542a7cd7a8c485348f77ddd4aa4300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 49/89] fix: don't backtrack exponentially on empty parameters

---
 httplint/syntax/rfc9110.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 859da4f..63b36cf 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -121,7 +121,10 @@ parameter = rf"(?: {parameter_name} = {parameter_value} )"
 
 #   parameters = *( OWS ";" OWS [ parameter ] )
 
-parameters = rf"(?: {OWS} ; {OWS} {parameter}? )*"
+# The trailing OWS is only matched when there's a parameter, so that there's one way to match
+# whitespace between semicolons.
+
+parameters = rf"(?: {OWS} ; (?: {OWS} {parameter} )? )*"
 
 #   qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
 
-- 
2.43.0


From 8b23bd2506c1df45000942f34f65b588f35bdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 50/89] fix: don't backtrack exponentially on From's display
 name

---
 httplint/syntax/rfc5322.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 24c6111..ea53184 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -23,11 +23,11 @@ qcontent = rf"(?: {qtext} | {quoted_pair} )"
 #                     %d93-126 /         ;  "(", ")", or "\"
 #                     obs-ctext
 
-ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
+ctext = r"[\x21-\x27\x2a-\x5b\x5d-\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-ccontent = rf"(?: {ctext} | {quoted_pair} |)"
+ccontent = rf"(?: {ctext} | {quoted_pair} )"
 
 # FWS             =   ([*WSP CRLF] 1*WSP) /  obs-FWS
 
@@ -39,13 +39,13 @@ comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
-CFWS = rf"(?: (?: {FWS}? {comment} {FWS}? ){{1,}} | {FWS} )"
+CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 
 # quoted-string   =  [CFWS]
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
 #                    [CFWS]
 
-quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* \" {CFWS}? )"
+quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* {FWS}? \" {CFWS}? )"
 
 # atext           =   ALPHA / DIGIT /    ; Printable US-ASCII
 #                    "!" / "#" /        ;  characters not including
@@ -71,7 +71,11 @@ word = rf"(?: {atom} | {quoted_string} )"
 
 # phrase          =   1*word / obs-phrase
 
-phrase = rf"(?: {word}{{1,}} | obs_phrase )"
+# Adjacent words are written so that there's only one way to divide text into them.
+
+phrase = rf"""(?: {CFWS}?
+    (?: (?: {atext}+ (?! {atext} ) | \" (?: {FWS}? {qcontent} )* {FWS}? \" ) {CFWS}? )+
+)"""
 
 # display-name    =   phrase
 
-- 
2.43.0


From bca4ab43ec7b135ca6c57d086a7b1d82e6e23b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 51/89] fix: don't backtrack exponentially on whitespace in CSP

---
 httplint/field/parsers/content_security_policy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 9703bfd..7e95c27 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -17,7 +17,10 @@ DIRECTIVE_NAME = r"[a-zA-Z0-9-]+"
 DIRECTIVE_VALUE = r"[ \t\x21-\x2B\x2D-\x3A\x3C-\x7E]*"
 
 
-csp_directive = rf"(?: {DIRECTIVE_NAME} (?: {rfc9110.RWS} {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
+# Whitespace up to the next semicolon is always part of the directive's value, so that there's only
+# one way to match it.
+
+csp_directive = rf"(?: {DIRECTIVE_NAME} (?: [ \t] {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
 
 
 class content_security_policy(HttpListField[ResponseLinterProtocol]):
@@ -27,7 +30,7 @@ The `Content-Security-Policy` response header allows web site administrators to
 sources of content that browsers are allowed to load on a page."""
     reference = "https://www.w3.org/TR/CSP3/"
 
-    syntax = rf"(?: {csp_directive} (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {csp_directive} )? )* )"
+    syntax = rf"(?: {csp_directive} (?: ; {rfc9110.OWS} {csp_directive}? )* )"
     category = categories.SECURITY
     deprecated = False
     report_only_string = ""
-- 
2.43.0


From 6027f439f17cbbc5856106a72a4afd532162eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 52/89] fix: don't backtrack exponentially on lists of ranges

---
 httplint/syntax/rfc9110.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 63b36cf..44d6097 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -521,7 +521,9 @@ other_range = r"(?: [\x21-\x2B] | [\x2D-\x7E] )+"
 
 #   range-spec = int-range / suffix-range / other-range
 
-range_spec = rf"(?: {int_range} | {suffix_range} | {other_range} )"
+# other-range includes the others; alternatives for the same text would backtrack exponentially.
+
+range_spec = other_range
 
 #   range-set = range-spec *( OWS "," OWS range-spec )
 
-- 
2.43.0


From 5499ad6b79089f4655ba8f87f994722ea44c5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 53/89] fix: accept a quoted max-age in
 Strict-Transport-Security

---
 httplint/field/parsers/strict_transport_security.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 0ae713e..4b07aa0 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -1,8 +1,9 @@
+import re
 from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_digits
+from httplint.field.utils import RE_FLAGS, parse_digits, unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -37,7 +38,12 @@ browsers that it should only be communicated with using HTTPS, instead of using
             "includesubdomains": False,
             "preload": False,
         }
-        directives = [d.strip() for d in field_value.split(";")]
+        directives = [
+            d.strip()
+            for d in re.findall(
+                rf"(?:^|;)((?:{rfc9110.quoted_string}|[^;])*)", field_value, RE_FLAGS
+            )
+        ]
         if directives and directives[-1] == "":
             directives.pop()
             self._deferred_notes.append((HSTS_TRAILING_SEMICOLON, {}))
@@ -56,7 +62,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if name == "max-age":
                 try:
                     if value is not None:
-                        parsed["max-age"] = parse_digits(value)
+                        parsed["max-age"] = parse_digits(unquote_string(value))
                     else:
                         raise ValueError
                 except (ValueError, TypeError):
-- 
2.43.0


From 148fc716a84490f0926eabb3f4fadc9114a8b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 54/89] fix: accept empty directives in
 Strict-Transport-Security

---
 httplint/field/parsers/strict_transport_security.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 4b07aa0..bf3e5ae 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -22,9 +22,7 @@ class strict_transport_security(SingletonField[ResponseLinterProtocol]):
 The `Strict-Transport-Security` response header (often abbreviated as HSTS) lets a web site tell
 browsers that it should only be communicated with using HTTPS, instead of using HTTP."""
     reference = "https://www.rfc-editor.org/rfc/rfc6797"
-    syntax = (
-        rf"(?: {sts_dir} (?: {rfc9110.OWS} ; {rfc9110.OWS} {sts_dir} )* (?: {rfc9110.OWS} ;)? )"
-    )
+    syntax = rf"(?: {sts_dir}? (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {sts_dir} )? )* )"
     category = categories.SECURITY
     deprecated = False
 
@@ -50,6 +48,8 @@ browsers that it should only be communicated with using HTTPS, instead of using
 
         seen_directives = set()
         for directive in directives:
+            if not directive:
+                continue
             parts = directive.split("=", 1)
             name = parts[0].strip().lower()
             value = parts[1].strip() if len(parts) > 1 else None
-- 
2.43.0


From 1190d3d5b0d088cfbc3230de34ecff7014f1bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 55/89] fix: don't let line breaks in values end code spans in
 notes

---
 httplint/field/list_field.py       |  7 +++++--
 httplint/field/structured_field.py |  6 ++++--
 httplint/note.py                   | 28 +++++++++++++++++++++-------
 httplint/util.py                   |  8 ++++----
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 4f6046c..00ee42d 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -4,6 +4,7 @@ from typing import Any, Generic, List
 
 from httplint.field import BAD_SYNTAX, BAD_SYNTAX_DETAILED, HttpField
 from httplint.field.utils import RE_FLAGS, split_list_field
+from httplint.note import MarkdownSafe, one_line
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, TMessage
 
@@ -49,9 +50,11 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                         context_start = max(0, bad_char_index - 20)
                         context_end = min(len(value), bad_char_index + 20)
                         context = value[context_start:context_end]
+                        for line_break in "\r\n":  # they'd end the code block
+                            context = context.replace(line_break, " ")
                         pointer = " " * (bad_char_index - context_start) + "^"
-                        problem = (
-                            f"The invalid character '{value[bad_char_index]}' "
+                        problem = MarkdownSafe(
+                            f"The invalid character '{one_line(value[bad_char_index])}' "
                             f"was found at position {bad_char_index + 1}:"
                             f"\n\n    {context}\n    {pointer}"
                         )
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 59eac3f..a220d43 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -4,7 +4,7 @@ from typing import Generic
 import http_sf
 
 from httplint.field import HttpField
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
@@ -55,7 +55,9 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
                 context_end = min(len(combined_value), bad_char_index + CONTEXT_CHARS)
                 context_str = combined_value[context_start:context_end]
                 pointer = " " * (bad_char_index - context_start) + "^"
-                context = f"\n\n    {context_str}\n    {pointer}"
+                for line_break in "\r\n":  # they'd end the code block
+                    context_str = context_str.replace(line_break, " ")
+                context = MarkdownSafe(f"\n\n    {context_str}\n    {pointer}")
             add_note(
                 STRUCTURED_FIELD_PARSE_ERROR,
                 problem=problem,
diff --git a/httplint/note.py b/httplint/note.py
index 62e68a2..084bd16 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from collections import UserList
 from enum import Enum
 from threading import local
@@ -31,14 +32,28 @@ class MarkdownSafe(str):
     """
 
 
-def code_span(value: Any) -> MarkdownSafe:
+def one_line(value: Any) -> str:
     """
-    Format arbitrary text as a Markdown code span.
+    Replace line breaks in arbitrary text; they could end a Markdown code span or block.
+    """
+    return re.sub(r"[\r\n]+", " ", str(value))
+
+
+def code_text(value: Any) -> str:
+    """
+    Format arbitrary text so that it can be put between backticks in Markdown.
 
     Backticks are removed so that the text can't close the span, and empty text becomes a
     space, because "``" isn't a span and would pair with the backticks of a later one.
     """
-    return MarkdownSafe(f"`{str(value).replace('`', '') or ' '}`")
+    return one_line(value).replace("`", "") or " "
+
+
+def code_span(value: Any) -> MarkdownSafe:
+    """
+    Format arbitrary text as a Markdown code span.
+    """
+    return MarkdownSafe(f"`{code_text(value)}`")
 
 
 def _get_markdown() -> Markdown:
@@ -152,8 +167,8 @@ class Note:
         Template authors must wrap user-controlled vars in backtick code
         spans (or indented code blocks) so Markdown escapes them correctly.
 
-        As defense-in-depth, backticks are stripped from each interpolated
-        value so a wire-supplied backtick cannot close the surrounding
+        As defense-in-depth, backticks and line breaks are stripped from each
+        interpolated value so wire-supplied ones cannot close the surrounding
         code span and let the rest of the value render as raw HTML.
         Values that are pre-composed Markdown produced by library code
         (e.g. a joined list of code spans) should be wrapped in
@@ -162,8 +177,7 @@ class Note:
         def _coerce(val: Any) -> str:
             if isinstance(val, MarkdownSafe):
                 return str(val)
-            # An empty value can't make a code span; "``" would pair with a later one.
-            return str(val).replace("`", "") or " "
+            return code_text(val)
 
         safe_vars = {k: _coerce(v) for k, v in self.vars.items()}
         return Markup(
diff --git a/httplint/util.py b/httplint/util.py
index 930f9d3..a56dbed 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -8,7 +8,7 @@ from urllib.parse import quote as urlquote
 from urllib.parse import urlsplit, urlunsplit
 
 from httplint.i18n import format_timedelta, translate
-from httplint.note import MarkdownSafe
+from httplint.note import MarkdownSafe, code_text
 
 
 def iri_to_uri(iri: str) -> str:
@@ -62,11 +62,11 @@ def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
     """
     Format a list of strings into Markdown.
 
-    Each item has backticks stripped so wire-supplied content cannot
-    close the surrounding `markup` span. The result is MarkdownSafe so
+    Each item has backticks and line breaks stripped so wire-supplied content
+    cannot close the surrounding `markup` span. The result is MarkdownSafe so
     Note._get_detail preserves the structural markup on interpolation.
     """
-    safe = [i.replace("`", "") for i in inlist]
+    safe = [code_text(i) for i in inlist]
     return MarkdownSafe("\n".join(f"- {markup}{i}{markup}" for i in safe))
 
 
-- 
2.43.0


From 4ab3672f8edd76995e7c2d7f09ce24d1f1b203e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 56/89] fix: don't let STX and ETX in values leave empty code
 spans in notes

---
 httplint/note.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/note.py b/httplint/note.py
index 084bd16..a823b02 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -45,8 +45,9 @@ def code_text(value: Any) -> str:
 
     Backticks are removed so that the text can't close the span, and empty text becomes a
     space, because "``" isn't a span and would pair with the backticks of a later one.
+    STX and ETX are also removed, because the Markdown renderer drops them.
     """
-    return one_line(value).replace("`", "") or " "
+    return re.sub(r"[`\x02\x03]", "", one_line(value)) or " "
 
 
 def code_span(value: Any) -> MarkdownSafe:
-- 
2.43.0


From 198ce7d9cee65dfd33c51480c00c5b445aaa2de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:55 +0000
Subject: [PATCH 57/89] fix: put values in code spans in translated notes

---
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173719 -> 173710 bytes
 .../translations/es/LC_MESSAGES/messages.po   |  14 +++++-----
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177180 -> 177152 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |  14 +++++-----
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196564 -> 196556 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |  16 ++++++------
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155217 -> 155210 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |  24 +++++++++---------
 8 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 4c32bc3a11bf844a27ba614de667dda188e516e0..b0dc562e82dabffe628a92f90f7363b6ae0b7f73 100644
GIT binary patch
delta 4731
zcmXZfc|ccH7QpdyZyMpg<S3&QI-y`{mO^f$;*z<fxRDzwn}$2!h5^44MG*!WH(W?j
z(=@ZpCCnwaa!qr~mB})-Wh_mbvNWCVd6&OF@7(+Dd-t8+-F^kf%jF#}w`oWXU$Tf4
zjW;sTh*Y0oWEt_;BqJ1wf3guj;?xu)f%ql{;R@VpMfTz#?wd5($g_BIijl+kV5*Ud
z_}MfgF?i;6BV{ox-AH@dx6Uw9glQSZC$*>u^cm?xLHHX+nh<AWKjQ6g8re)-ak`OU
z+?#16h4LFSj2y&4GmUh|x>-g#<5(PkTkv_TFw4kO*cLlsG<K)st5EBI&gR8)xCokK
z<PtB~fHB;Vm1`uC`1?E~+1MwaOi*6(ZzElZugxbzv}?4`NE8-gBfN_N)CVmx5<=Xn
zz(_d8p>}jBwx#|CHp5`w5_-bLz@@HX&N3rm#A^zT#Ny?*TngK+Ffxq?6crh%inUi7
zxrmMN3itV~GIEXhyVXWsz|Y?{l7)}37iO(7@+<e9L(S~5cZ`feU(h-u?f9}BY^fFR
zx>S|jU?hXM8xFxE7>)Jca}S(>{fW<FYizjD$V)f^o8v}ohgY!$)_dP|Y;dW0_)p$1
z`?%2G>=Aaw0Ut0JaTRLn9w0YLvrWz<>`nXuMxyzURAL`&gITCAK7bwZF$Pc#zPt<S
zbE3BxS%b@PIq#Q<t?tENqkcidZEln%p+0CcHpDyF69YeTnHqyH60gNp_!a8?0maUN
z*nxOSsU@f#e0sZUHw4@Aep$dpQ#?~@nUAR;4nr-Uh_B!p?1FdkIc&Yd)sMy`;zHbl
zm3F$6??)XA_puu`+2wwkRMd>Uk3N0yRW5Y;HQnucoQds;528*JzfatYTB3Gf6uyd^
zQ8Q3(kDGoSurKj!{0Ekxet_(C8GIf!LqkwAUAUL|uPOSL0v$~C_qiL>P`~gU)WLHe
zH6vB_yA<|99o4z0^(CnDzs3RQV0@W)C29tKM4kVEpBf3p*iv&p^|^wND9{IejoP7r
z&)ldVg8JZ(Q5!x&o#&wk-ThJ6gLp1#rb<v#Tj`K{aR+QnJPEb^YSa%qj$!zhj|)vv
zGuBO=e(|V-X*uekyNKGL%n>86V{_CFZbI$wUDOUXI_gZuy2RU2J9-Iq;qg1>?2FoN
z1!_ip7r4*|*8JS1b`aJfE<pXQx1xT*1AGP>9(Q{|FVv2WMeXogn1dHk$42}Kx5n?n
zicG)gFN_?eeDp~paTtEe$YP!UOS#CSpxJ37vvEJJ#_nf~oW@(YL(9*)IQ>f_!-*r$
zIX^^Qf~%c3G87Z>ARfl{IQN2^_a{+1TIr(8Kv!I(^M5)QI&A_j899c>Q3uzO%g!G#
zpSWcS58z9VVjV2|m0P0gT`}@E;+bE&juw8y-ogE^UNv$K_u&&(WbwCbM%=gZx{(u<
z@4aE<yw3l*-x+xuM}F_N(F#8p$>hcsKeCD7uKyZ&Nd5JjOfTYVKN)#k>u(u3LV3H}
zM*c$oUzp#N``t0Jo4CzgBMb0P%)q(78d;B({^#0lN8fS^rvGMSBi8-hZ5m(T_ry{6
zjQI1wc7GU|Pu%rSBPIAB)Sqg{eIr+~;{(^O{$EB;5pTqK=zC~n6;^v><N$8Ny_hQ2
zdtNJJeco?-!dOY-McLNMNN%|Qn3Z2Ku8ftBaX?us{iv_@xRpvclD(KkO(v7q*QkG?
zoR#~y3|X_JpuE+=CH*V9=lzTtM^&;?gtssT^DFzT_nY6TY-JR`(I-``?84CMR@U>N
z8#S!AaOBstl1qaxaWcl%vffGQBI@9s6kxsWw#?tHgwrku$5Ot(ww3nSw2t+b@Fdi+
zwFd`bWnZ8x7=>pk*nz?W=00V;)aO5Kr8@D_AS-vMf4{C3Ha=Nd&q^k7pJ%MMew@P*
z#D2k6KEQFPnS83g^>)2197X&o7T|LYtoM`n4soILHYbEH#+spg0q(<-cn^2sk%m^%
zFzZ<>Gx4!TR@P!RzJ*O2yDvI{I#@%SSa0x!Jm<=Hqt1$2O|2Zq>3B%zf8_I4?rFsf
zR$k@Hsy4IIpClwUx8BifPq>u`%Dc9(-XS%orOV9qRxVSwT3cC1``c}-cQ#z|PwO4A
zDz>%WCewq{%`EEY;~cEr-pWE;i?en9w~4UcwD}A*g@1Oiau;JdT5n$W@8n)MrnB`{
zvdJ&G!8xM~zbPF{ec8%0c&MwDs(7=T^$r{lIcYW`e)1J7tudmf8@%bgT)W&zD?QnN
z<Wg_zZNH&?={YY>L)}()VhG+vUE%8Vv$7vkFq(GZq-g;zh_c?c8alvw`+Op<<i4$_
zyI<5m_q=SZLc9-kNk5G~-GyY38>Qi>@e~}48&OX@{(~8Oyl4P6A?_aSIyMb;lUj|M
zxf7_nVc1aXoph#S3*tRE1@GZFoG{FF?8-3azaAc|4Y%G|ttaXO=i#%s8?~oDV129^
z<LcXDH{wLpeSIs|!#_}Wy*ja^9J^vIoQZ+B9Bbn)tbrF|eb(Erf2N=f1@+>rJdMM!
zm@oEWKjIe?+yiq_J8~E`Q@2omqTmrOGd(e$I2~j0D)z?CBdxdV6`(%vK89kX?=|;@
z)36H#>rj9D+o-=?NTU0)!Kep}3>=1=P+wGqRZFMqBn-y)P*Z*y^;}VYw3VsY1|x7A
z>R$6ZYG!?fW85@3T58p?ZebXJx-QfiXJsp{!z_#*&-5fS*HGtit0cD`JdsQWDbK?I
z%8#X3?+kcdrQCm_^^WU}Co$-#&%k$e{y*fRBL(XxGym}?^rJ!NDQ+6RGL`8?c|@v9
z^$5I3JQw$1;xsFxG4ypS9dIFP1}>lu#;R#<tPDl1UyuFqCN|NobVzp{NJ2dzY{R~I
z8wX;i4A*cu>QU<(9D@xQJKEs|s6WX~jKdypxG}W}bxd7D?MU4>-83JE+HM~X)Kmma
zcS~dnMi8ICW>_WD&HGNMvtk*xv>eM(zeKX!pzDY)6DFf>E;~^>T7H(>ReNK1;sdj-
zcMhnW?K+T$zDO!=aG|@=i*wwI=V2e>gV+fJa;*0^dML&ar=zyJg8Ja5xz03<CO(Y1
zZq)ym8~u||?>~h4VYTwyH0_bc{MQtvQlP2+2(@9Axo*20hB`JjmikL+d00McH)A9d
z)3Cxk<~L@~cl-Q13tT4JFLcv2AG`9LVr-6Pk(J*td=bA{7!4a2SSe3I++r&ma6Cp}
z?Imu(h(;Y$smP)zn=y~LVj%|)+81I4T)f<^3u{)mS#ue6o6aw?av7go>1NSw)U)7}
z$W>OZQ?Y2Zn@(wOTX}-G+Ztv8_Qf*XI2g+j4`1ubN25P+N~!7iIPt7Z{|3eW4a~hJ
zrbV%hGFt))hMzNaiqDKUGhzz%oHEr5Mx8Rj1qVw^Ktb*xTeFz5on^y=Lq;SfjENsM
zE@o^(Xv*-Q;lUvjVv=LV>UDfVY(h{<LNXUxo-lPnLfpiJc&Z9|pErTUXV04r-O5oj
kF?E7AE=byAY8DsOvuDRwpfqlLeB!u~lo!7-&(?hM|9tOYX#fBK

delta 4795
zcmYk<X+T!R8o=>qCYQimGD(q4BncP7Ew|h-HFtAC%@t9=4MBm#)Oby<NG?RA0#`*;
z$g;&XNli2NG)=7}wM%8zwZ#_G(iXe_=L{e2r{8&I&dizfytAA)`;>p)DgUiw1AM6>
zQj}z5lo1J-X=F8V(kvqsNws7nRf*@N7-@hR7>w(2rxiJfqq#3_wvpy|F3resyfep0
zbv!oLNDO{5&q!r#|E!Tn+ILAeQiSR0#wYctXy`LCl!6Wmj6@JG#VF!E&l%ZHTyvq3
zP&}AnB!%*;|1xqE$1XC`A0Nsz(hHODDSQiCVU5K`9>hrOiP6}fffu9J|NJ};UcyDl
z5+fIRz#ACD4Oz>KOeOv<+sN}6l|v>dFMrWUZ{lxWB15!`SZQPg7GgNw#6appRvBqR
z+&RxkJB&je=o;)w{Z(v(VZH)J!o`?>yN1hG8)-|tX^oMI_@A{dg^}xw%%y`3MMmz$
z2J4Mnz!vy9_xWuwa)tQYjYeAI>0%?9XiAJciCK7q`#wd@?5RygrlBw76(ikvv*p-P
zD>l1SRejA!I`IG;izjg$HhJB3n2E!Q&toSHf5XTVI0YZYE!YjOU<YjcrW@F}3Ujav
z&zD17=x=7W80m|naTFG#rtS`MqqN=XOu-?<+i)=6wT)C_6n4fe)CV8I9$1+P6u_JJ
zMeQeghmjIoi-kO2dhB!$zKr??;cvNFnu6NVPHcuZa1b`!<ua9s?TKH($M6f(`-4iI
zWAJg})fJYb4zSVNuHAU-%JXFv7cKFV3ajj<g19|u`D`4Bo3J<D#1`0PkE@@7vxp0E
z2iDr_Qhpe9F8q!Cu;n}Mr<sSEv90LSj<0Z`%dho5H{wMYNqii2nfUE@59)+EfCL<g
zJ5e)m&%18<^~7PsOYk8qM|}Z%z-6!vYKF$6X1eeI>t9p!H3d4En!M+3Oh<jgS5YU=
z1=NhxKIl?71a($tqt=(BuK&7+oa3+$@kZ1P{D8Xt8y+^&6k{vQKJ0S^Z&RQhT}B;H
z&=EK5$D?+<7qy`|>ehL4)cc>p0r(<nrpi%MTkDv6a8G=MI1ROZ3F?b|h;8v79~YXU
zw(Og_{Nhn3QxWQ<yM)@H%KJv<VLQ|TZbu!!P1FHKoN%UMBjP=%8`5W}8;{>f=Wx_^
z>rpf6yU2xh82Eup?O1$(xB&IH-i7)Gcd#*rpK@ox5Y&Msp$>Q*F2#$eb0hw=+vE3R
zb(UZBhel3NKI4p$N!a16k$heMYq-d!pzS#$S$G&X;=qrLoWoymkCuPzV&5l5CJ+xj
z@7#g91=lGv5{J|AD4xYg%>UG_`wOT8t$V>`U?{HA^}m!0T{a;Xjhw{usFQ2MCFga_
zA%6TbI^az{!UwQMx!a<fe{SS{;_NTnKuf;l?BM<hmyMjq6L_~J<zI0aao^^zjhv?Z
z{cntv>H5$AuaRP$dDR`G0pA+Q;KuIXafslN?~UA{{>L9!Uc}d~8L6W6KN)$S@;*Ns
z`5SBh!uqDX)^#KMh<p8NWCh-J!)@jH_$qPTo37n^=qsdP>2F5fz-GU@L*rAtN*sO5
zh#wvHxozYn;-P;S`3%27{izQ9Y2-2v_{+6x@wbt)#JeyTv+fw#fI<HlIfVQ104@~k
z_1D8#pZD9A87s4RP_DHynHwrqvT_3xa5u(Owh~2sP!%gRa3*Ilo0|B@>lErc`CIuD
zi;+D`imF+iTr$48>+g5eIJ$<FBD{q$SWwevz2E%LnpURq8y%}<<sEE&pOshX=%)bd
zZ5#!4tt_KKInKuE^{n@$bQyK>rUzQ@xUF8_N;}%Ez!{XE46+i59UrjX7CsksZXL(b
zSkKqM6{O(D6dXdKgZu}rm->Q+R_-I-7;NP_^`(uhaPZ0I5GxtPV;Wm;|M(o^iED*g
z*@9`PnGAc_dZ*qCIF0xe=3$30>-{9YGhFDpUD1R$#^9#B0iM7!Xqu4`Jcsk~h2~Zk
z;XUD2UdCKpiya?vZ&ZdlSzAX~Z}PQj;mVJqu8Kx2t(?N8cud#-s8&{PX+>)*BYCs>
zZLAC@3CWLI@6+peJ1gBOAKJlsAE_%ky3G9en9J0yPF7x_{q4@y`!?Lr#d@Du_jk44
zAv2t>o5j?x!6n!@(#lHQf?2x$dv&+ovN?^K!n=A{`4y+3uIuqV-2<QQWxbuu_k^3A
z%X{;iQopc|mBx6cua$f8W<TqFa8w;&C7igyKr5ZF-yk=6GoN(rRt~l@i1SCj8e-k?
zJB*R@;6<p%>S1hxf1&Php;1;2;(Q!OyKbau1+E=oy<@fYQ`S4@lW{%w?L$5NqDQ&@
za<LZi3Dhn968iKM@*C}DX*bk(0gl04s9!v_$1wSLPz**8M~!m>%RoJ(UPsMb8R}`+
zb-eYybe3WV;^UZxCfZ6OK7%^2tI@1~{df$TV7+g(k*FQ6#^!hwb)?tvVGNFO^}Vql
zaWd+;z7IptP9)_RirVi`tcTgy05@R}9>D<oa-z?A=k@Otbf%#BBr6SZ3YPN5Sr|ne
z8Rt4&i8_$8sF}Kj`V&ROyUdKlSmI2ah~MK795mT_r(O|if0d?K?|WdBj|+Xn4D5~D
zP=EW|s3~eS)xB9P>IcSRjK<xl4+>=0(&d_tq4*YR$}gdQSJatqWe)bj?zkWItdRuw
zTwe(nPY{1pVf`6yV~9cB7eW)Q?8I%DiSbD+Pcm~2bshJZ<@SSnlgS|Ec^F9f$0^qP
z2K-T_ymqSfKG)kl&7`A#F>coNUv;+o?YHAdDt^PNG#HfTmf?swEHBFYJ>ycHgcpeO
z@m)-wYh^mNo@eE8EJV$~m#CAm{(LuACZpDG$KiMrBXlVJpLGM6i~51EABW*>9EAhZ
zUBgY-i}*WCz?RG%9q?MzpX4S^!r=?toZ5{#r>>z6q}g+BnWv$)JAtD#6(I}V7C9fg
z6PIBd49sxrejw_qD8`PKk4Mxu@ym3RZUFWno`-t497Y{zoyG1{9gY2oKghD)U%GnF
zy8+~(Z!i@<aiOPC<P!Jb)i{*+L+ptmORe`edNRfkXQH;dirR6<WzI!7j`%F<zR_a2
zoBipi_n$$1u}0Z$nGVlp{cDOAQlP1R7qwyF3+}j_f<1_LRrp6mdDk5FZsy1`oR0yy
ztZ&SH$({3CSGY{{UFnu<0rsVz1NbQVud?zRc3Z`7)|Q6t@~l*&AR*t%Yd8nHW8(t1
zVZ@_Os)fj=D0?xR`2IC~c+kEC@4@wjZeMtFom(|mP><<?A}g1$!FsofZlit+E*QMQ
z%GXq^+vt|lqGBs|6Avq472sH`#Er4&PdxQySDuP~#Pci6#45x&8Gd1<eqrWTglS)D
zN0=RfwGX})+9ZBzTtaMgV$6)VrYQ&amL5qmIWaZELYu@+O^%zCI(0V1VR^A<P19-=
z&W=fV+ADZ(n+eLx8EySb_nkF+D@RfH{~d)*2%bRE%$Veu8ML1e92++=E;uDFnG3Hb
zZq7`4kBg-;B6wI_a9rY~q{P(ZLp!|M$w{eHlpZNF+xq#_PwF!>^{J%`LhScRH7J;r
X6gxF>GDYG3c|YgaI;G2Vt*P@rM6Ps3

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index 4955c31..7153df5 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -1999,7 +1999,7 @@ msgid ""
 "The JSON parsing error was:\n"
 "    %(error)s"
 msgstr ""
-"Cada línea de campo «%(field_name)s» debe ser un JSON válido.\n"
+"Cada línea de campo `%(field_name)s` debe ser un JSON válido.\n"
 "\n"
 "El error de análisis JSON fue:\n"
 "    «%(error)s»"
@@ -2622,8 +2622,8 @@ msgid ""
 "The `%(directive)s` cache directive type is %(expected_type)s, but "
 "`%(value)s` was found."
 msgstr ""
-"El tipo de directiva de caché '%(directive)s' es %(expected_type)s, pero "
-"se encontró '%(value)s'."
+"El tipo de directiva de caché `%(directive)s` es %(expected_type)s, pero "
+"se encontró `%(value)s`."
 
 #: httplint/field/parsers/cache_control.py:221
 #, python-format
@@ -4223,7 +4223,7 @@ msgstr ""
 "parámetro 'type' para definir el tipo de medio del objetivo de la "
 "vinculación.\n"
 "\n"
-"Sin embargo, '%(type)s' no es un tipo de medio válido."
+"Sin embargo, `%(type)s` no es un tipo de medio válido."
 
 #: httplint/field/parsers/location.py:48
 msgid "This status code doesn't define any meaning for the Location header."
@@ -5488,7 +5488,7 @@ msgid ""
 "problems."
 msgstr ""
 "Esta respuesta indica en el encabezado 'Transfer-Encoding' que se ha "
-"aplicado el codificación '%(coding)s',\n"
+"aplicado el codificación `%(coding)s`,\n"
 "pero el cliente no la ha solicitado en la solicitud.\n"
 "\n"
 "Normalmente, los clientes piden las codificaciones que desean en el "
@@ -5528,8 +5528,8 @@ msgid ""
 "The `%(field_name)s` parameter `%(param)s` must be a `%(expected)s`. "
 "Found `%(got)s`."
 msgstr ""
-"El parámetro `'%(field_name)s'` `'%(param)s'` debe ser de "
-"`'%(expected)s'. Se encontró `'%(got)s'`."
+"El parámetro `%(field_name)s` `%(param)s` debe ser de "
+"`%(expected)s`. Se encontró `%(got)s`."
 
 #: httplint/field/parsers/use_as_dictionary.py:85
 msgid "The match-dest parameter has an invalid type."
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index fe2ae280141c28d569bfb18726ea2d64895380a7..a3eecc33d520b274648e88eeaa06a937e26391c0 100644
GIT binary patch
delta 4716
zcmXZf33QFu7Qpd+PM;t}q!v*gVu+Z<Je3$iMYTwYSreoQ4PuBQxW<}FBidd=N>Nlr
z4Jo1Ksi@LHD<veNPgUF3VriNv&-?FtvR2mmeftdeJM;OH{)_*dU;K9utLT|2A~hx&
zSz$!daR+h3$wp=oXJcvN0m(*c;cHkQ=iw16l7alm*l9)v;mzqr&S1L~BW3XEOe3#h
znb}4fW1`1M59+U-V}wV^pJO~ynTObUMn;h_W4@8D#JM<#xaLA5XNhN^{y^77My8OS
zwAjdbyp1p8t|ipNCpZ*4FE!F0(=i0I@kPzYS7~_nWiDQ`oMyaFM*eamMZ91d!!Vcv
zlTwXPR=!FzLfd5EyGH&+`nC6r3?t6-8hM?1FRU>Vg_|)H3$POT)z=znO5AFlk+v9z
zJ#jsbApZ^y#2%gxjD+*Be!Y>pn7hG9CoHki$W)BjWQ19fLz|frexUIdBLTPr@8Kb=
zLc=n)8o5n;_G2S0ap!g;>+lx##@U}3DNDHv7)g9J!^n8_)ZS^NIvHu$n1nsMT!B1H
zA+EohIm9hE0!!?1b2u7@5br=8YQMckx?vX#!-c4Gy&qfS6KsSnGo7)>$arK04}Hlv
zi(RntXKwC?U?<|tVjo}!;%57dMB_Nrxjv2BfZ+YE{!rAR{s6V-KVx-9utk=U&csm%
zjHKc!T*dpP&Oz6J1E`Cn^yfx;VL#LcrDHwJMg75&huqxu$2P<Z@C7`KTD}N%Bsv^s
zj?shNF&jH#wIi<HPz>k&vWkaxcp3Ev${uwE`(O*=<)}k>0(I_69dp|-s@R!0gY>O<
z3~L^Dzn70X^i@x|dQqq&nvSh72R#FL2s~+|KgOfB^f2m3*i%NDV=t_WvrzLt!om0}
z>I))H8+ip&iv1Gn5I=v$EyhmRka#j`{S6p_x6iQubx0a~VI&R{P#57PY=)0fN2Upf
zfDU~EYP=71ivC0$q4wvD^uzI}9XXErf{N$e?+n4t#BZZ^<Ra>nK0NPnb6M?6w}@WG
za55HSA3TS;k1Jnr`@1LV37CYsuh*iMzl_?$3SYSfhNE_1I)>m5)E9n>x(gnm)(`bu
zbUzq_+Owso8K<!UK0zJgdY9aGd<`|uL4Cn<U%SN@f!dI{SOZU>j!ZsAW5sXWu1Z8b
zAI_kz0nZ~IbX$de>rBL|#2=%s;?t-jQ0hC^leSo!cm(P`pNHDuOw?`lJL<Nab=k;1
zyoy!We(!v5<Qw8oesCve$`vEKbpPMtA)So0Y<Cnl{n5zh#9!b~IQOcN-!bl*kv}jh
z$H<%5<vJ%M9z<PyVK>~1J@_?o4)(<zxo&D77uzP!E$T`5p6>rGJRG55hnq(7u?V$d
zPQJ6zEhA~fvv4duDgP6T2~+;#?t;U&nL^^{?-)5nxo*E0nS&+ox`r>tNKV+~Um0@B
z9sAu#Hu-=3*GMk!my3TG*@hW^GNcsfe~%vG!u#${c=Eu=Q}XLPbT6#)myw6Wa|?`|
zz^Q*5Da5vgEJErvD>CvO@$g4R-odbcj7-PlsB!zpZp6Pt&r%ZNpBOoa4{$za{Le^5
zekklImkst1D+frAHdb;mz*<?3f8cL8^BL>waROK5G2*+p9=DgUvKM>$S-Fn?p!WR7
zl2$h3?o!s{>p}n0)_2=g^0zXYjOEW-d4dmcKi(^2Weg43#uZi>0|TtEu%$tHD`Uxj
z6zIywJ!gd@Lq=6_FKAHFN-X)8ki{lpm8@*Vn>Yd&1$nGo;^F5YDlkX;DqFdMgR4@I
zA8NzZ*oXYw8dkPrlVB@J_#<w>$ePyo9dH-*Xzp9fN+as6#c9N6Yg^wz)wz!KEz)JE
z2h=r;$EKbT*Ag$DC!qkF@&m`~S}BkBLajWHroQ#<f~pOyuuP;>Ln~`2U)ad{&VjVX
zR$_=x;~orYVr3#`qn@ylO|6W?MW_w`6?KhxmWEkb&BO3!Rx+>v+u-KrR!(9Lp1}1j
ztnZSEX=!!SNDk`U4sB)SLoC<Ybz~Pl)wqq7O=?>!!*CB)(zu;l3n6$}_rGm##h)Hs
z!9>jOz+5v0uXMDMN_-&PN)L?eVkH4nyIS$XqHfmr1ti^FkM84aUa+!<mGR`4f6>ZI
z#Gankx9TsTHhd_1aS7(&GEIr=Wu+Yz?xQZghP|ys=!;ON;)j>5Z(Ek=V}0AJbzisG
zM)qTEkRKD}7UgcfEGrS8?{DQVe&^-@SN}@1^?lO$4YKl>^zM9MzC^jML#*`l@UUX2
z^&Pd@!`xg|9qy)JFoscKB@V=scmu19aJ!)pQ>Z^Oh7ORP8|xNX<&oBR^v0uJHq}O1
z-x1#n1Bu_l+PE4$diEdYAsh>_HMSk?R_O%PPpQ+$&Xcln#SM(NzRPJa>I)X2Uf+9g
z5C$b!-#wp%U5NLi4t-&<)0kgvaN!vCe`g+=k97qnV}0U%sJCAp>InG1VWkRoK)q(8
zaX8My2)v2aFeK6XK3KY;ZpW!u1CL`ZEr-?dnQ>Nvu+}*CzkWQnCqch>l2I!hK`t!0
zf%<~I6I{8!F_gG@lJ#AmLs0McRMdv;N4-04p?<QpnCPZ%2I@KT9rnXoliUbQ@$jGx
z_!N8N-QtYalUY2(NvJLV5cS?Zg?exlq7He?6qo)5)*=1}b-xEEy9SQH>BR4%cBI@?
z>${|0#b(5wpf}x6MPe@!R^j)Ui@HrRr&-Cwj?=Bo#rqh?$V{GLegAM=O|jx7{n$(^
zqeve(%Qg7WY&Rmg*okz1Mp~yVa*mZ`+=id%{;xLI4b?e}B_m)SQ$U4@D7bRIm0;4-
z7Pz6$#3RHxcoNqvba%k8x7-w-MIF(AMb`JfVK3D0gVm^u`3~xP!WQdVVOgf}pa;bn
z)RQl8NpVY23vNRly3$LXuizWRt1tnd;wVg5=HjnVS9hzo-S1AoXyQYtXa94{t?xgo
zc#PF;ah3=DWU9Zy?Sh5aNz+j)`n_X)U#-KD^(PBZU+{3H+t*Ff+~OLG14#e8*z&75
zni;{@QAeQUdsgOQG{)dn^yr+of8U+a3sFbl7V3+ucwLVtqHeGKs6GB3qp;&@cl)KH
z{u}-`YDc=SacgQLzDoQXcEj+sZc)xhUEBxPvj26p-X&omhOTo%<H5nidDsQprMtOJ
zL7l2oxQU(xd|>5m+`HaNISl{M@;@DS$40l9Z=r72#+%&k8i3ltO{nFsZDLin<>BsT
zE+H~%ZLxAeE1)ixBCLsBw_4x-c%zX{%0^sAdi(8G_zIINSOzcdaNF@(hLxk_2kf-+
z5njTdaPp^CR^Y&0?oRo+9}hQ42-;)i5Ef!-{A{oDD3;}i&tWOjuVh*&iFv5;onr5y
zA8}FUeE-la|4>uV#I(&a(WYfp@0blH(0lc|dDgqVr!A8eJJC!ics3@a-qhH{<hc5i
zW3uw%ZG?G-6z{j!O$BeqF}9^Qxgt-2N6o*>$0bdeG-b^A_+Sc*j~y514Vz+X2L#t6
oOrDfT{rXLUdwWy!O^|oo6k9H<!dQE`o3}<EQzolmr>*Pvf9}?D82|tP

delta 4752
zcmZYDd01Cf8o=@Q9Ltg@wL(iv&{V)wTrhWWMI@KRL|h4X6cH6nvizZp3*wfhlv_qq
zxdx_2T85c6D&<;ZiAt$7W#yD98M*X*@8PeR=izxi_dVyHd(VFEkBlGu*8bp^KP<qP
zAtHfOj4UxC8*mG8*fb+A5f@_>;=yS~>ftC1#d)~bisU1Il03sm99~K{au7StG~$ny
zct|`}n`NX4rud9RQht4g5iX@P!}#P8F2>9;GK!2@nMS%2U%)ux26K)4i+C3510v@e
zNhLjXfsw=bBlf`^S(HPw(8y5ij_q&*Ho#)+srlJP22k-{sPVeRRAUtvrHhUH$qQbj
z8wPX3^kqgUBgdB;p>8tt6(e_%etxBqVZ;}6jEtpR=huwH;5!(M<yeFKdaI3u5w~4q
zqzxuw6z1Xx@_)iX80}kUB!Y|F^+p=vh1ZRA!YXeVnT}DpMi><-e3K#J0nOhsQWf*?
zS1iO@R4o5(Bc;Se8;ykH_Dx3C;P==Y=WI4|KldHOUc~3N8c9Z9@HQiL$XJC<NZ6I<
zZn%guiJRmzhPVkwV3qA|49DXT;yl!@_IuArH|&AUFbj38_ux}#b{J`lZ7Ljt^o&oI
zbMXurMc4%&+v&!B1a=}WsIUy%6SvxBBo?Qjj`bnb3e<n!m5)d5>NikZei`e~gRKjU
zbS94dz{oPp!4<q;LUy|fe1tkF?%!i18V90QXak1e1=I)L_n{lxIBZS406XA5)cbFt
z_C&--j4@_n4=l!xSa+{07mpFVUvju;i>FZ^Q2k?f;{a?){4#1+9z-2G|3bG6V=K(S
z7f9cXh1g)9dtNDO*9U&$%EhAg=mu<sCFmQ-MZkU|&*DVXn(jmGiOQcEX@PyQA<jn4
z--v_p3hE1@4jAc+z6y_Ged5Oty2;oTpCo=Bwfvjd9e+H?`qwUL`k9e2n1nhBPhxY_
z#jicn0=4UtD&pO!L-adp4|O_Zq(4qYZO8%C7d(2{J!b@VCSHcxkQ1mwdgHLqjb+^<
zZW8s!2r?F7Kl~hZ9Y0p&)^~5z9WWJjU9U&I|1@d~Ykux3+zqt>FJS}BLw(^_sH@;M
zYWXL9U$_U3Ms4X5)Qm&e2+dK~#f?#y<EV<b1oZ_qj=9Mfg<6rh7>EZ^d!`h1wLE&<
zt*R8%{oyd`9Pr)dLYGze31<q{Cf<rViw~jpfd5I?k`DL;@krElJ`c6R1*psFSJY)W
z`;?Jgcn)i^{8oHv<T&xWU%8#r_irP4y8gfCVl5e~PP?tR<<~~`5Ff#dIQJVPKV#w<
zBUdoC*vRwP<19NQ?nRw^;pg0oGw~R42|j~)=iSgsiL*WGq@Io|b^UMRVlN31-x~Q2
zZ=n_}`Oewwf|2FKvvC3~dH5oe34NE`S+K8^AtZkMKSn;~zMelA$-w)5bQNEOz1U&X
zFVp4R_vz0@PLu!VFGkMuemQZ)$UB(-U%HeV;(n!tnDv`G6U^^M?vNjH&Al+>x{+(d
zbIXi;f-n4G<OX)Q!6c+yt3QpLBu*$dvJ}JrGLnu5P~%QFU5_6{-$D{5-ZHWq%P<r3
zZyO2VLE(2eY%p4^d_ejTW92+PWUVa5tN0UURI*-+lQ<#^iGRWMxb1E$?_uxCR?gxb
z)Rv#U$I6?y^Iq%oS`b&odZ%42KP#ijc=<jnx3CP~$7}vp5~;`*j<82CpsE!nwlu9~
zWdixPtGoLXAGE^OA>$r$FK8NIC4u~t$Yhi78dl!MOE?0vYx=Al<>GQp3NS{yAF*-{
zhu7vt9@L(ru^;&t0<CPq7C}~0@GQQLed=28JKz`8t@+t{RvJ@oJ<cF5dct}eRrmVV
zo1{xoH>mSC4qN&fxSFiN!z7er7!Nqm&`LGD7Hs8FygSr-t01tE6{d;!KWXJP?!VdC
zdi%htCRUy!K7`vbw5gRTSd6;E_6f5x60=b&eg$=o_?9%Y@+ubz&8=+3a%_$7w6L-t
zOYjrSZE3wjW^}mKMI$AsV;kSf$_9M!Dc6u4ct_*bR&v!gR)*m&tf6sRHy1+jl&=5E
z?X39GqBEF;rR^DOh9IV+m1V>qMOcZ%K3%Mg$5*;qsf@R}S?>$zt{$#M*KrmvSQ%+0
znf!-)T6vl{Gs=3i{upY-<5`PYSc2J_k{E5JEd{QlPQI|-R=VqpP>151KGs{7Rr*<P
zd9{1SO}4T9nH%Jfj&YN6CtsE|h`)H&%5|P|X`m~ACf0hNbbfJGZj#=M56q{zFLH>L
zC?6Nghgxr|Egt5^DsZ?Pg5lVV0xNM4eun3;&Iq>}ZsJVJkA02?kbWV-O|r*ET5s!}
zh<e!69c8^OzAsiMUWiZNTJ-7OzmJOuyopa?htY19PDA~aI)tn|sXnHng5#`rI1NXA
z!2(RgT^NUf<E?kj&%iFkALD$~aa9+fR=C;()_-R%q9?c;voVzT3)Iu^57Zv0H_=Kh
z9DsVvCgX5ijotAEK8_uethcuh#a_fqFc81SdU_w$!P=9o)Wmj^SpWL*7(+r&T#Q=a
zE9AhE>!>d{GTGf%HN|@0`O&Dy=Ty}5eIshcj-s9&<*1)*Pfu|}w;XjJxs3g>-Bi~D
zi+o&Y1wO;xXr{T0z8FTl0JY{Hpq|^ss2fMMRO@{)%|J~*kM;4PG&e+TP%Ahc({U?m
zLmE!E-XS#+n-lxOo_Af9fYBsu!7s54b(s{+u(AUOrdyefRbJr5^h`FE68|>SN)DcW
z(aI>&C%@z>d}@~KkuvN=dOdnthb$q(N*Wg8W?lcSX1lKX78A$_p2HAOAPWUIWm*X$
zee*wD*B9Yl;@@#UZlCMUfYf<z2uo0VG<d%CejAQN{XWP?oy>Po-xIY!=L+k8GZ(s1
zoI~CDLbEDrih5%qYS-0W=p2g^iMQZ*teH*AF#|QeggU$XEOO7CkFmt3Q1|{ui>>#I
z%7+QOUrM;pPo^$Q+$vayoirV_V4bDb`)W-?=Ao=beS!aSx2_{mC)XSth$kxyS;5v!
z56(jEfxwkk=3p{Dhrgju$2?}0+oRW^_CPu6i(BNl7H6R@ucN3f{260#;H&QR+lcxz
zyy|PNA;VFZ-)<a$l~%hAZV>9ET!T8fPpoGBcjUsXamyqE<B4-{F#dsEu>V>&wkuGF
zsu*)=S@1e5i}1*LD-YnH4VK?@?1*o;$y|=X#65D|>Y9Ywz&)t<U(ID!w&BA3lS7D%
zc5hiJ(gLWHrTW`e>f#XWfG;AAmEE|8IA)U-zQW`R`eW%9w;Zo-wem6f!P~5C#P9JU
zE`8U^5}cOj&J^1}-^#ZnwA^mxLwxu>>;22+c!g*1eja=Y?<N204lDQIU#M}VolbwO
zOdPN?(=WKdFW8hdHT>d@HQ}{$-r8dV3L>YNd1Y1iZwYD;GCd(FZA|F2p#2{foE~Sp
zn+Lqq<b+8sF(*CMHp=OjXln#`8Dl4>C6A6zO;2&zp*bh^nmRSdq)eWgnwUH;=zj{=
mPPIYRf<nC1w5dtnYeI9{r`nK$zY^`KZvR(>Z?@Us%6|hz41wqX

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index 95924fb..fb4492e 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -1993,7 +1993,7 @@ msgid ""
 "The JSON parsing error was:\n"
 "    %(error)s"
 msgstr ""
-"Chaque ligne de champ « %(field_name)s » doit être une chaîne JSON "
+"Chaque ligne de champ `%(field_name)s` doit être une chaîne JSON "
 "valide.\n"
 "\n"
 "L'erreur de parsing JSON était :\n"
@@ -3356,7 +3356,7 @@ msgid ""
 "The range specifier `%(value)s` is missing a hyphen separating the start "
 "and end positions."
 msgstr ""
-"Le spécificateur de plage « %(value)s » manque d'un tiret séparant les "
+"Le spécificateur de plage `%(value)s` manque d'un tiret séparant les "
 "positions de début et de fin."
 
 #: httplint/field/parsers/content_range.py:175
@@ -3938,7 +3938,7 @@ msgid ""
 "`%(value)s` is not a valid in the `Cross-Origin-Resource-Policy` header;\n"
 "it must be one of `same-origin`, `same-site`, or `cross-origin`.\n"
 msgstr ""
-"« %(value)s » n'est pas une valeur valide pour l'en-tête « Cross-Origin-"
+"`%(value)s` n'est pas une valeur valide pour l'en-tête « Cross-Origin-"
 "Resource-Policy » ; il doit être « same-origin », « same-site » ou « "
 "cross-origin »."
 
@@ -4706,8 +4706,8 @@ msgid ""
 "The reporting endpoint `%(name)s` uses an insecure URL (`%(url)s`). "
 "Browsers may ignore it."
 msgstr ""
-"Le point de terminaison de reporting « %(name)s » utilise une URL non "
-"sécurisée (« %(url)s »). Les navigateurs peuvent l'ignorer."
+"Le point de terminaison de reporting `%(name)s` utilise une URL non "
+"sécurisée (`%(url)s`). Les navigateurs peuvent l'ignorer."
 
 #: httplint/field/parsers/reporting_endpoints.py:51
 #, python-format
@@ -4720,8 +4720,8 @@ msgid ""
 "The reporting endpoint `%(name)s` must be a string URL. Found: %(value)s "
 "(type `%(found_type)s`)."
 msgstr ""
-"Le point de terminaison de rapport « %(name)s » doit être une URL de "
-"chaîne. Trouvé : « %(value)s » (type « %(found_type)s »)."
+"Le point de terminaison de rapport `%(name)s` doit être une URL de "
+"chaîne. Trouvé : « %(value)s » (type `%(found_type)s`)."
 
 #: httplint/field/parsers/server.py:42
 msgid "The Server header is long."
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index f61319f12a558a49a8c32b5dcf48173f5e8b94c6..86dda409566c418031417d150ef071c4551d627e 100644
GIT binary patch
delta 3553
zcmYM%d3;V+8o=@A98uDkK_^2Os!Y=mV{1(sT1r!@v}37#Y>B0sgqTdyitSp4VkqsD
zsM0VAuO+pcXq4KO5Q;WM#Zp^rO{}4o`91gK^O?WC_c{06d$#AC`@TmWh3tD2vMMvw
z`_zaGi#PJDh?E&(BnfL_6P$&w;sI=n6^0sVgWa$tF2Kfk2A{yHiAFkN1fIiDI3P$Q
zc9@aJh<7I&3CBF_j<=JI=Qq?o#Z{Ps)R&p44bH;X@f2RhKYd^%5-WaaBn?~RECx`3
zdBn-7M&=Vok8tlhJ<@gXB1Un)`Y0nS%7}EuFQ`{`tY>5w7YoN33AG}FCm0z^JbI#$
z1^951dtv%yH?n3^jclWQ2KK;C(~OMb#aYwo5OJN4jf^4QI>Sg=-q&KLk&h^E%`{J^
zJn!E|Zep*`T)mDS-S0rbLDUCp&UPbQfI9X0_$G$(_I13l7q%y^JlDu47=vplzkyX5
z*<yx&j|Ml>`^uDm{U0M!FgMf4Rm!^rjCed3z0}Bi=xyhsITv-88EHj@IIKs!YB?js
z0@MehvS^U|8*mD?UEyZt$Vww`6DO@U5`*8aF~Vd@&2>f?tYoY=GKc41&NlK#Jcv(H
zejcMNuYR<_NF55IHX3O`h1hS5q+<rYi_x2me8~vXFpfBKi|f!r+)R1Rtwvs={M2@m
z4MTSrNyb$C7_Z?Z9KF*>I}BpI`(g)tO^3FMi+3m}!lu}KHzUGSd<%Es%UJ0<cfSp`
zB%Xl1a3|_a)!Jhu0Y~8*ScqM*{$7{u6LBzc0S>`8b6I+w+Vx!MjmP#G>5YjPi~BK*
znQ6G+y`XEJk)4#U!~>Xez({9ob<owHi#oCgs2%J5y^+6Q4#r>+>cBc3aygZbUMmVN
zaG^<9@30%m7>p+V3HxBRBW~(OqHd$z*bn6gHxn_a&u5_S>zmjJ-}%wVK=iO5o<n`U
zb-sJf%V+;*QLvSQhdA^n*YJ>|BqQ-^)Eu~jU9jCTH{yjDPkbA@VeE0&(Hwk@_^F>=
zLp@N>i%(H!b`R<S7k<Lkn|p%&uMHieKzsgN0aK2tsB52&y4HoL9jJTK)f<PJjK@&7
zW2;j}>f<cb4(!0z7<Ag@Ry*uO{5k5<TtPiK-}2755spDU@eY;7)qim>_&aJ6ZNP?D
z@vJ+VTa-Ei^|^JZ+xQU<!{+DQQm#bZ9l___K$@W@yN5cn-hM8$Cp9m)7j;El%Z2zN
zUPnEM!Y;ZO#G)oqCPrW}{uQegx{=4D&ggQ~T~LfU7<tJJs2H`qsLTGqJQ>1;j$j8q
zj}@=DC1{KTiF@LQxCM1Bqd3MiITKN{doAh-S%|f<(KXkhp4fnRDb~QFr~|r-x<r5e
zRXgN~Bycf@g0=WJe7nfVCR~CMY`;OpMndqD>qaJ1KL3Wh|H4fUAmX#ABh0vEBp3VK
zc4vIV9V5qyYn1SH<@w)m2JzFJ&)VKH9H1kP{*8|WF2QnCY<S;gchm#7cA0CNRC~9q
zr-xVP3@iO{0ct)4Wm-S~x}hF+0nEh6Mb=-X<EVqJz1aF+=E2yKI0rR9@1w46bin#)
zGPcxpsJ{R%;`>-@iS_*ao3_OIv%LxXaii=~>(BBa3@4sl>gH0<<Li|Fewp=8-;Stx
zJRj#_9uC6z<<|dcaR{~kGg&U~gWADBmgjnOmICe3vtL<%(k5dHaitYj#^EF!kL6cd
zKVANXZHTv_9u*<0te^P(QO}}m)I2UiO|NHGTN#O+P&Zy4>isZ}&#X>K2h<x=QFqd5
zoQ)0Ex+U3#CyAfpbFH6~yQoXmc)j)W`6DbOzKXh3`Tw<Y4M$~L`6tG2uo6rb6yZJM
zdtX~WZM<7KRz`DU;zsKya+yu8Ly;Iq`7li7f#ZA?)3M99Ru1DW)V1ET#m!iyt>gmr
z=U{cbw9PF|`5i7tI-^j&7`O9WV5gN4oD>qj%gRs+&ZGX!>$2PW->m?~5Lf!n`iE!|
zPAASqO}-v`tp6GL9CfWrFcJIibyIx+dlI+Hb?;q_Iuj+R8)o!A?YJlMyZ!FQEYu`<
zI?p9xZ`2&vjQZln2b`IxyCw9Xm6<pkwV~ke-SY!*3~>Nk;0uQsc^Q%SPzN;l2e*s%
z;&|GZsy|wpigQsL49mB|c_v@rIO0i1t$c~)kGUibppLlmap!Q<!|^0){ji^{|2YU?
zJ>sAfZsuOZ;lx`?ZBoE5C2e>O7kX4QJLx*G6ZMdM<&+!QLe#_XK59d6oOUxb6?LSS
zaXiMIvHtJYtEiuWxL>UQQ(`lAC;r1(E9IDs1PsUI^X&g-jC9^bE6b>Gtk5+)@sjnw
zJC{+vuo0Kt)K12l)X&AHc=d|){{qy$X5}LF8le7Ydh%D25R*{jnMmHrC0tFs@;U<{
zj=ABvtPR|9C)nNFR!&pll{?lyb*q=q01Xx5M#_usTA4(gb<au_eCfWGve@>4>qv)(
z&TjY|<$bUM&v}omRK#he&MP&meCfqE6N1CDgTqa6{h+A&4IfV%ci2?P4()2{R(Yad
zSnb%P#N>qc`wmP>N=&NrkAB%*63m5}!Q6-+m`a=${lN79f0+H%0~1&j!tD=Y5>f{0
z1HChBfAcscLt}<$L0Vp>?Ous^P-4o^0ezEGhxyf-F0!vy&=;j7CFo-lR@=<hX*JrL
M3fYZHY(}~N0V`1Z!2kdN

delta 3581
zcmX}vd0bXi8o=@A95i$cXHqjiIhsro;(QcyY*J%POe3u{b4jfPRA^KLWw9{z1)Mbf
zh+8JvqB8+viVKPJ<~rt*xNo@SmTT^*fjF2kzvmvBzrOc5_uR8S_uTj0T~(*Fs?N&1
z2EKVlWb{ZQO+_Sdl#yh73OnF@jKD+K1OJd{<RyF)BQX!#;U%nxjgyS@#@2WdGjLc9
zk@(R@9wOeAY9tg7;sC5nH9oJSK54E(Hd0^aqINhRyWj=9hM{AP{1xlJYa|DI;Kxkh
z9PTB4FWtx&#8Km1dl%n#1H6vyxgR{<$npS@LHHT<YG?S2e8)w8rjZ6#Bw><~4C2fW
zjQkVr6xU$xhi+z((~NAU{39HQ{iholPs1y-84z)+8Ac`&Z<}ePChc{dWrQZA#~dTs
zlpp-aNEyb=b@lrB82)P%l%hTu!hYxs^H7)m1V&*aS}&%-80<y-=%+?zV;p`>c?CYk
z%$6|yN;=%k=pUhc!<R;;;=Vj1Hz*%iV8q9BQC}H(2YuVQ=)^_%5+mKHkch2_i<dG(
zJcs%~L?In=e?3mcp3B|J99v=J72>f)Mq+Wx*G5=O2`M(hWTjxWkxzL3Ilqxdu@oCo
zeihqWnhscFB#eTHbw)Z<A%4A)g;;=nFlvL51<c?x96{W1lN(SzZlpZqTO)s={K6KJ
z4I6DWl8O^>2HwHRn7Pf!%UFy3j>f+DyiTo{i&rTq!;aWxJ2S!w*d2G`v)G`--G2om
ziKpOOxC3>ip4wp~0W+{G-oXCYcBjkssrYx|b2tiL-o@7I(yrk`Z~Shzk+(4ghu{GW
zVP)FwaSaUGYh)Yct8gEt?=#XDyYF}P7og6}9B>1R#b<~&Vl0-SPOSeyms7du>qfyf
zE;I?BKICSSg)b1F#KG9C)GeJ4^)=dsF<9fUTZuT-=L=BZ>wEY#_C8`H4kuv@UO|1n
z$5Hp(q@%q5g%oU~;8#pO<~km8oMa?kjhX}Zu^;yO-px24M-o@!8yJ7W4Rj+uPu%3B
z>*#INw`m^g%I-lu;QoBd)mw0i_g_0YO@WTQ`DvCMC!p?qF6v(2KpjB%8CUNE)MPx3
z`Z{+1!ANVIk2-)7d=YD%b-C3GUnl+oHD_+2o}91x&bb+8p`Lh0s^j4Eu7NbvBwCMc
zu>J*iG<U6bBI<MBpuWZd7mbX@E~rVl3ia&>y5uGjiJI(_P*>J>fD0W-$d9g}L8yC~
zk8SZT>OmBC*)<T4nna7SC6;4PY<9)XJPCD0SD?NH<+v6*UUd^HN9`}-nl~|@jNw9O
zP=d{|{&lwn?J<scFusdhQTH-}V@#7X1vR_<s3+tNY=O_*bORcU;l#`E2|R^5p$Dj2
z)aEB0kdLn)7oSkz$2ak{TShiuA-3f88*$r69sKx?kq;^V*U#>L%Q6li;>)NrEGRd!
z3y0iwXMF1lBPWQTyvNs-=c{lgaZ}D`?Qb~_(-}wI=OclI7)Zr-zZe-#9Pz-tMvGQ;
z_+y`%KF!CzxmJea0@Qr6dDhFnemIXfAM-FG-+H@r7Im_%7g_JioQRRcn^5!97Fch0
zyQ8Mb<Z9QV{sOp(I+PZRt<TH9Ig72g+FLM&8+E?2-YO?xDDmgjZmsq@cA>n%66>A5
zZ=mLJE`E-s7>{F?TJNXDG1U6Og)Sb3ntsa)eQrcoDbNu$UuL~Un}KP>4VPQV#OauY
zbyrv~U1sA;#3iUl#Um@Nm-xd`&!P>ed3+Z&y@HGMqa-o_^~F1edOzI9XI7VF5bBM&
zsBh9W)TQsR%5BMhJVX2>pKJY`1gv)Dolx_6HeSIB)U7)EZ!0%(vfs)-Fzp*FwaJ1?
ztR$|n)_Q5<tKwn;H)gK0ULpr=a0BX$BPbt-={#_eui`?C{*RSIScSURhc>wtd;D8+
zf%;!!6D-^8wx-@zmm`BwC|`+Nc&=!hm2sRDlJ=dIL<(-9{>+QsZoThT5ylcfUShpN
zbUbDgA4W~Sp*yVi8OcT6YrE4*5)Q}r@i-2`e!E<|D^XX%?shYuf>U%;9^2z?EJRI`
z=6hWdzJr<rC8!N|+UH!3`nELPZ)Fx{p>|aNfO|d>ClVK7XKZtjnFo-Js1r&)?B1eM
z%%Xn@K4N7W=Am{Ne$)!*ndD<8@vP%k7GS;aU6K}|&baXjXBO(=cm=h7_(|)14vMf9
zaotmH<s$Gs;+@sLaGIplj@NUcM@7^bH-LSpN!9HKH?yUvhv7qKT}M4JhIlUOOv^C~
zQ_orNcWVXeXCU>w^?pi}-~i$#7pw%b7-KOMCtl+H{~I%1blJ)hDqOhYI-Ysedf%OL
z)GutiYi?=hU@-L$V@IsGZoR(%ZEsq+OuY`M-={zQL=xh7)c8{*@1zWih}Ya<BE%zq
z_PMMrDt9MXK!ugFROp5~F!UZB(9vyNM||(URwfe{S6XR^&;4ShCcgf_4P?Nt&S-2#
zc|1PMb5p9U{2u34n^$ddt?G-dlWK?hYloWKt<AIk`~6JUh7HeWOb=->BsnQHVR&?0
za&l5~Sjzc~Y=7?r^W&_*kQO83(!)}6A|IHczXkqf4@^OR?T{8@V-wQi!czRvxpt_j
z>$Q^@JBkvX&)J=42e`K5lhP80MW?2Zc6Y)g=dH=MvA=h|ed6ID@2Rxp1lMVLk<EKC
c=>IJ@JD<5Cr*kjUENAdE8{{8&&!z<a59VeJ6aWAK

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index af0b3b9..93c1529 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -597,7 +597,7 @@ msgid ""
 msgstr ""
 "Brotli-"
 "compressed応答はBrotli圧縮を使用して、ワイヤ上で転送されるバイト数を減らします。しかし、この応答はデcompressできませんでした;"
-" 遭遇したエラーは「%(brotli_error)s」でした。\n"
+" 遭遇したエラーは`%(brotli_error)s`でした。\n"
 "\n"
 "この前に%(ok_brotli_len)sバイトが成功してデcompressされました; エラーのチャンクは次のとおりです (16進で):\n"
 "\n"
@@ -2950,7 +2950,7 @@ msgstr "Content-Range ヘッダーにハイフンが不足しています"
 msgid ""
 "The range specifier `%(value)s` is missing a hyphen separating the start "
 "and end positions."
-msgstr "%(value)s の範囲指定子がハイフンで区切られていません"
+msgstr "`%(value)s` の範囲指定子がハイフンで区切られていません"
 
 #: httplint/field/parsers/content_range.py:175
 msgid "The Content-Range header contains a non-integer value."
@@ -3470,7 +3470,7 @@ msgid ""
 "`%(value)s` is not a valid in the `Cross-Origin-Resource-Policy` header;\n"
 "it must be one of `same-origin`, `same-site`, or `cross-origin`.\n"
 msgstr ""
-"%(value)s は `Cross-Origin-Resource-Policy` ヘッダーで有効な値ではありません。 `same-"
+"`%(value)s` は `Cross-Origin-Resource-Policy` ヘッダーで有効な値ではありません。 `same-"
 "origin`、 `same-site`、または `cross-origin` のいずれかである必要があります。"
 
 #: httplint/field/parsers/date.py:47
@@ -3788,7 +3788,7 @@ msgstr "ネル ポリシーには '%(key)s' キーが不足しています。"
 #: httplint/field/parsers/nel.py:104
 #, python-format
 msgid "The `%(key)s` key is required in `NEL` policies."
-msgstr "%(key)s キーは NEL ポリシーで必要です"
+msgstr "`%(key)s` キーは NEL ポリシーで必要です"
 
 #: httplint/field/parsers/nel.py:111
 #, python-format
@@ -3810,7 +3810,7 @@ msgstr "The NEL ポリシーには無効な値が「%(key)s」です。"
 msgid ""
 "The `%(key)s` key has an invalid value; %(details)s.\n"
 "Details: %(details)s"
-msgstr "%(key)s のキーに無効な値が指定されています。%(details)s に関する詳細: %(details)s"
+msgstr "`%(key)s` のキーに無効な値が指定されています。%(details)s に関する詳細: %(details)s"
 
 #: httplint/field/parsers/nel.py:128
 #, python-format
@@ -4169,8 +4169,8 @@ msgid ""
 "The reporting endpoint `%(name)s` must be a string URL. Found: %(value)s "
 "(type `%(found_type)s`)."
 msgstr ""
-"報告エンドポイント「%(name)s」は、文字列URLでなければなりません。見つかりました: %(value)s "
-"(型「%(found_type)s」)"
+"報告エンドポイント`%(name)s`は、文字列URLでなければなりません。見つかりました: %(value)s "
+"(型`%(found_type)s`)"
 
 #: httplint/field/parsers/server.py:42
 msgid "The Server header is long."
@@ -4589,7 +4589,7 @@ msgstr "「推測ルールURLは安全ではありません」"
 msgid ""
 "The speculation rule `%(url)s` uses an insecure URL. Browsers may ignore "
 "it."
-msgstr "不安全なURLを使用する「%(url)s」の推測ルール。ブラウザはそれを無視する可能性があります。"
+msgstr "不安全なURLを使用する`%(url)s`の推測ルール。ブラウザはそれを無視する可能性があります。"
 
 #: httplint/field/parsers/speculation_rules.py:51
 msgid "The speculation rule value is invalid."
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 2a1fc91fc964b17e2461ce347ac60013dd430829..4744f001198924683adc107c33ec0b7726fa3f8b 100644
GIT binary patch
delta 4850
zcmYk=dwkE;AHebVIk`<MbD7I>ThT08v)spAA~K@QB||PXjJYj~4Shq%{kFA!s9d`!
z*XT=zqLxd<PfN*VxkaId{4k~0`*XgJ-|zR=^SsaZe9rxR&SyK48?-++XhUkKZ@h@~
z9%iHvk6{Vimue&o4+s1W>syf$!;Kgt(qts%u-Pahnb>-?kt3APO*3*0=e}&@I8GX4
zq#pK3H}Wv$X5um8wXYcIfK$gBpPVLfXsnSWTsO{04GIQj7`aXyN$ts4ZM=~;aSArY
zun9)mU^mn_2Oq;D_z>PjZMgD8Bi~Tp(-=Wq-e;sA#^MI@m-tBRCedk<k=j^hijfzv
z;p;}0Vb)Y5Pij2fNM9aIdBaFc{2FUx$r(oWU_I0Z3b7ehndv&#4MTZ;E(YVOSw_m@
z#@R+LQErcKj*$n+SUcB9Wz3yt<O$55?;0$=kOwLFBJRae*puIzE^_gLET)$Hq-^qW
zB0h=vNZ%#sO(Ttn=j9lQ$2=?`zua3!9wqi&|Cf;_B*GRma!ka|xCuL<EO8_0jNJ*R
zqfYfn)aObqbt7+$PZ6hJ46el}EWo;0=4~U<7>ivo6`!Sj*+D`Z41UKwkc3)r2I@#Y
z!`65eb*-b{bv+-7+Ry^j@?WBM=ugy57{&VOQiLxzl7oG4D&9cN&s<@oIql0968hk^
zfOS_I2`7FDbwtxpN3tIu$J?kKdvulSP!j4CXJJD;fX&gYb|a6&`ou#~H|0{)CEJg+
zX<x38sDtI-WA|fo)DHE*ILyXJ@VkJwup4pJ_l?ZJ(bxcsQ0s~Qz;(12>eNp|U9wH6
z13DQn{6izYSTd4H=m?ji?&8B(3vZ#G(`swn5)DEf!Df6K&!Emk<VS8v`l6nS*HNEe
zgN^aqfF(b6aZA)08~ZWmUq`%-44slgs1+2VR$OVVYcL+$5@(>6+lgB7&!~H#$~w2E
zolxtWj=B`@qb}vifcFB1uQw7&{!{CHuIIzaXh%jCK7q$E3`_Ht(1NuCc0p}819iqW
z2J#EACUNPF&bnBgxD#rJhoLUTT-2rf40TCP`AF!R1#NOuAA{A1lW-7@L#^O6Y6bQa
zH_|B75vE`$zKfM{3+hZALY<lNn_WXsqjq>SYPn^o_4&4us7T^G>hZc8_@U7jmp>5o
zm70M%GufyWeT8H22I|bEd}`!%T#sL41HX~Qco+4&=WI1H5HI2=jNfJ?UC)0miHT&y
zd}d@3ZopTt?RNLh-;VlXO2{=b7&oHs;wn3g^uWIO5pG7^l>K+QJ@Y>5fbvnNy38&k
zBe5AS#5LGU&wq>0-Eqqaco?-qL0=fDVAxEkx8u^?&bfPxd`tY=m#)KIzjCkMbGVZH
z=6ObVsY(G}CeGYz<O3YM&&XU1*>7YxzKf@5UmiGMq!JHY#@~sH9W=58Z(ud@=O5y>
zB3}2ckyY65u#qpc+z})9Fb{RA^ZxBRGT^AYJGS9i@+*C3WCG5^AsC!*WC5n5uRn>B
z-y2zrLr_On@tEuB1zb;@{)3SbSo=r!D$T;7#E&0$*LDu}Bff^Zwh2EOnT~q`#-A{f
zLVOf;&$KwnCT3upPICSe$+&XLh#y;@c2jyA|0bSOVB|2){@F--9_V`piC3RBvIVbT
zWAay?Gct$xr}OTXOSxcV67d$)DR2CXk&c*$+pz3KBP_ohxac!d+=|Tll}$s&g3IoH
z-*v@J;XUlm1AVU=c@;lFU9y<pjU?bEynx03Fp`RwF&ujpx>xdeY(=~QpT|P%iXE>R
z$-*T*5<ilNzHa0qmcHSR&vo2Qy!}rj<LTI|H{I^N^B=dHhu(6hAsgpW?l0_sb8frK
z=X>l)T>g%cY#fHm&=eU-!xcCSeW7;)?|#%NJ&d~frv2q!Ko9@z)^rBGO#U65j3e$D
zc?Jvd8;lj}T}Gvh_1*^y@mcbJz~vZWt+(m+;b!9A_gVea^GQfCE9@tUW*s_U>5^7T
zV`3>Q58(?zR`&BiW@+nf(suV-?>@hddj4kxTlovmpq}@F2dp>3um`OSBc2oRHtOzA
zE@Qoq*F)Gx7c)P^N_85FDQhL40?(DR-dabLx87Imd#D|lRKZFR<vN90?<=@RMeA+O
z=POzHoZllWTlo!tMcusLSFw_Z`C+buOCPdwf_QON>s@YRt66EIo9QDGddXbH$FOpB
z>)rcL;RnQ%u^0{4tzo4WM%P60yN6rv8qLHE;*A)Nbsu*1b;c0lu~-S;z^b?mwVfU4
ziy(24L<0<Y#Cq@cb~ufO#-QH!MYXJS!N}UK;SAJM@eb;g-@rN;^{Dl(@1Cgdfr+TQ
z{wivR+ecXM`yv&!-mD1g^Ln(Kj2dK|MjgRD48`y|>;Y_y`aO_{(KsFT_pPV{ID}f^
z%|L#wNbB8l%}~oFVmVAf?Z^bwZ@}e|KG(nrG6pi@TNuX=z3W=<TW>LH2fjw_*jcQO
z#UFS1wXhL!D{PKqu_JEAmUu4^x2)%$pNabX$EX83;3J_Qhxf29){k-p`=Wj*_)w>Q
zCHBYbs2%F|gd5=~)Ty6=`sK6<`{NI&$Fpg)l}$JWwf;u@9T$TGu`&9xNh~9A5J%&P
z80)<l3UCl{>XTM-@hHB9^BY+2#S+=j%1z=)s2>#L8o8-mfLDn>#U{AAvGv}Jr%>;N
z_$JnSBOb+GdjD5wYGofkjKDS6q?xPeENTx+#ada4t#AdNMD5sX&8>Ie|AM;qQ7zn*
z_CZ~W`Kb8^F&>LhH+lOww`V3`w4VP}B=muN)HN&D(iKPun2Gv@vjTOkFQQghqm^?Q
z>fZ39ZpI%`*VeRlHbkvA1+|?Iu^V2{eA<`THf~MFV_V`J)J<{%{cOr2Y)Je`TX%jh
zp?07|J9qpN0?tOgR`XCBGVQJR#S@3xp>?P;at3ukAssmX`WH<P5?Wvi>Us8~9-Bhc
zhDtu;DojL;=c68<6W9hTb#%Wcp+293I#WkbH)pAMw>j&hcAzI}dsE{%|9afEk)htg
zC~VxxRWJx!5WkIKjO-^2$D5tqE4gwP>wQX{MeWdYUESW9jk^0cVmKDzcUbK?E9dYU
zmcU~PK6h)KN^s|WNTPdHW}_aHwa7Pv6yQkWz1^*35jW{!z5iq!>}kEP;?>W)+btg#
zQf_cBD?9KG>bK<9BrAVlquy3_V?-Y-Gx66}B(x{#eVr3<HSrX@4<lc2`Sk)e2pEec
z`Mu4Qpa_3Zgei<NP5edO&EC+E{<Z52&P*BAFF7r3WLo6Q{d0~FGm|toGc{%4e{=mK
zQ%z9EMdufV<aG9%VE@8TO*u<gF=y*mQ|Eq)zcL^-J(=hIm$sUT#THc<Qa0}VyvY}`
zH`L_EQ3KKj4Clw1=XXuLw0!%8x7KTJ^0-mSFOErmi673sHu=Jgo#)^1N)H}6Mmw^0
zhuIKBv0=#>8V=oQ;{GpOzti;lU+53rWvbTH*gfozJ8jatXq=vw%G3VOqijZvVB!}?
mzLYXzux35;tc|!or$!eOT;kl;IrJ&VRJ4!ySN5{&iv0uAKzB|6

delta 4866
zcmYk=2Y8Ry9>DS6IW%q%*GNz!Vnh;EyJBx@Q$<jfQfaC}BE#0d*_u%!QlvGirKr`C
zs2HU!RjpB@)Lx}lX{*D!-`{)w_dfS|JkRI+&i}k;pZC16KR57jZs3N55Z^=*d1<hb
zKkzID;L!vlrSK=e_pzoGDKf-}F(NG!DTl3-jEu&P!;BoJ{N7|E_i$l~kyAJ`)yT6L
zpJt>2<udRDan5ifZSkEE#wX`UoE%}K4{jZ4q#Ol<M;ZBzxDK_)VdNMi3osq)WB6Dj
zEie`}UXE4pG?vDE<6OfP@c{L`fDz<}`i#V48{9ztM?Mm}NyJPr5{{)N8R>`3CL39b
zOQsm9t?}DNUgp8nsYaUO5e&zo(~RuFdZ-ON#0FSty6adhhVcACEQsr87%76eGmTuQ
z-1oj&MhcOUlWwFW?wxI<I-Y;WHCT8q4^nU_?!z${!|$!;xj1V+Q%ina2KhJ@YvXyO
z?-IPgNL}JZnMOL`VLVTM*>{apCiXpEXrvyA@I{Oq`(Y>CjvcYUVmFdr*n@a3>QrAt
zeXdxR8+k`;Nt}wcFbAvQ4SWVmy=SBbw!yAA0z1>b>?5HKmU!Pi5QkcDKI%xm!shrl
z>RLBk;(DHj+E5m1`Gcq((sk2KSRZvMsxC8<iSalEpP=SXS#G2e?aM9_`rsqKbw4mt
zo;VS8L~~F_aty0t-W9H6HBmbhhdRYe@Hsq=jj-T{ZshH-CUF|-X;_K6WXCX^_T?`U
zkr?_ByC0uN?NB^6!KGLc&-u->(nxpW2%Lsvu?_~Ta`iMs?dU+%sh@+oWZO{(bj@$o
zkB#^ml95D0N4OSs7ypEnFwbgtP9ss5Xc+1Uc48a6g}Ov_*0?2k9raYqMty!WM&l{J
zMc2BxJ?e~2T+8{_5pN|!r{pAR1rJdxuJDO#uqU=6o{U=V8`O$#qV9o8>)e{gpw>4R
zbtyKXF6A}9`PaL+Dn^mtdA-l|d?XpI$ykEb@d}p05Z)46u!i40s0~j>ov~bh{tXNx
z4%z6ei=o6Zs2v`Tx)cjhm+~vrCAsb+p=%$!$xVG@EK3}Rui+%r3VuPYAm~#!()y?)
zOvMmfjU{mx>P($Pote<jTthFQc6cmmxizTu`MxAkoW!rFyE)%x_d|2k{2{2X)XAtb
zvlO+WLzs$BP&ZZT79*1}2lry*Y$J>CsT}tnS&9RQZ($O4-D)IF&;J)B#*q>IxsiFe
z8HZ!LZSI}F3-!emlWQa%x1cr{y4`z$$N*eJyb;^u%RAfvR-q2)DC!Is+G!*aqj4^-
z#NK-T8|-q&ZNA^{P&*Xxg^^&x$nh@m!rjgpdyE_;9`~i|aHp@_tM>waKz{wNjqp;H
zGkBAD#6BadaNsva(lKbiks+9cXK7#Ze`}-!4_wDP#O6CAi}5a&C4biU+*ZVE4jNg3
zeGeJ=LdzXC@&xywPW7H6t|R?^aCgTR96^5YQ6pn<Ccch=$BfLuWc0m4BJXh{pI{v7
z$cmkCJ-vkMiIaacG88MEbg$Am_y%#*DR*tp$5`S!sB7EhCnIm;F28M08yQ4=2zAdi
zIKw7pVC&Ct{$t4a<*boxY;n#_=|A|GIQ_hlLpbY#k>`1!-$f+;=#r7mcpIb1Uvb&U
zEaKBw+%5OURU;FKx1dgWy`SCQ*o#|<i(WIr^2>p1J|j<Arsfx3G-S-Z>F)Pkx7-xU
zZFlSS!#8>GGt?!keaA>Q{1mTZz^_IU@D`TGK6l+Kc`P;~-iW>M9(KhJ_l(TPEFX!J
zBx?R<<Qf+E-5sCbaW`@9A4bN|G2eZ+dmsGi&hy~E+-X>Vvnlr&+hY3P?(#W-I<vw5
z7|Fl{T#ELAk!1V;XP~e6LwBB+qfY5z)Xn$yBliNT_}H!KbW9=t0ZzokCq~-gJv@Mo
z#Cn%ept0VYbRKpl|0FKMNNc@Kw;w+v?wiNzr=CxW<h2xH23Uu-SRkL3{Mh|pR!U=R
zpq2eRFebnCHffsz*1OMt$DZWRENJBsUP3+Z7lN!e!qSDT3?@$Z`w!~wf9>Da`*=Nw
zeRVO97q${gL$!-oIYxnQMXk5ik;Sa{6}u9(0~3R-1X8Y3i1ogLV~SgEbM`J_Wf#9!
zDQV>f-ay^FC!V(QH6AbJI{02`E2oJUm$BaEHnOah7P^_%lF&=$4pzaZL#=o3x58D#
zlQ1t0S1o6y64neu@_UxI-ZeS~M-gwr@>sQktFJQ_CLW0;a2l4uWvK1!Kwkuj>m=%6
zk&4!Px3|H!XebT!zJFNBN*AmW?iwDAJ&2c}PWc}giPbAx@A~eA`W|=_b=TiP?Qq)&
z>wRAgL9I6<!uq@(?IEKa8Rt<)z;5wwwF;=0Pd(J{f$mrXr}}^2iaLOUs1^R{&kv8X
z-YwS<L-aW;if^EHWE|=@;PNP+Yv2qS0~qn&*n}VYK4ZO4sKuxq*oWG&%NU9QRb75K
z)+KI^jc_Ek$IaLj<yjXuLw$Y*>hqtV4(Nc7gnk@KHS68SwNMN8L;X+~k1yg1d<FkP
z?NIOPZiH#5Q=g9d<&=%D;2G58*`$V*O*j>w!G`=DR}14Y8hwjMEG2OShha)B>%ADR
zpniZ1t8FD0f5dk&qmK1nEY+T~a-aAu)DMbrb=}l1z}v*zupX|Cw%(iZ66&4MwVw6f
zh(BU)z5k!CZ{-_)NWs<ExPhza8fp)N8d}N1*0>xmqIPUbBkO&H-b7vd+Kt_m_D5Zc
z4AlH1*a4-9+vFWl_sj&Wq38c&68gX?)HN&7)D?*F>qGrET#35Yw@@pr)XbTLx@5Vi
z6`w_2+kocI2B`H8MQvvtcE=l<Py5oWg<I3{*ors{b(37cY(t`@^}h9TTDkLk8?^%k
zTD#*H<980~wfZe;LjliQ?~A7;YKJ~WospkW2Ncql^RIs>yhK6^OhrA<xv0nHK59b+
z+qnvRp~e}g$L9jJz%uRK@3E-QXQ9s2an#Kj)WL1ex~LuKi`w4w4xE2IZac_OA7M3Y
z)X`Ni7#kBW$5M>!Jci?gPVSXlzKiufrEa2js83h7cQR0S|L0g9^S)r^C|1VH_y7a&
zd^exFwSMmA&ik+z-K+9_)MK&*`DT#om`HrMhn4xn&3jt!e=?58SnsQNT`zaLoyB)3
zm(<(Jb~Jsg_bs^-e<g1Gl9k<9t*@2ocsGoM_GIkK&Pn(o@pR0CHRj!|Tr5aSwCHCg
zAGVtm7?B+qVeVEl(b*4rn0+B7E{@L%kBlEZC@D5BIXN*oD&^w%_xP9j!(cNZ*!yvG
z!k_{F_ha_J1QXakbKeqEDtp=%Q`Bm*(7b~q12Q+}n8?8J$l?7H(&D00GHYa;u*`^x
zHYmHuR?{_a=KbZSaP;hnS2H$*g-0g!Pwqb?Dkbd7&MDWIZM*vJdh+5%CdIv)8aFU1
z<<j_xSEuc`GF3~)C#F)_hV5oUkk_BVaihFmW)9k6n&b<Q^y177J520<gY1$!O_?xP
z+IyM-Wj8)&(z*m)8lN5>nU<WOP0Y^TR?UtoSJ<od)x?2=hQ@mpXE*C?BMKD$-$24H
T=ggvm3yRx{*;&2qy1f4ZLn?;?

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index dd1792a..6aae122 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -533,7 +533,7 @@ msgid ""
 "GZip-compressed responses have a header that contains metadata. Here, "
 "that header wasn't valid;\n"
 "the error encountered was \"`%(gzip_error)s`\"."
-msgstr "GZip 压缩的响应包含一个包含元数据的头部。此处，该头部无效；遇到的错误是“%(gzip_error)s””。"
+msgstr "GZip 压缩的响应包含一个包含元数据的头部。此处，该头部无效；遇到的错误是`%(gzip_error)s`。"
 
 #: httplint/content_encoding.py:164
 msgid "This message was compressed using GZip, but the data was corrupt."
@@ -553,7 +553,7 @@ msgid ""
 "\n"
 "    %(chunk_sample)s\n"
 msgstr ""
-"GZip 压缩的响应使用 zlib 压缩来减少传输的字节数。但是，此响应未能解压缩；遇到的错误是：“%(zlib_error)s”\n"
+"GZip 压缩的响应使用 zlib 压缩来减少传输的字节数。但是，此响应未能解压缩；遇到的错误是：`%(zlib_error)s`\n"
 "\n"
 "%(ok_zlib_len)s 字节已成功解压缩；错误块以十六进制开头：\n"
 "\n"
@@ -2207,7 +2207,7 @@ msgstr "可用的字典标头具有无效的类型。"
 msgid ""
 "The `Available-Dictionary` header value must be a Byte Sequence. Found "
 "`%(got)s`."
-msgstr "头信息“Available-Dictionary”的值必须是字节序列。找到“%(got)s”。"
+msgstr "头信息“Available-Dictionary”的值必须是字节序列。找到`%(got)s`。"
 
 #: httplint/field/parsers/cache_control.py:204
 #, python-format
@@ -2217,7 +2217,7 @@ msgstr "The %(directive)s 缓存指令不接受任何值。"
 #: httplint/field/parsers/cache_control.py:205
 #, python-format
 msgid "The `%(directive)s` cache directive is a flag; it shouldn't have a value."
-msgstr "The %(directive)s 缓存指令是一个标志;它不应该有值。"
+msgstr "The `%(directive)s` 缓存指令是一个标志;它不应该有值。"
 
 #: httplint/field/parsers/cache_control.py:211
 #, python-format
@@ -2229,7 +2229,7 @@ msgstr "The %(directive)s 缓存指令的值不正确。"
 msgid ""
 "The `%(directive)s` cache directive type is %(expected_type)s, but "
 "`%(value)s` was found."
-msgstr "The %(directive)s cache 类型是 %(expected_type)s，但发现 %(value)s。"
+msgstr "The `%(directive)s` cache 类型是 %(expected_type)s，但发现 `%(value)s`。"
 
 #: httplint/field/parsers/cache_control.py:221
 #, python-format
@@ -3360,7 +3360,7 @@ msgid ""
 "`%(value)s` is not a valid in the `Cross-Origin-Resource-Policy` header;\n"
 "it must be one of `same-origin`, `same-site`, or `cross-origin`.\n"
 msgstr ""
-"%(value)s 不是 `Cross-Origin-Resource-Policy` 头中的有效值；它必须是 `same-origin"
+"`%(value)s` 不是 `Cross-Origin-Resource-Policy` 头中的有效值；它必须是 `same-origin"
 "`、`same-site` 或 `cross-origin` 中的一个。"
 
 #: httplint/field/parsers/date.py:47
@@ -3672,7 +3672,7 @@ msgstr "The NEL 策略缺少“%(key)s”键。"
 #: httplint/field/parsers/nel.py:104
 #, python-format
 msgid "The `%(key)s` key is required in `NEL` policies."
-msgstr "%(key)s 键在 NEL 策略中是必需的。"
+msgstr "`%(key)s` 键在 NEL 策略中是必需的。"
 
 #: httplint/field/parsers/nel.py:111
 #, python-format
@@ -3682,7 +3682,7 @@ msgstr "该 NEL 策略对于“%(key)s”无效。"
 #: httplint/field/parsers/nel.py:112 httplint/field/parsers/report_to.py:73
 #, python-format
 msgid "The `%(key)s` key must be of type %(expected)s."
-msgstr "%(key)s 必须是 %(expected)s 类型。"
+msgstr "`%(key)s` 必须是 %(expected)s 类型。"
 
 #: httplint/field/parsers/nel.py:119
 #, python-format
@@ -3695,7 +3695,7 @@ msgid ""
 "The `%(key)s` key has an invalid value; %(details)s.\n"
 "Details: %(details)s"
 msgstr ""
-"“%(key)s” 键的值无效；%(details)s。\n"
+"`%(key)s` 键的值无效；%(details)s。\n"
 "\n"
 "详细信息：%(details)s"
 
@@ -4462,7 +4462,7 @@ msgstr "该猜测规则的 URL 不可信。"
 msgid ""
 "The speculation rule `%(url)s` uses an insecure URL. Browsers may ignore "
 "it."
-msgstr "该猜测规则『%(url)s』使用不安全的 URL。浏览器可能会忽略它。"
+msgstr "该猜测规则`%(url)s`使用不安全的 URL。浏览器可能会忽略它。"
 
 #: httplint/field/parsers/speculation_rules.py:51
 msgid "The speculation rule value is invalid."
@@ -4737,7 +4737,7 @@ msgid ""
 "the client doesn't explicitly request can lead to interoperability "
 "problems."
 msgstr ""
-"这份响应的“Transfer-Encoding”标头表明它应用了“%(coding)s”的传输编码，\n"
+"这份响应的“Transfer-Encoding”标头表明它应用了`%(coding)s`的传输编码，\n"
 "但客户端在请求中没有表示支持。\n"
 "\n"
 "通常，客户端会在“TE”请求标头中请求它们想要的编码。使用客户端显式请求的编码可能会导致互操作性问题。"
@@ -4770,7 +4770,7 @@ msgstr "字段 %(field_name)s 参数 '%(param)s' 类型无效"
 msgid ""
 "The `%(field_name)s` parameter `%(param)s` must be a `%(expected)s`. "
 "Found `%(got)s`."
-msgstr "The %(field_name)s 参数 %(param)s 必须是 %(expected)s。找到 %(got)s。"
+msgstr "The `%(field_name)s` 参数 `%(param)s` 必须是 `%(expected)s`。找到 `%(got)s`。"
 
 #: httplint/field/parsers/use_as_dictionary.py:85
 msgid "The match-dest parameter has an invalid type."
-- 
2.43.0


From 81dd26539e346a371498aaf10d21d6add2c6d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 58/89] fix: parameters with whitespace around = were dropped

---
 httplint/field/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 941bfec..5e0fd7c 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -234,12 +234,10 @@ def parse_params(
     Parse parameters into a dictionary.
     """
     param_dict: ParamDictType = {}
-    for param in split_string(instr, rfc9110.parameter, rf"\s*{delim}\s*"):
-        try:
-            key, val = param.split("=", 1)
-        except ValueError:
-            param_dict[param.lower()] = None
-            continue
+    # some fields' syntax allows whitespace around "=", which recipients have to remove
+    item = rf"(?: {rfc9110.parameter_name} {rfc9110.BWS} = {rfc9110.BWS} {rfc9110.parameter_value} )"
+    for param in split_string(instr, item, rf"\s*{delim}\s*"):
+        key, val = (part.strip() for part in param.split("=", 1))
         k_norm = key.lower()
         if k_norm in param_dict:
             add_note(PARAM_REPEATS, param=k_norm)
-- 
2.43.0


From b2c2adcfb1837abfa5b7dfacfd8f421015f03ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 59/89] fix: a lone apostrophe was reported as a single-quoted
 parameter value

---
 httplint/field/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 5e0fd7c..3b8466b 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -241,7 +241,7 @@ def parse_params(
         k_norm = key.lower()
         if k_norm in param_dict:
             add_note(PARAM_REPEATS, param=k_norm)
-        if val[0] == val[-1] == "'":
+        if len(val) > 1 and val[0] == val[-1] == "'":
             add_note(
                 PARAM_SINGLE_QUOTED,
                 param=k_norm,
-- 
2.43.0


From f805d10421fdb88a301fd04f99ad6eaca2a63f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 60/89] fix: Boolean values of Integer parameters in
 Cache-Status and Proxy-Status weren't reported

---
 httplint/field/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 3b8466b..6de7a85 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -292,7 +292,10 @@ def check_sf_params(
             param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
         else:
             expected_type = known_params[param_name].get("type")
-            if expected_type and not isinstance(param_value, expected_type):
+            if expected_type and (
+                not isinstance(param_value, expected_type)
+                or (isinstance(param_value, bool) and expected_type is not bool)
+            ):
                 add_note(
                     bad_param_val_note,
                     param=param_name,
-- 
2.43.0


From 76f045af9855070c3b66afea86a63dd1ea963098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 61/89] fix: Use-As-Dictionary notes named the value instead of
 the parameter

---
 httplint/field/parsers/use_as_dictionary.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index abd8ed5..1398827 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -26,7 +26,7 @@ as a compression dictionary for future requests."""
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         for key, val in self.value.items():
             if key == "match":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "match-dest":
                 # Can be a String or Inner List of Strings
                 is_valid = False
@@ -41,14 +41,15 @@ as a compression dictionary for future requests."""
                     add_note(USE_AS_DICTIONARY_BAD_MATCH_DEST, got=type(val[0]).__name__)
 
             elif key == "id":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "type":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "ttl":
-                self._check_value_type(val, int, add_note)
+                self._check_value_type(key, val, int, add_note)
 
     def _check_value_type(
         self,
+        key: str,
         val: Union[tuple[Any, Any], List[Any]],
         expected_type: type,
         add_note: AddNoteMethodType,
@@ -60,7 +61,7 @@ as a compression dictionary for future requests."""
             # Inner List found where simple Item expected
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-                param=val,
+                param=key,
                 expected=expected_type.__name__,
                 got="Inner List",
             )
@@ -69,7 +70,7 @@ as a compression dictionary for future requests."""
         if not isinstance(val[0], expected_type):
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-                param=val[0],
+                param=key,
                 expected=expected_type.__name__,
                 got=type(val[0]).__name__,
             )
-- 
2.43.0


From 6ea8302345956c38668f5c9e18b1889e92a7b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 62/89] fix: a Boolean ttl in Use-As-Dictionary wasn't reported

---
 httplint/field/parsers/use_as_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index 1398827..7efc87c 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -67,7 +67,7 @@ as a compression dictionary for future requests."""
             )
             return
 
-        if not isinstance(val[0], expected_type):
+        if not isinstance(val[0], expected_type) or isinstance(val[0], bool):
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
                 param=key,
-- 
2.43.0


From 9de2c57159252c4ef3193d85b687858246586c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 63/89] fix: a Use-As-Dictionary type is a Token, and was
 reported as one that should be a String

---
 httplint/field/parsers/use_as_dictionary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index 7efc87c..33ada0e 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -1,5 +1,7 @@
 from typing import Any, List, Union
 
+from http_sf import Token
+
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.note import Note, categories, levels
@@ -43,7 +45,7 @@ as a compression dictionary for future requests."""
             elif key == "id":
                 self._check_value_type(key, val, str, add_note)
             elif key == "type":
-                self._check_value_type(key, val, str, add_note)
+                self._check_value_type(key, val, Token, add_note)
             elif key == "ttl":
                 self._check_value_type(key, val, int, add_note)
 
-- 
2.43.0


From b40ad362e60ff5888f3cfafc28f10de1b6b8c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 64/89] fix: Proxy-Status' next-protocol may be a Byte
 Sequence, and was reported as invalid

---
 httplint/field/parsers/proxy_status.py | 2 +-
 httplint/field/utils.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 1ce03a8..e36ea94 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -104,7 +104,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         },
     },
     "next-hop": {"type": (Token, str), "desc": "The next hop was %s."},
-    "next-protocol": {"type": Token, "desc": "The next protocol was %s."},
+    "next-protocol": {"type": (Token, bytes), "desc": "The next protocol was %s."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
     "details": {"type": (Token, str), "desc": "Additional details: %s"},
 }
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 6de7a85..d7ed4fc 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -326,7 +326,7 @@ def check_sf_params(
                     param_list.append(f"* {code_span(param_name)}: {code_span(param_value)}")
                 elif param_value is True:
                     param_list.append(f"* {desc}")
-                elif isinstance(param_value, str):
+                elif isinstance(param_value, (str, bytes)):
                     param_list.append(f"* {desc % code_span(param_value)}")
                 else:
                     param_list.append(f"* {desc % param_value}")
-- 
2.43.0


From ece8060e338a10d62f1daee427768acc2e3631a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 65/89] fix: expectations are case-insensitive

---
 httplint/status.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index cf013b7..a8b7ba6 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -57,7 +57,9 @@ class StatusChecker:
         status_method()
 
     def status100(self) -> None:  # Continue
-        if self.request and not "100-continue" in get_header(self.request.headers.text, "expect"):
+        if self.request and "100-continue" not in [
+            expectation.lower() for expectation in get_header(self.request.headers.text, "expect")
+        ]:
             self.add_note("status", UNEXPECTED_CONTINUE)
 
     def status101(self) -> None:  # Switching Protocols
@@ -241,7 +243,7 @@ class StatusChecker:
             if not expect_headers:
                 self.add_note("", STATUS_417_WITHOUT_EXPECT)
                 return
-            if "100-continue" in expect_headers:
+            if "100-continue" in [expectation.lower() for expectation in expect_headers]:
                 self.add_note("", STATUS_417_WITH_100_CONTINUE)
                 return
         self.add_note("", STATUS_EXPECTATION_FAILED)
-- 
2.43.0


From 82b70cb4f1c58c9bf1467561a30f57eb62a17447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 66/89] fix: status codes with signs, underscores or whitespace
 were accepted

---
 httplint/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/message.py b/httplint/message.py
index 986fcf6..62f7993 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -13,6 +13,7 @@ from httplint.content_encoding import ContentEncodingProcessor
 from httplint.content_type import verify_content_type
 from httplint.field.cors import check_preflight_request, check_preflight_response
 from httplint.field.section import FieldSection
+from httplint.field.utils import parse_digits
 from httplint.i18n import L_, translate
 from httplint.note import Note, Notes, categories, levels
 from httplint.status import StatusChecker
@@ -289,7 +290,7 @@ class HttpResponseLinter(HttpMessageLinter):
         self.version = version.decode("ascii", "replace")
         self.status_code_str = status_code.decode("ascii", "replace")
         try:
-            self.status_code = int(self.status_code_str)
+            self.status_code = parse_digits(self.status_code_str)
         except ValueError:
             self.notes.add("status", STATUS_CODE_NON_NUMERIC)
         if status_phrase:
-- 
2.43.0


From 5d3c986880ee3bcbd9dbbf4074d89fc7106ffa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:45 +0000
Subject: [PATCH 67/89] fix: multipart/byteranges was said to need a
 Content-Range header

---
 httplint/status.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index a8b7ba6..7435b0d 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -99,7 +99,11 @@ class StatusChecker:
     def status206(self) -> None:  # Partial Content
         if self.request and not get_header(self.request.headers.text, "range"):
             self.add_note("", PARTIAL_NOT_REQUESTED)
-        if "content-range" not in self.response.headers.parsed:
+        content_type = self.response.headers.parsed.get("content-type", None)
+        # the ranges of multipart/byteranges are in its parts
+        if "content-range" not in self.response.headers.parsed and not (
+            content_type and content_type[0] == "multipart/byteranges"
+        ):
             self.add_note("field-location", PARTIAL_WITHOUT_RANGE)
 
     def status207(self) -> None:  # Multi-Status
-- 
2.43.0


From afb1d9bbab5e05097a2d58968eb4aead1c8648b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 68/89] fix: 405 without a request compared Allow to the method
 'request'

---
 httplint/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index 7435b0d..87c22e2 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -176,7 +176,7 @@ class StatusChecker:
 
     def status405(self) -> None:  # Method Not Allowed
         method = self.request.method if self.request else "request"
-        if method and "allow" in self.response.headers.parsed:
+        if self.request and method and "allow" in self.response.headers.parsed:
             if method in self.response.headers.parsed["allow"]:
                 self.add_note("field-allow", STATUS_405_METHOD_IN_ALLOW, method=method)
                 return
-- 
2.43.0


From a8be462a1a38569ddcbc360246daf36f94974510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:37 +0000
Subject: [PATCH 69/89] fix: Access-Control-Allow-Origin: null matches Origin:
 null

---
 httplint/field/cors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 637dad2..13651ae 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -107,7 +107,7 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
         # fallback, shouldn't happen with new parsers
         request_origin_str = str(request_origin)
 
-    if acao_value == "null":
+    if acao_value == "null" and request_origin_str != "null":
         message.notes.add("header-access-control-allow-origin", CORS_ORIGIN_NULL)
         return
 
-- 
2.43.0


From fcfe449b870d976c641c21ce1914571edc29d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 70/89] fix: notes about Access-Control-Request-Headers named
 Access-Control-Request-Method

---
 httplint/field/cors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 13651ae..423424e 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -27,18 +27,21 @@ def check_preflight_request(message: RequestLinterProtocol) -> None:
     has_acr_headers = "access-control-request-headers" in message.headers.parsed
 
     if has_acr_method or has_acr_headers:
+        field_name = (
+            "Access-Control-Request-Method" if has_acr_method else "Access-Control-Request-Headers"
+        )
         if message.method != "OPTIONS":
             message.notes.add(
                 "method",
                 CORS_PREFLIGHT_REQ_METHOD_WRONG,
-                field_name="Access-Control-Request-Method",
+                field_name=field_name,
                 method=message.method,
             )
         if "origin" not in message.headers.parsed:
             message.notes.add(
                 "field-origin",
                 CORS_PREFLIGHT_REQ_NO_ORIGIN,
-                field_name="Access-Control-Request-Method",
+                field_name=field_name,
             )
         if not has_acr_method:
             message.notes.add(
-- 
2.43.0


From fda62696aa888a8544c9890dfe47879598fe520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 71/89] fix: subjects of notes about CORS fields start with
 field-

---
 httplint/field/cors.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 423424e..e75f409 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -74,7 +74,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
 
         if bad_headers:
             message.notes.add(
-                "header-access-control-allow-headers",
+                "field-access-control-allow-headers",
                 CORS_PREFLIGHT_ONLY,
                 headers=", ".join(bad_headers),
             )
@@ -84,7 +84,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
         acao_value = message.headers.parsed["access-control-allow-origin"]
         if isinstance(acao_value, str):
             if " " in acao_value or "," in acao_value:
-                message.notes.add("header-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
+                message.notes.add("field-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
 
 
 def check_access_control_allow_origin(  # pylint: disable=invalid-name
@@ -111,25 +111,25 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
         request_origin_str = str(request_origin)
 
     if acao_value == "null" and request_origin_str != "null":
-        message.notes.add("header-access-control-allow-origin", CORS_ORIGIN_NULL)
+        message.notes.add("field-access-control-allow-origin", CORS_ORIGIN_NULL)
         return
 
     if acao_value == "*":
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_STAR,
         )
         return
 
     if acao_value == request_origin_str:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MATCH,
             origin=request_origin_str,
         )
     else:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MISMATCH,
             origin=request_origin_str,
             acao_value=acao_value,
-- 
2.43.0


From 929bdd8ba00d3fae99a16edb614245d7baaf3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 72/89] fix: an invalid Origin was compared to
 Access-Control-Allow-Origin as null

---
 httplint/field/cors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index e75f409..6c08ef4 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -98,7 +98,10 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
 
     request_origin = message.request.headers.parsed["origin"]
     if request_origin is None:
-        # it's a "null" origin
+        # it's a "null" origin, or it isn't valid
+        lines = [v.strip() for n, v in message.request.headers.text if n.lower() == "origin"]
+        if lines[0] != "null":
+            return
         request_origin_str = "null"
     elif hasattr(request_origin, "scheme"):
         # it's an OriginValue
-- 
2.43.0


From a158ee1ae01415a40b9461472a1f98f70941a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:15 +0000
Subject: [PATCH 73/89] fix: Don't raise when a charset is declared whose codec
 can't be used (e.g. 'undefined')

---
 httplint/charset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 9a73fc6..b16e31c 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -84,7 +84,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     try:
         sample.decode(effective_charset_raw, errors="strict")
         decodes = True
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         decodes = False
 
     detection = chardet.detect(sample)
@@ -134,7 +134,7 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     try:
         declared_text = sample.decode(declared, errors="strict")
         detected_text = sample.decode(detected, errors="strict")
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         return False
     return declared_text == detected_text
 
-- 
2.43.0


From e90ea7e54168bb624b6753592121cdd44d296fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 74/89] fix: Don't report content as undecodable when its
 sample ends inside a character

---
 httplint/charset.py | 25 ++++++++++++++++++++-----
 httplint/types.py   |  1 +
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index b16e31c..edf4d59 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -81,8 +81,9 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     # Primary check: does the declared encoding actually decode the content?
+    truncated = len(sample) >= linter.content_sample_size
     try:
-        sample.decode(effective_charset_raw, errors="strict")
+        _decode(sample, effective_charset_raw, truncated)
         decodes = True
     except (UnicodeError, LookupError):
         decodes = False
@@ -105,7 +106,9 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         detected_canonical
         and detected_canonical != declared_canonical
         and confidence >= CHARDET_CONFIDENCE_THRESHOLD
-        and not _encodings_compatible(declared_canonical, detected_canonical, sample)
+        and not _encodings_compatible(
+            declared_canonical, detected_canonical, sample, truncated
+        )
     ):
         if is_implicit:
             linter.notes.add(
@@ -124,7 +127,19 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
 
 
-def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
+def _decode(sample: bytes, encoding: str, truncated: bool) -> str:
+    """
+    Decode a sample of the content. When it's truncated, its last character might be incomplete.
+    """
+    try:
+        return sample.decode(encoding, errors="strict")
+    except UnicodeDecodeError:
+        if not truncated:
+            raise
+        return codecs.getincrementaldecoder(encoding)("strict").decode(sample)
+
+
+def _encodings_compatible(declared: str, detected: str, sample: bytes, truncated: bool) -> bool:
     """
     Return True if decoding `sample` with `declared` and with `detected`
     yields the same text. This catches cases where chardet picks a
@@ -132,8 +147,8 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     identical under both.
     """
     try:
-        declared_text = sample.decode(declared, errors="strict")
-        detected_text = sample.decode(detected, errors="strict")
+        declared_text = _decode(sample, declared, truncated)
+        detected_text = _decode(sample, detected, truncated)
     except (UnicodeError, LookupError):
         return False
     return declared_text == detected_text
diff --git a/httplint/types.py b/httplint/types.py
index ea86437..0810def 100644
--- a/httplint/types.py
+++ b/httplint/types.py
@@ -99,6 +99,7 @@ class LinterProtocol(Protocol):
     content_length: int
     content_hash: Optional[bytes]
     content_sample: bytes
+    content_sample_size: int
     complete: bool
 
     @property
-- 
2.43.0


From cb99b4225618be6dded3c4830d0299eb4315f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 75/89] fix: Report how much content was decompressed before an
 error, not how much was received

---
 httplint/content_encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index d36eed9..7214237 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -141,7 +141,7 @@ class GzipProcessor:
                 "field-content-encoding",
                 BAD_ZLIB,
                 zlib_error=str(zlib_error),
-                ok_zlib_len=f_num(self.message.content_length),
+                ok_zlib_len=f_num(self._decompressed),
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
@@ -233,7 +233,7 @@ class BrotliProcessor:
                 "field-content-encoding",
                 BAD_BROTLI,
                 brotli_error=str(brotli_error),
-                ok_brotli_len=f_num(self.message.content_length),
+                ok_brotli_len=f_num(self._decompressed),
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
-- 
2.43.0


From ce454f7c7452051bd10da15f3fa4b02a97274248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 76/89] fix: Don't decode content whose outer content-codings
 are unknown

---
 httplint/content_encoding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index 7214237..0a14ea7 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -59,8 +59,11 @@ class ContentEncodingProcessor:
                 self.pipeline = GzipProcessor(self.message, self.pipeline)
             elif coding == "br":
                 self.pipeline = BrotliProcessor(self.message, self.pipeline)
-            else:
-                pass
+            elif coding != "identity":
+                # it can't be decoded, so neither can the codings applied before it
+                self.decode_ok = False
+                self.pipeline = None
+                return
 
     def _sink_process(self, chunk: bytes) -> None:
         self._hash_processor.update(chunk)
-- 
2.43.0


From 7b90119755bb3b2eef6f0b43dc88bf9489976828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:43 +0000
Subject: [PATCH 77/89] fix: Don't compare the type of empty content with
 Content-Type

---
 httplint/content_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/content_type.py b/httplint/content_type.py
index eb5822d..4cba15f 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -17,7 +17,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
     """
     Verify that the content matches the declared Content-Type.
     """
-    if not linter.content_hash:
+    if not linter.content_hash or not linter.content_sample:
         return
 
     # Don't verify content type for responses that don't carry a full representation
-- 
2.43.0


From d4850171519c4cf5de75f7fc2ea553d08f92ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 78/89] fix: Allow ranges without a last position in any unit

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 44d6097..459eb9d 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -277,7 +277,7 @@ first_pos = rf"{DIGIT}+"
 
 #   last-pos = 1*DIGIT
 
-last_pos = rf"{DIGIT}+"
+last_pos = rf"(?: {DIGIT}+ )"
 
 #   incl-range = first-pos "-" last-pos
 
-- 
2.43.0


From 3a4467cd031e44dac90ec630942db2aabb3d4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 79/89] fix: Compare CSP sources as whole words,
 case-insensitively

---
 httplint/field/parsers/content_security_policy.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 7e95c27..f257149 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -94,19 +94,18 @@ sources of content that browsers are allowed to load on a page."""
                 if name == "report-uri":
                     deprecated_report_uri = True
 
+                # schemes and keywords are case-insensitive
+                sources = value.lower().split()
                 if name in ["script-src", "style-src", "object-src"]:
-                    if "*" in value.split():
+                    if "*" in sources:
                         wide_open_directives.append(name)
 
-                if "'unsafe-inline'" in value:
+                if "'unsafe-inline'" in sources:
                     unsafe_inline_directives.append(name)
-                if "'unsafe-eval'" in value:
+                if "'unsafe-eval'" in sources:
                     unsafe_eval_directives.append(name)
-                # Check for http: scheme or literal http://
-                if "http:" in value or "http://" in value:
-                    # Simple check, could be improved to parse source lists
-                    if "http:" in value.split():
-                        http_uri_directives.append(name)
+                if "http:" in sources:
+                    http_uri_directives.append(name)
 
         if deprecated_report_uri:
             parent.add_child(
-- 
2.43.0


From a1e441c521a444ad39e3ac6a72cfacb948a43364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 80/89] fix: Attach CSP_REPORT_TO_MISSING to its own field's
 note

---
 httplint/field/parsers/content_security_policy.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index f257149..372f92d 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -1,4 +1,4 @@
-from typing import Dict, List
+from typing import Dict, List, Optional
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
@@ -39,6 +39,7 @@ sources of content that browsers are allowed to load on a page."""
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
         self._deferred_notes: List[NoteArgsType] = []
+        self._policy_note: Optional[Note] = None
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Dict[str, str]:
         parsed_directives: Dict[str, str] = {}
@@ -77,6 +78,7 @@ sources of content that browsers are allowed to load on a page."""
                 report_only=self.report_only_string,
                 report_only_text=self.report_only_text,
             )
+            self._policy_note = parent
         else:
             return
 
@@ -155,15 +157,8 @@ sources of content that browsers are allowed to load on a page."""
                 if value in known_endpoints:
                     continue
 
-                # Find the parent note
-                parent_note = None
-                for note in self.message.notes:
-                    if isinstance(note, CONTENT_SECURITY_POLICY):
-                        parent_note = note
-                        break
-
-                if parent_note:
-                    parent_note.add_child(
+                if self._policy_note:
+                    self._policy_note.add_child(
                         CSP_REPORT_TO_MISSING,
                         endpoint=value,
                         report_only_text=self.report_only_text,
-- 
2.43.0


From 858333df956ebf3b8f2ea14b29753fdadf7290e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:15 +0000
Subject: [PATCH 81/89] fix: Honour weights of 0 and '*' in Accept-Encoding and
 TE, and only when the request is known

---
 .../field/parsers/available_dictionary.py     |  8 ++-----
 httplint/field/parsers/content_encoding.py    |  7 +++---
 httplint/field/parsers/transfer_encoding.py   | 24 ++++++++-----------
 httplint/field/utils.py                       | 18 ++++++++++++++
 4 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/httplint/field/parsers/available_dictionary.py b/httplint/field/parsers/available_dictionary.py
index 2ca240b..189ab17 100644
--- a/httplint/field/parsers/available_dictionary.py
+++ b/httplint/field/parsers/available_dictionary.py
@@ -2,6 +2,7 @@ from typing import Any
 
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import coding_requested
 from httplint.note import Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
@@ -33,12 +34,7 @@ dictionary available for use in compressing the response."""
             return
 
         ae_values = self.message.headers.parsed.get("accept-encoding", [])
-        has_dictionary_support = False
-        for enc, _params in ae_values:
-            if enc in ["dcb", "dcz"]:
-                has_dictionary_support = True
-                break
-        if not has_dictionary_support:
+        if not any(coding_requested(enc, ae_values) for enc in ["dcb", "dcz"]):
             add_note(AVAILABLE_DICTIONARY_MISSING_AE)
 
 
diff --git a/httplint/field/parsers/content_encoding.py b/httplint/field/parsers/content_encoding.py
index d9b63ec..88cf2fe 100644
--- a/httplint/field/parsers/content_encoding.py
+++ b/httplint/field/parsers/content_encoding.py
@@ -3,6 +3,7 @@ from typing import cast
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FakeRequestLinter, FieldTest
+from httplint.field.utils import coding_requested
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -36,10 +37,8 @@ of its underlying media type; e.g., `gzip` and `deflate`."""
             and response.request
             and response.request.message_type == "request"
         ):
-            accept_encoding = [
-                a[0] for a in response.request.headers.parsed.get("accept-encoding", [])
-            ]
-            if field_value.lower() not in accept_encoding:
+            accept_encoding = response.request.headers.parsed.get("accept-encoding", [])
+            if not coding_requested(field_value.lower(), accept_encoding, wildcard=True):
                 add_note(ENCODING_UNWANTED, coding=field_value)
         return field_value.lower()
 
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index ea96549..99e93b4 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -3,7 +3,7 @@ from typing import Tuple
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FakeRequestLinter, FieldTest
-from httplint.field.utils import parse_params
+from httplint.field.utils import coding_requested, parse_params
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9112
 from httplint.types import (
@@ -49,20 +49,16 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
         unwanted = list(
             dict.fromkeys(c[0] for c in self.value if c[0] not in ["chunked", "identity"])
         )
-        if unwanted:
-            # check to see if the client asked for it
-            if (
-                (response := self.message.as_response)
-                and response.request
-                and response.request.message_type == "request"
-            ):
-                request = response.request
-                te = [t[0] for t in request.headers.parsed.get("te", [])]
-                unwanted = [c for c in unwanted if c not in te]
-
-        if unwanted:
+        # check to see if the client asked for it
+        if (
+            (response := self.message.as_response)
+            and response.request
+            and response.request.message_type == "request"
+        ):
+            te = response.request.headers.parsed.get("te", [])
             for coding in unwanted:
-                add_note(TRANSFER_CODING_UNWANTED, coding=coding)
+                if not coding_requested(coding, te):
+                    add_note(TRANSFER_CODING_UNWANTED, coding=coding)
         if "identity" in [c[0] for c in self.value]:
             add_note(TRANSFER_CODING_IDENTITY)
 
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index d7ed4fc..4575d41 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -158,6 +158,24 @@ def parse_qvalue(value: str) -> float:
     return float(value)
 
 
+def coding_requested(
+    coding: str, requested: List[Tuple[str, ParamDictType]], wildcard: bool = False
+) -> bool:
+    """
+    Whether a coding is in the (parsed) value of Accept-Encoding or TE, with a weight that isn't 0.
+    """
+    weights = [params.get("q") for name, params in requested if name == coding]
+    if not weights and wildcard:
+        weights = [params.get("q") for name, params in requested if name == "*"]
+    for weight in weights:
+        try:
+            if weight is None or parse_qvalue(weight) > 0:
+                return True
+        except ValueError:  # it's reported on the request
+            return True
+    return False
+
+
 def unquote_string(instr: str) -> str:
     """
     Unquote a unicode string; does NOT unquote control characters.
-- 
2.43.0


From 752d818db2ba18b19806f0504ba23c5387d62be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 82/89] fix: Compare the origins of referrers by scheme, host
 and port

---
 httplint/field/parsers/referer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/httplint/field/parsers/referer.py b/httplint/field/parsers/referer.py
index 8cf8a48..23dd7ad 100644
--- a/httplint/field/parsers/referer.py
+++ b/httplint/field/parsers/referer.py
@@ -1,4 +1,5 @@
-from urllib.parse import urlparse
+from typing import Optional, Tuple
+from urllib.parse import ParseResult, urlparse
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
@@ -32,6 +33,8 @@ resource from which the target URI was obtained (i.e., the "referrer")."""
         try:
             parsed_referer = urlparse(referer_uri)
             parsed_request = urlparse(request_uri)
+            referer_origin = _origin(parsed_referer)
+            request_origin = _origin(parsed_request)
         except ValueError:
             return  # Already handled by URI syntax checks
 
@@ -39,13 +42,17 @@ resource from which the target URI was obtained (i.e., the "referrer")."""
             if parsed_request.scheme.lower() in ["http", "ws"]:
                 add_note(REFERER_SECURE_TO_INSECURE)
 
-            referer_origin = (parsed_referer.scheme, parsed_referer.netloc)
-            request_origin = (parsed_request.scheme, parsed_request.netloc)
-
-            if referer_origin != request_origin:
+            if parsed_request.scheme and referer_origin != request_origin:
                 add_note(REFERER_SECURE_TO_DIFFERENT_ORIGIN)
 
 
+DEFAULT_PORTS = {"http": 80, "ws": 80, "https": 443, "wss": 443}
+
+
+def _origin(uri: ParseResult) -> Tuple[str, Optional[str], Optional[int]]:
+    return (uri.scheme, uri.hostname, uri.port or DEFAULT_PORTS.get(uri.scheme))
+
+
 class REFERER_SECURE_TO_INSECURE(Note):
     category = categories.SECURITY
     level = levels.BAD
-- 
2.43.0


From 165ee4a8517afdb5f747acade855aec5e8674f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 83/89] fix: Recognise quoted Clear-Site-Data values that also
 appear unquoted

---
 httplint/field/parsers/clear_site_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/clear_site_data.py b/httplint/field/parsers/clear_site_data.py
index 4f49f07..7c82193 100644
--- a/httplint/field/parsers/clear_site_data.py
+++ b/httplint/field/parsers/clear_site_data.py
@@ -24,11 +24,14 @@ origin."""
 
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
+        self._valid_values: list[str] = []
         self._unquoted_values: list[str] = []
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) >= 2 and field_value[0] == '"' and field_value[-1] == '"':
             value = field_value[1:-1]
+            if value in self.KNOWN_VALUES:
+                self._valid_values.append(value)
         else:
             value = field_value
             if value in self.KNOWN_VALUES:
@@ -51,9 +54,8 @@ origin."""
         if not self.value:
             add_note(CSD_EMPTY)
             return
-        valid = [v for v in self.value if v in self.KNOWN_VALUES and v not in self._unquoted_values]
-        if valid:
-            add_note(CSD_PRESENT, values=", ".join(f"`{v}`" for v in valid))
+        if self._valid_values:
+            add_note(CSD_PRESENT, values=", ".join(f"`{v}`" for v in self._valid_values))
 
 
 class CSD_PRESENT(Note):
-- 
2.43.0


From 515a3dc81197156d20962963b40fb1f5ff0feaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 84/89] fix: Report Server-Timing durations that aren't
 numbers, but that Python accepts as such

---
 httplint/field/parsers/server_timing.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/httplint/field/parsers/server_timing.py b/httplint/field/parsers/server_timing.py
index a36a24c..73eb5e0 100644
--- a/httplint/field/parsers/server_timing.py
+++ b/httplint/field/parsers/server_timing.py
@@ -1,3 +1,4 @@
+import re
 from typing import Tuple
 
 from httplint.field.list_field import HttpListField
@@ -12,6 +13,8 @@ from httplint.types import (
     ResponseLinterProtocol,
 )
 
+NUMBER = r"\s*[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?\s*"
+
 
 class server_timing(HttpListField[ResponseLinterProtocol]):
     canonical_name = "Server-Timing"
@@ -42,16 +45,13 @@ consumer of Server-Timing."""
             duration = params.get("dur")
             if duration is None:
                 add_note(SERVER_TIMING_MISSING_DUR, metric=metric_name)
-            else:
-                try:
-                    float(duration)
-                except ValueError:
-                    add_note(
-                        SERVER_TIMING_BAD_PARAM,
-                        metric=metric_name,
-                        param="dur",
-                        value=duration,
-                    )
+            elif not re.fullmatch(NUMBER, duration):
+                add_note(
+                    SERVER_TIMING_BAD_PARAM,
+                    metric=metric_name,
+                    param="dur",
+                    value=duration,
+                )
 
             # Validate 'desc'
             if "desc" not in params:
-- 
2.43.0


From 3b8bad39fb509a8bb27d02e5025b4708987f6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 85/89] fix: don't show negative freshness lifetimes as
 positive ones

---
 httplint/cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1a7efae..67b1abe 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -173,11 +173,13 @@ class ResponseCacheChecker:
 
         freshness_left = self.freshness_lifetime_private - self.age
         freshness_left_str = relative_time(abs(int(freshness_left)), 0, 0)
-        freshness_lifetime_str = relative_time(int(self.freshness_lifetime_private), 0, 0)
+        freshness_lifetime_str = relative_time(max(0, int(self.freshness_lifetime_private)), 0, 0)
 
         shared_freshness_left = self.freshness_lifetime_shared - self.age
         shared_freshness_left_str = relative_time(abs(int(shared_freshness_left)), 0, 0)
-        shared_freshness_lifetime_str = relative_time(int(self.freshness_lifetime_shared), 0, 0)
+        shared_freshness_lifetime_str = relative_time(
+            max(0, int(self.freshness_lifetime_shared)), 0, 0
+        )
 
         self.is_fresh = freshness_left > 0
         self.is_shared_fresh = shared_freshness_left > 0
-- 
2.43.0


From ddde9df810ffc2ba1aab2ee1227d55a3d5362125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 86/89] fix: format durations in English for locales that
 aren't known

---
 httplint/i18n.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 37ef2fd..223b542 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -4,6 +4,7 @@ from contextvars import ContextVar
 from datetime import timedelta
 from typing import Any, Dict, Generator, Optional
 
+from babel.core import Locale, UnknownLocaleError
 from babel.dates import format_timedelta as babel_format_timedelta
 from babel.support import NullTranslations, Translations
 
@@ -56,6 +57,10 @@ def format_timedelta(delta: timedelta | int, **kwargs: Any) -> str:
     Format a timedelta object.
     """
     locale = _locale_var.get()
+    try:
+        Locale.parse(locale)
+    except (UnknownLocaleError, ValueError):
+        locale = "en"  # as translate() does when there are no translations
     return babel_format_timedelta(delta, locale=locale, **kwargs)
 
 
-- 
2.43.0


From 9630455804cc8a787c3151cf0e0f8bf32be1331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 87/89] fix: file generic notes about fields under the field's
 category everywhere

---
 httplint/field/broken_field.py          | 4 +++-
 httplint/field/parsers/content_range.py | 2 +-
 httplint/field/singleton_field.py       | 4 ++--
 httplint/field/structured_field.py      | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/httplint/field/broken_field.py b/httplint/field/broken_field.py
index 4148b6b..cffd2fc 100644
--- a/httplint/field/broken_field.py
+++ b/httplint/field/broken_field.py
@@ -35,7 +35,9 @@ class BrokenField(HttpField[TMessage], Generic[TMessage]):
             )
             if self.syntax:
                 if not re.match(rf"^\s*(?:{self.syntax})\s*$", raw_value, RE_FLAGS):
-                    offset_add_note(BAD_SYNTAX, ref_uri=self.reference)
+                    offset_add_note(
+                        BAD_SYNTAX, ref_uri=self.reference, category=self.category
+                    )
             try:
                 parsed_values.append(self.parse(raw_value.strip(), offset_add_note))
             except ValueError:
diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index 5296c77..a6946c3 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -50,7 +50,7 @@ in `416` (Requested Range Not Satisfiable) responses."""
                 add_note(CONTENT_RANGE_MISSING_SLASH)
             raise
         if not re.fullmatch(rfc9110.range_unit, unit, RE_FLAGS):
-            add_note(BAD_SYNTAX, ref_uri=self.reference)
+            add_note(BAD_SYNTAX, ref_uri=self.reference, category=self.category)
             raise ValueError
 
         try:
diff --git a/httplint/field/singleton_field.py b/httplint/field/singleton_field.py
index 4f771f9..6bdd71a 100644
--- a/httplint/field/singleton_field.py
+++ b/httplint/field/singleton_field.py
@@ -31,12 +31,12 @@ class SingletonField(HttpField[TMessage], Generic[TMessage]):
             self.value = None
         else:
             if len(self.raw_values) > 1:
-                add_note(SINGLE_HEADER_REPEAT)
+                add_note(SINGLE_HEADER_REPEAT, category=self.category)
             first_raw = self.raw_values[0]
             if self.syntax:
                 if not re.match(rf"^\s*(?:{self.syntax})\s*$", first_raw, RE_FLAGS):
                     if self.report_syntax:
-                        add_note(BAD_SYNTAX, ref_uri=self.reference)
+                        add_note(BAD_SYNTAX, ref_uri=self.reference, category=self.category)
             try:
                 self.value = self.parse(first_raw.strip(), add_note)
             except ValueError:
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index a220d43..966c363 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -38,7 +38,7 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
         combined_value = ", ".join(self.value).strip()
 
         def on_duplicate_key(key: str, context: str) -> None:
-            add_note(DUPLICATE_KEY, key=key, context=context)
+            add_note(DUPLICATE_KEY, key=key, context=context, category=self.category)
 
         try:
             self.value = http_sf.parse(
-- 
2.43.0


From f0d5ad7c56a57ee60666a6cfd5e0df4f6b3db13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 88/89] fix: give notes about the content's type and charset
 the subject of other Content-Type notes

---
 httplint/charset.py      | 6 +++---
 httplint/content_type.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index edf4d59..506af31 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -95,7 +95,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
 
     if not decodes:
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CHARSET_UNDECODABLE,
             declared_charset=effective_charset_raw,
             detected_charset=detected_raw or "unknown",
@@ -112,7 +112,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     ):
         if is_implicit:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_IMPLICIT_MISMATCH,
                 media_type=declared_type,
                 declared_charset=effective_charset_raw,
@@ -120,7 +120,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
         else:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_MISMATCH,
                 declared_charset=effective_charset_raw,
                 detected_charset=detected_raw,
diff --git a/httplint/content_type.py b/httplint/content_type.py
index 4cba15f..93d2d11 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -48,7 +48,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
         ]:
             return
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CONTENT_TYPE_MISMATCH,
             declared_type=declared_type,
             sniffed_type=str(sniffed_type),
-- 
2.43.0


From 021afb13825a0ee228cec57bbeeb41d3f36babc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:02 +0000
Subject: [PATCH 89/89] fix: judge cookies on the last of repeated attributes,
 as browsers do

---
 httplint/field/parsers/set_cookie.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 929d642..57b9be9 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -70,7 +70,8 @@ requests to the server."""
 def _is_hardened(attrs: List[Tuple[str, Union[str, int]]]) -> bool:
     has_secure = ("Secure", "") in attrs
     has_httponly = ("HttpOnly", "") in attrs
-    has_safe_samesite = any(k == "SameSite" and v in ("Strict", "Lax") for k, v in attrs)
+    # when an attribute is repeated, the last one is used (RFC 6265, Section 5.3)
+    has_safe_samesite = dict(attrs).get("SameSite") in ("Strict", "Lax")
     return has_secure and has_httponly and has_safe_samesite
 
 
@@ -148,7 +149,7 @@ def loose_parse(  # pylint: disable=too-many-branches
             lifetime_note_added,
         )
 
-    if ("SameSite", "None") in cookie_attribute_list and (
+    if dict(cookie_attribute_list).get("SameSite") == "None" and (
         "Secure",
         "",
     ) not in cookie_attribute_list:
@@ -293,7 +294,7 @@ def check_prefixes(
     if lower_name.startswith("__host-"):
         if ("Secure", "") not in cookie_attribute_list:
             add_note(SET_COOKIE_PREFIX_SECURE_MISSING, cookie_name=cookie_name)
-        if ("Path", "/") not in cookie_attribute_list:
+        if dict(cookie_attribute_list).get("Path") != "/":
             add_note(SET_COOKIE_PREFIX_HOST_BAD_PATH, cookie_name=cookie_name)
         for attr_name, _ in cookie_attribute_list:
             if attr_name == "Domain":
-- 
2.43.0

