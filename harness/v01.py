"""V01: notes show what they're about, as it was sent."""
from harness import lib

DATE = b"Sun, 09 Sep 2001 01:46:40 GMT"
NOW = 1000000000
LETTERS = [c for c in b"abcefghijklmnoprstuvwxy"]  # not z or q, so that the text can be found, nor d, so that it isn't the decoy
MIXED = LETTERS + [c for c in b"ABCDEFGHIJKLMNOPRSTUVWXY0123456789"]

# (note, fields, what the summary shows, what the detail shows, options); {} is any text that's sent.
# Options: q (a request), status, method, target, req (the request's fields), content, mixed (any case, and digits), at (which of several such notes).
CASES = [
    # Cache-Control
    ("CC_MISCAP", [("Cache-Control", "decoy, {}A=1")], ["{}A"], ["{}A", "{}a"], {}),
    ("CC_DUP", [("Cache-Control", "decoy=1, max-age=1, max-age=2")], ["max-age"], ["max-age"], {}),
    ("CC_BAD_VALUE_TYPE", [("Cache-Control", "decoy, max-age={}")], ["max-age"], ["max-age", "{}"], {"mixed": 1}),
    ("CC_SHOULD_NOT_HAVE_VALUE", [("Cache-Control", "decoy, no-store={}")], ["no-store"], ["no-store"], {}),
    ("CC_WRONG_MESSAGE", [("Cache-Control", "decoy, no-cache=\"{}\", only-if-cached")], ["only-if-cached"], ["only-if-cached"], {}),
    ("CC_WRONG_MESSAGE", [("Cache-Control", "decoy, no-cache, public")], ["public"], ["public"], {"q": 1}),
    ("CC_MAX_AGE_TOO_LARGE", [("Cache-Control", "decoy=1, s-maxage=99999999999, max-age=5")], ["s-maxage"], ["s-maxage"], {}),
    ("CC_CONFLICTING", [("Cache-Control", "decoy, no-store, max-age=5")], ["no-store"], ["no-store", "max-age"], {}),
    ("STORE_PUBLIC_AUTH", [("Cache-Control", "decoy, s-maxage=5")], [], ["s-maxage"], {"req": [("Authorization", "Basic YTpi")]}),
    ("STORE_PUBLIC_AUTH", [("Cache-Control", "decoy, must-revalidate")], [], ["must-revalidate"], {"req": [("Authorization", "Basic YTpi")]}),
    ("STORE_METHOD_UNCACHEABLE", [("X-Decoy", "decoy")], ["{}"], [], {"req": [], "method": "{}", "mixed": 1}),
    # parameters
    ("PARAM_REPEATS", [("Content-Type", "a/b;decoy=1;{}=2;{}=3")], ["{}"], [], {}),
    ("PARAM_SINGLE_QUOTED", [("Content-Type", "a/b;decoy=1;x='{}'")], ["x"], ["x", "'{}'", "{}"], {"mixed": 1}),
    ("PARAM_SINGLE_QUOTED", [("Content-Type", "a/b;decoy=1;{}='v'")], ["{}"], ["{}", "'v'", "v"], {}),
    ("PARAM_STAR_BAD", [("Transfer-Encoding", "a;decoy=1;{}*=utf-8''b")], ["{}"], ["{}"], {}),
    ("PARAM_STAR_CHARSET", [("Content-Disposition", "inline;decoy=1;{}*=foo''b")], ["{}"], ["{}", "foo"], {}),
    ("PARAM_STAR_CHARSET", [("Content-Disposition", "inline;decoy=1;b*={}''b")], ["b"], ["b", "{}"], {}),
    ("PARAM_STAR_ERROR", [("Content-Disposition", "inline;decoy=1;{}*=b")], ["{}"], ["{}"], {}),
    ("PARAM_STAR_NOCHARSET", [("Content-Disposition", "inline;decoy=1;{}*=''b")], ["{}"], ["{}"], {}),
    ("PARAM_STAR_QUOTED", [("Content-Disposition", "inline;decoy=1;{}*=\"utf-8''b\"")], ["{}"], ["{}"], {}),
    ("DISPOSITION_UNKNOWN", [("Content-Disposition", "{};filename=decoy")], ["{}"], ["{}"], {}),
    # negotiation
    ("BAD_Q_VALUE", [("Accept", "a/decoy;q=1, a/{};q=x")], ["a/{}"], [], {"q": 1}),
    ("BAD_Q_VALUE", [("Accept-Language", "decoy;q=1, {};q=x")], ["{}"], [], {"q": 1}),
    ("ACCEPT_BAD_SYNTAX", [("Accept", "a/decoy, {}")], [], ["{}"], {"q": 1}),
    ("ACCEPT_PATCH_BAD_SYNTAX", [("Accept-Patch", "a/decoy, {}")], [], ["{}"], {}),
    ("ACCEPT_POST_BAD_SYNTAX", [("Accept-Post", "a/decoy, {}")], [], ["{}"], {}),
    ("ACCEPT_QUERY_BAD_SYNTAX", [("Accept-Query", "a/decoy, \"{}\"")], [], ["{}"], {}),
    ("ACCEPT_QUERY_BAD_TYPE", [("Accept-Query", "a/decoy, 123456")], [], ["123456"], {}),
    ("ACCEPT_CH_MISSING_VARY", [("Accept-CH", "Decoy, {}"), ("Vary", "decoy")], [], ["{}"], {"decoy": "Decoy"}),
    ("CONTENT_LANGUAGE_DUP", [("Content-Language", "decoy, {}, {}")], ["{}"], ["{}"], {}),
    ("MEDIA_TYPE_BAD_NAME", [("Accept-Patch", "a/decoy, a/{}~")], [], ["a/{}~"], {}),
    ("ENCODING_UNWANTED", [("Content-Encoding", "gzip, {}")], ["{}"], ["{}"], {"req": [("Accept-Encoding", "gzip, decoy")]}),
    ("TRANSFER_CODING_UNWANTED", [("Transfer-Encoding", "gzip, {}, chunked")], ["{}"], ["{}"], {"req": [("TE", "gzip, decoy")]}),
    ("VARY_COMPLEX", [("Vary", "a, {}, b, c, d, e, f, a")], ["7"], [], {}),
    # cookies
    ("SET_COOKIE_ATTRIBUTE_DUP", [("Set-Cookie", "decoy=1"), ("Set-Cookie", "{}=2; Path=/; Path=/a")], ["Path", "{}"], ["Path"], {"mixed": 1}),
    ("SET_COOKIE_BAD_DATE", [("Set-Cookie", "decoy=1"), ("Set-Cookie", "{}=2; Expires=x")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_EMPTY_DOMAIN", [("Set-Cookie", "{}=decoy; Domain=")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_EMPTY_MAX_AGE", [("Set-Cookie", "{}=decoy; Max-Age=")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_LEADING_ZERO_MAX_AGE", [("Set-Cookie", "{}=decoy; Max-Age=01")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_NON_DIGIT_MAX_AGE", [("Set-Cookie", "{}=decoy; Max-Age=x")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_LIFETIME_TOO_LONG", [("Set-Cookie", "{}=decoy; Max-Age=99999999")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_LIFETIME_TOO_LONG", [("Set-Cookie", "{}=decoy; Expires=Tue, 01 Jan 2030 00:00:00 GMT")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_NOT_SECURE", [("Set-Cookie", "{}=decoy; SameSite=None")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_PARTITIONED_NO_SECURE", [("Set-Cookie", "{}=decoy; Partitioned")], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_PREFIX_HOST_BAD_DOMAIN", [("Set-Cookie", "__Host-{}=decoy; Secure; Path=/; Domain=i")], ["__Host-{}"], [], {"mixed": 1}),
    ("SET_COOKIE_PREFIX_HOST_BAD_PATH", [("Set-Cookie", "__Host-{}=decoy; Secure; Path=/a")], ["__Host-{}"], [], {"mixed": 1}),
    ("SET_COOKIE_PREFIX_SECURE_MISSING", [("Set-Cookie", "__Secure-{}=decoy; Path=/a")], ["__Secure-{}"], [], {"mixed": 1}),
    ("SET_COOKIE_UNKNOWN_ATTRIBUTE", [("Set-Cookie", "nm=decoy; {}=1")], ["{}", "nm"], ["{}"], {"mixed": 1}),
    ("SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE", [("Set-Cookie", "nm=decoy; SameSite={}")], ["SameSite", "nm"], ["SameSite", "{}"], {"mixed": 1}),
    ("SET_COOKIE_TOO_LARGE", [("Set-Cookie", "{}=" + "x" * 5000)], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_VALUE_TOO_LARGE", [("Set-Cookie", "{}=" + "x" * 1200)], ["{}"], [], {"mixed": 1}),
    ("SET_COOKIE_NAME_DUP", [("Set-Cookie", "decoy=1"), ("Set-Cookie", "{}=2"), ("Set-Cookie", "{}=3")], [], ["{}"], {"mixed": 1}),
    # security
    ("STRUCTURED_FIELD_PARSE_ERROR", [("Accept-CH", "{}=1")], [], [], {}),
    ("HSTS_DUPLICATE_DIRECTIVE", [("Strict-Transport-Security", "max-age=31536000; {}; {}; decoy")], [], ["{}"], {}),
    ("HSTS_BAD_MAX_AGE", [("Strict-Transport-Security", "max-age={}; decoy")], [], ["{}"], {"mixed": 1}),
    ("HSTS_VALUE_NOT_ALLOWED", [("Strict-Transport-Security", "max-age=31536000; preload={}; decoy")], ["preload"], ["preload"], {}),
    ("CSP_DUPLICATE_DIRECTIVE", [("Content-Security-Policy", "decoy a; {} a; {} b")], [], ["{}"], {}),
    ("CSP_HTTP_URI", [("Content-Security-Policy", "decoy a; script-src http: a; {} b")], [], ["script-src"], {}),
    ("CSP_UNSAFE_EVAL", [("Content-Security-Policy", "decoy a; script-src 'unsafe-eval'")], [], ["script-src"], {}),
    ("CSP_UNSAFE_INLINE", [("Content-Security-Policy", "decoy a; style-src 'unsafe-inline'")], [], ["style-src"], {}),
    ("CSP_WIDE_OPEN", [("Content-Security-Policy", "decoy *; script-src {} *")], [], ["script-src"], {}),
    ("CSP_REPORT_TO_MISSING", [("Content-Security-Policy", "img-src decoy; report-to {}")], ["{}"], [], {"mixed": 1}),
    ("COEP_REPORT_TO_MISSING", [("Cross-Origin-Embedder-Policy", "unsafe-none; a=decoy; report-to=\"{}\"")], ["{}"], [], {"mixed": 1}),
    ("COOP_REPORT_TO_MISSING", [("Cross-Origin-Opener-Policy", "unsafe-none; a=decoy; report-to=\"{}\"")], ["{}"], [], {"mixed": 1}),
    ("CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE", [("Cross-Origin-Resource-Policy", "{}")], [], ["{}"], {}),
    ("CSD_UNKNOWN_VALUE", [("Clear-Site-Data", "\"cache\", \"{}\"")], ["{}"], [], {}),
    ("CSD_UNQUOTED", [("Clear-Site-Data", "\"cookies\", cache")], [], ["cache"], {}),
    ("CSD_PRESENT", [("Clear-Site-Data", "\"cookies\", \"cache\"")], [], ["cache"], {}),
    ("REFERRER_POLICY_UNKNOWN", [("Referrer-Policy", "no-referrer, {}")], ["{}"], ["{}"], {}),
    ("REFERRER_POLICY_MULTIPLE", [("Referrer-Policy", "no-referrer, {}, same-origin")], ["same-origin"], ["same-origin"], {}),
    ("PERMISSIONS_POLICY_INVALID_VALUE", [("Permissions-Policy", "decoy=(), {}=5")], ["{}"], ["{}"], {}),
    ("PERMISSIONS_POLICY_INVALID_ITEM_TYPE", [("Permissions-Policy", "decoy=(), a=(123456)")], ["123456"], ["123456"], {}),
    ("PERMISSIONS_POLICY_WILDCARD", [("Permissions-Policy", "decoy=*, camera=*")], ["camera"], ["camera"], {}),
    ("PERMISSIONS_POLICY_UNKNOWN_TOKEN", [("Permissions-Policy", "decoy=(), a=({})")], ["{}"], ["{}"], {"mixed": 1}),
    ("PERMISSIONS_POLICY_QUOTED_KEYWORD", [("Permissions-Policy", "decoy=(), a=(\"self\")")], ["self"], ["self"], {}),
    # CORS
    ("CORS_ORIGIN_MATCH", [("Access-Control-Allow-Origin", "https://{}.x:81")], [], ["https://{}.x:81"], {"req": [("Origin", "https://{}.x:81"), ("Host", "decoy")]}),
    ("CORS_ORIGIN_MISMATCH", [("Access-Control-Allow-Origin", "https://{}.x")], [], ["https://{}.x", "http://b.c"], {"req": [("Origin", "http://b.c"), ("Host", "decoy")]}),
    ("CORS_ORIGIN_MISMATCH", [("Access-Control-Allow-Origin", "https://b.c")], [], ["https://b.c", "http://{}:8"], {"req": [("Origin", "http://{}:8"), ("Host", "decoy")]}),
    ("BAD_ORIGIN_SYNTAX", [("Origin", "{}"), ("X-A", "decoy")], ["{}"], [], {"q": 1}),
    ("CORS_PREFLIGHT_ONLY", [("Access-Control-Max-Age", "5"), ("X-A", "decoy")], [], ["Access-Control-Max-Age"], {"req": [("Origin", "http://a.b")]}),
    ("CORS_PREFLIGHT_REQ_METHOD_WRONG", [("Origin", "http://a.b"), ("Access-Control-Request-Method", "GET"), ("X-A", "decoy")], [], ["{}"], {"q": 1, "method": "{}"}),
    # Structured Fields
    ("DUPLICATE_KEY", [("Reporting-Endpoints", "decoy=\"/1\", {}=\"/2\", {}=\"/3\"")], ["{}"], ["{}"], {}),
    ("CACHE_STATUS_UNKNOWN_PARAM", [("Cache-Status", "C;hit;detail=decoy;{}=1")], ["{}"], ["{}"], {}),
    ("CACHE_STATUS_BAD_PARAM_VAL", [("Cache-Status", "C;detail=decoy;ttl={}")], ["ttl"], ["ttl", "{}"], {"mixed": 1}),
    ("CACHE_STATUS_BAD_PARAM_VAL", [("Cache-Status", "C;detail=decoy;fwd={}")], ["fwd"], ["fwd", "{}"], {"mixed": 1}),
    ("CACHE_STATUS", [("Cache-Status", "{}, B;ttl=5")], [], ["{}", "B"], {"mixed": 1}),
    ("PROXY_STATUS_UNKNOWN_PARAM", [("Proxy-Status", "C;details=decoy;{}=1")], ["{}"], ["{}"], {}),
    ("PROXY_STATUS_BAD_PARAM_VAL", [("Proxy-Status", "C;details=decoy;received-status={}")], ["received-status"], ["received-status", "{}"], {"mixed": 1}),
    ("PROXY_STATUS", [("Proxy-Status", "{}, B;details=x")], [], ["{}", "B", "x"], {"mixed": 1}),
    ("BAD_CDN_CC_TYPE", [("CDN-Cache-Control", "decoy, max-age={}")], ["max-age"], [], {}),
    ("USE_AS_DICTIONARY_BAD_TYPE", [("Use-As-Dictionary", "match=\"/decoy\", id={}")], ["id"], ["id"], {}),
    ("BAD_REPORTING_ENDPOINT_SYNTAX", [("Reporting-Endpoints", "decoy=\"/1\", {}=1")], ["{}"], ["{}", "1"], {}),
    ("ENDPOINT_NOT_SECURE", [("Reporting-Endpoints", "decoy=\"https://a/\", {}=\"http://a/\"")], ["{}"], ["{}", "http://a/"], {}),
    ("ENDPOINT_NOT_SECURE", [("Reporting-Endpoints", "decoy=\"https://a/\", a=\"http://{}/b\"")], ["a"], ["a", "http://{}/b"], {"mixed": 1}),
    ("SPECULATION_RULES_BAD_TYPE", [("Speculation-Rules", "\"/decoy\", {}")], [], ["{}"], {"mixed": 1}),
    ("SPECULATION_RULE_NOT_SECURE", [("Speculation-Rules", "\"https://decoy\", \"http://{}/\"")], [], ["http://{}/"], {"mixed": 1}),
    ("NEL_BAD_TYPE", [("NEL", "{\"decoy\": 1, \"report_to\": \"a\", \"max_age\": \"[]\"}")], ["max_age"], ["max_age"], {}),
    ("NEL_BAD_VALUE", [("NEL", "{\"decoy\": 1, \"report_to\": \"a\", \"max_age\": 5, \"failure_fraction\": 2}")], ["failure_fraction"], ["failure_fraction"], {}),
    ("NEL_MISSING_KEY", [("NEL", "{\"decoy\": 1, \"report_to\": \"a\"}")], ["max_age"], ["max_age"], {}),
    ("NEL_REPORT_TO_MISSING", [("NEL", "{\"decoy\": 1, \"report_to\": \"[]\", \"max_age\": 5}")], ["[]"], [], {"mixed": 1}),
    ("REPORT_TO_BAD_TYPE", [("Report-To", "{\"group\": \"decoy\", \"max_age\": \"[]\", \"endpoints\": [{\"url\": \"https://a\"}]}")], ["max_age"], ["max_age"], {}),
    ("REPORT_TO_MISSING_KEY", [("Report-To", "{\"group\": \"[]\", \"endpoints\": [{\"url\": \"https://decoy\"}]}")], ["max_age"], ["max_age"], {}),
    # links and references
    ("LINK_BAD_ANCHOR", [("Link", "</decoy>;rel=a, </{}>;anchor=\"<b\"")], ["/{}"], ["&lt;b"], {"mixed": 1}),
    ("LINK_BAD_TYPE", [("Link", "</decoy>;rel=a, </{}>;type=b")], ["/{}"], ["b"], {"mixed": 1}),
    ("LINK_BAD_TYPE", [("Link", "</decoy>;rel=a, </b>;type={}")], ["/b"], ["{}"], {"mixed": 1}),
    ("LINK_BAD_HINT_TARGET", [("Link", "</decoy>;rel=a, <ftp:{}>;rel=preload")], ["preload"], ["preload", "ftp:{}", "ftp"], {"mixed": 1}),
    ("LINK_RESOURCE_HINTS", [("Link", "</decoy>;rel=a, </{}>;rel=preload")], ["preload"], ["preload", "/{}"], {"mixed": 1}),
    ("LOCATION_NOT_ABSOLUTE", [("Location", "/{}?a"), ("X-A", "decoy")], [], ["http://h.i/{}?a"], {"mixed": 1, "status": "301"}),
    # others
    ("EXPECT_UNKNOWN", [("Expect", "100-continue, {}"), ("X-A", "decoy")], ["{}"], [], {"q": 1}),
    ("SERVER_TIMING_BAD_PARAM", [("Server-Timing", "decoy;dur=1;desc=a, {};dur=x;desc=b")], ["{}", "dur"], ["{}", "dur", "x"], {"mixed": 1}),
    ("SERVER_TIMING_MISSING_DUR", [("Server-Timing", "decoy;dur=1;desc=a, {};desc=b")], ["{}"], ["{}"], {"mixed": 1}),
    ("SERVER_TIMING_MISSING_DESC", [("Server-Timing", "decoy;dur=1;desc=a, {};dur=5")], ["{}"], ["{}"], {"mixed": 1}),
    ("CHECK_POST_PRE", [("Cache-Control", "decoy=1, pre-check=345, post-check=123")], [], ["345", "123"], {}),
    ("RANGE_INVALID_INTEGER", [("Content-Range", "bytes {}-5/10")], [], ["{}"], {"status": "206"}),
    ("CACHE_GROUP_INVALIDATION_IGNORED", [("Cache-Group-Invalidation", "\"decoy\"")], ["GET"], ["GET"], {"req": []}),
    ("UNNECESSARY_HEADER", [("X-Powered-By", "decoy {}")], ["X-Powered-By"], ["X-Powered-By"], {}),
    ("STATUS_METHOD_NOT_ALLOWED", [("Allow", "DECOY, GET")], ["{}"], [], {"req": [], "method": "{}", "status": "200", "optional": 1}),
    ("REQUEST_CONTENT_NOT_DEFINED", [("X-A", "decoy")], ["DELETE"], ["DELETE"], {"q": 1, "method": "DELETE", "content": b"abc"}),
    ("CL_INCORRECT", [("Content-Length", "12345"), ("X-A", "decoy")], [], ["3"], {"content": b"abc"}),
    ("CONTENT_TYPE_MISMATCH", [("Content-Type", "image/gif;a={}"), ("X-A", "decoy")], [], ["image/gif", "image/png"], {"content": b"\x89PNG\r\n\x1a\n\xff\xfe"}),
    ("CHARSET_UNDECODABLE", [("Content-Type", "text/plain;charset=US-ASCII"), ("X-A", "decoy")], [], ["US-ASCII"], {"content": b"abc \xc3\xa9"}),
    ("CHARSET_UNDECODABLE", [("Content-Type", "application/{}+json"), ("X-A", "decoy")], [], ["utf-8"], {"content": b'"a\xff\xfe"'}),
    ("RANGE_INVALID_INTEGER", [("Content-Range", "bytes 1-{}/10")], [], ["{}"], {"status": "206"}),
    ("RANGE_INVALID_INTEGER", [("Content-Range", "bytes 1-3/{}")], [], ["{}"], {"status": "206"}),
    ("RANGE_MISSING_HYPHEN", [("Content-Range", "bytes {}/10")], [], ["{}"], {"status": "206"}),
    ("SET_COOKIE_HARDENED", [("Set-Cookie", "decoy=1"), ("Set-Cookie", "{}=2; Secure; HttpOnly; SameSite=Lax")], [], ["{}"], {"mixed": 1}),
    ("SET_COOKIE_HARDENED", [("Set-Cookie", "{}=1; SameSite=Strict; HttpOnly; Secure"), ("Set-Cookie", "decoy=2")], [], ["{}"], {"mixed": 1}),
    ("CSP_UNSAFE_INLINE", [("Content-Security-Policy", "{}-src decoy; script-src 'unsafe-inline'; {}-src 'unsafe-inline'")], [], ["script-src"], {"absent": "zq"}),
    ("CSP_WIDE_OPEN", [("Content-Security-Policy-Report-Only", "decoy a; object-src *; {} *")], [], ["object-src"], {}),
    ("AVAILABLE_DICTIONARY_BAD_TYPE", [("Available-Dictionary", "\"{}\"")], [], ["str"], {"q": 1}),
    ("CACHE_GROUPS_BAD_TYPE", [("Cache-Groups", "\"{}\", 5")], [], ["int"], {"absent": "zq"}),
    ("DUPLICATE_KEY", [("Cache-Status", "C;decoy=1;{}=2;{}=3")], ["{}"], ["{}"], {}),
    ("DUPLICATE_KEY", [("CDN-Cache-Control", "{}=2, decoy=1"), ("CDN-Cache-Control", "{}")], ["{}"], ["{}"], {}),
    ("FIELD_TOO_LARGE", [("X-A", "{}" + "x" * 8200)], ["8208"], [], {"long": 1}),
    ("SERVER_TOO_LONG", [("Server", "{} " + "x" * 500)], [], ["506"], {"optional": 1, "long": 1}),
    ("URI_TOO_LONG", [("Host", "decoy")], ["8024"], [], {"q": 1, "target": "http://h/{}?" + "a" * 8009 + "#{}", "long": 1}),
    ("STATUS_URI_TOO_LONG", [("X-A", "decoy")], ["24"], ["414"], {"status": "414", "req": [("Host", "decoy")], "target": "http://h/{}?" + "a" * 9 + "#{}", "n": 2}),
    ("STATUS_NONSTANDARD", [("X-A", "decoy {}")], ["299"], [], {"status": "299"}),
    ("STATUS_RESERVED", [("X-A", "decoy {}")], ["306"], [], {"status": "306"}),
    ("REDIRECT_WITHOUT_LOCATION", [("X-A", "decoy {}")], [], ["308"], {"status": "308"}),
    ("HEADER_SHOULD_NOT_BE_IN_304", [("Content-Type", "a/{}"), ("ETag", "\"decoy\""), ("Content-Length", "3")], [], ["content-type"], {"status": "304", "optional": 1}),
    ("STATUS_405_METHOD_IN_ALLOW", [("Allow", "DECOY, {}")], ["{}"], [], {"status": "405", "req": [], "method": "{}", "mixed": 1}),
    ("STATUS_METHOD_NOT_ALLOWED", [("Allow", "DECOY, {}x")], ["{}"], [], {"status": "200", "req": [], "method": "{}", "mixed": 1, "optional": 1}),
    ("CREATED_SAFE_METHOD", [("Location", "/{}")], [], ["GET"], {"status": "201", "req": []}),
    ("LINK_BAD_HINT_TARGET", [("Link", "<ftp://a/b>;rel=preload;title=decoy, </{}>;rel=dns-prefetch")], ["preload"], ["preload", "ftp://a/b", "ftp"], {"absent": "zq"}),
    ("LINK_RESOURCE_HINTS", [("Link", "</{}>;rel=dns-prefetch, <ftp:decoy>;rel=preload")], ["dns-prefetch"], ["dns-prefetch", "/{}"], {"mixed": 1}),
    ("KEEP_ALIVE_PRESENT", [("Keep-Alive", "timeout=5")], [], [], {"optional": 1}),
    # numbers, times, types
    ("SET_COOKIE_LIFETIME_TOO_LONG", [("Set-Cookie", "{}=decoy; Max-Age=99999999")], [], ["3 years"], {"mixed": 1}),
    ("SET_COOKIE_LIFETIME_TOO_LONG", [("Set-Cookie", "{}=decoy; Expires=Tue, 01 Jan 2030 00:00:00 GMT")], [], ["28 years"], {"mixed": 1}),
    ("DATE_INCORRECT", [("Date", "Sun, 09 Sep 2001 04:46:40 GMT"), ("X-A", "decoy {}")], ["3 hours ahead"], [], {}),
    ("DATE_INCORRECT", [("Date", "Sat, 08 Sep 2001 20:46:40 GMT"), ("X-A", "decoy {}")], ["5 hours behind"], [], {}),
    ("SPECULATION_RULES_BAD_TYPE", [("Speculation-Rules", "\"//decoy/\", {}/b")], [], ["{}/b", "Token"], {}),
    ("SPECULATION_RULES_BAD_TYPE", [("Speculation-Rules", "\"//decoy/\", \"//[{}\"")], [], ["//[{}", "str"], {}),
    ("REPORT_TO_BAD_TYPE", [("Report-To", "{\"group\": \"decoy\", \"max_age\": \"[]\", \"endpoints\": [{\"url\": \"https://a\"}]}")], [], ["integer"], {}),
    ("REPORT_TO_BAD_TYPE", [("Report-To", "{\"group\": \"decoy\", \"max_age\": 5, \"endpoints\": \"[]\"}")], ["endpoints"], ["endpoints", "list"], {}),
    ("REPORT_TO_MISSING_KEY", [("Report-To", "{\"group\": \"decoy []\", \"max_age\": 5}")], ["endpoints"], ["endpoints"], {}),
    ("NEL_MISSING_KEY", [("NEL", "{\"decoy\": \"[]\", \"max_age\": 5}")], ["report_to"], ["report_to"], {}),
    ("NEL_BAD_VALUE", [("NEL", "{\"decoy\": \"[]\", \"report_to\": \"a\", \"max_age\": 5, \"success_fraction\": 2}")], ["success_fraction"], ["success_fraction", "between 0.0 and 1.0"], {}),
    ("CC_WRONG_MESSAGE", [("Cache-Control", "decoy=\"{}\", only-if-cached")], ["in a response"], ["in request messages", "in a response"], {}),
    ("CC_WRONG_MESSAGE", [("Cache-Control", "decoy=\"{}\", public")], ["in a request"], ["in response messages", "in a request"], {"q": 1}),
    ("CHARSET_MISMATCH", [("Content-Type", "text/html;charset=ISO-8859-1;a={}"), ("X-A", "decoy")], [], ["ISO-8859-1", "utf-8"], {"content": "h\xe9llo w\xf6rld \xfcn\xefcode \xe7\xe0".encode(), "optional": 1}),
    ("USE_AS_DICTIONARY_BAD_TYPE", [("Use-As-Dictionary", "match=/{}, id=\"decoy\"")], [], ["Token"], {"optional": 1}),
    # what the note is about stands before, around or after something else of the kind
    ("CC_MISCAP", [("Cache-Control", "{}A=1, decoy")], ["{}A"], ["{}A", "{}a"], {}),
    ("CC_DUP", [("Cache-Control", "max-age=1, decoy=1, max-age=2, {}")], ["max-age"], ["max-age"], {"absent": "zq"}),
    ("CC_BAD_VALUE_TYPE", [("Cache-Control", "max-age={}, decoy")], ["max-age"], ["max-age", "{}"], {"mixed": 1}),
    ("PARAM_REPEATS", [("Content-Type", "a/b;{}=2;decoy=1;{}=3")], ["{}"], [], {}),
    ("PARAM_REPEATS", [("Content-Type", "a/b;{}=2;{}=3;decoy=1")], ["{}"], [], {}),
    ("PARAM_SINGLE_QUOTED", [("Content-Type", "a/b;x='{}';decoy=1")], ["x"], ["x", "'{}'", "{}"], {"mixed": 1}),
    ("PARAM_STAR_CHARSET", [("Content-Disposition", "inline;b*={}''b;decoy=1")], ["b"], ["b", "{}"], {}),
    ("PARAM_STAR_ERROR", [("Content-Disposition", "inline;{}*=b;decoy=1")], ["{}"], ["{}"], {}),
    ("PARAM_STAR_QUOTED", [("Content-Disposition", "inline;{}*=\"utf-8''b\";decoy=1")], ["{}"], ["{}"], {}),
    ("BAD_Q_VALUE", [("Accept", "a/{};q=x, a/decoy;q=1")], ["a/{}"], [], {"q": 1}),
    ("CONTENT_LANGUAGE_DUP", [("Content-Language", "{}, decoy, {}")], ["{}"], ["{}"], {}),
    ("CONTENT_LANGUAGE_DUP", [("Content-Language", "{}, {}, decoy")], ["{}"], ["{}"], {}),
    ("ENCODING_UNWANTED", [("Content-Encoding", "{}, gzip")], ["{}"], ["{}"], {"req": [("Accept-Encoding", "decoy, gzip")]}),
    ("TRANSFER_CODING_UNWANTED", [("Transfer-Encoding", "{}, gzip, chunked")], ["{}"], ["{}"], {"req": [("TE", "decoy, gzip")]}),
    ("SET_COOKIE_ATTRIBUTE_DUP", [("Set-Cookie", "{}=2; Path=/; HttpOnly; Path=/a"), ("Set-Cookie", "decoy=1")], ["Path", "{}"], ["Path"], {"mixed": 1}),
    ("SET_COOKIE_BAD_DATE", [("Set-Cookie", "{}=2; Expires=x"), ("Set-Cookie", "decoy=1")], ["{}"], [], {"mixed": 1}),
    ("DUPLICATE_KEY", [("Cache-Status", "C;{}=2;decoy=1;{}=3")], ["{}"], ["{}"], {}),
    ("DUPLICATE_KEY", [("CDN-Cache-Control", "{}=2, decoy=1, {}")], ["{}"], ["{}"], {}),
    ("DUPLICATE_KEY", [("CDN-Cache-Control", "{}=2, {}, decoy=1")], ["{}"], ["{}"], {}),
    # more numbers, times and types
    ("FRESHNESS_FRESH", [("Date", "Sun, 09 Sep 2001 01:46:40 GMT"), ("Cache-Control", "decoy={}, max-age=7200"), ("Age", "600")], ["2 hours"], ["10 minutes", "2 hours"], {}),
    ("FRESHNESS_STALE_ALREADY", [("Date", "Sun, 09 Sep 2001 01:46:40 GMT"), ("Cache-Control", "decoy={}, max-age=600"), ("Age", "7200")], [], ["2 hours", "10 minutes"], {}),
    ("FRESHNESS_SHARED_PRIVATE", [("Date", "Sun, 09 Sep 2001 01:46:40 GMT"), ("Cache-Control", "decoy={}, max-age=7200, s-maxage=600"), ("Age", "1200")], ["fresh for 2 hours", "stale for 10 minutes in shared"], ["fresh for 2 hours", "fresh for 10 minutes"], {}),
    ("BAD_CDN_CC_TYPE", [("CDN-Cache-Control", "no-store={}, decoy=1")], ["no-store"], ["no value"], {}),
    ("NEL_BAD_TYPE", [("NEL", "{\"decoy\": \"[]\", \"report_to\": 5, \"max_age\": 5}")], ["report_to"], ["report_to", "string"], {}),
    ("NEL_BAD_VALUE", [("NEL", "{\"decoy\": \"[]\", \"report_to\": \"a\", \"max_age\": 5, \"failure_fraction\": 2}")], ["failure_fraction"], ["failure_fraction", "between 0.0 and 1.0"], {}),
    ("NEL_CONFIGURED", [("Reporting-Endpoints", "{}=\"https://a/\", decoy=\"https://b/\""), ("NEL", "{\"report_to\": \"[]\", \"max_age\": 5}")], [], ["{}"], {}),
    ("USE_AS_DICTIONARY_BAD_TYPE", [("Use-As-Dictionary", "match={}, id=\"decoy\"")], ["match"], ["match", "str", "Token"], {}),
    ("USE_AS_DICTIONARY_BAD_TYPE", [("Use-As-Dictionary", "match=\"/decoy\", id={}")], ["id"], ["id", "str", "Token"], {}),
    ("CHARSET_UNDECODABLE", [("Content-Type", "text/html;charset=us-ascii;a={}"), ("X-A", "decoy")], [], ["us-ascii"], {"content": "h\xe9llo".encode()}),
]

# notes about policies say whether they're enforced or only reported
POLICIES = [
    ("COOP_SAME_ORIGIN", "Cross-Origin-Opener-Policy", "same-origin", 2),
    ("COOP_SAME_ORIGIN_ALLOW_POPUPS", "Cross-Origin-Opener-Policy", "same-origin-allow-popups", 2),
    ("COOP_UNSAFE_NONE", "Cross-Origin-Opener-Policy", "unsafe-none", 2),
    ("COOP_REPORT_TO_MISSING", "Cross-Origin-Opener-Policy", "unsafe-none; report-to=\"decoy\"", 1),
    ("COEP_REQUIRE_CORP", "Cross-Origin-Embedder-Policy", "require-corp", 2),
    ("COEP_CREDENTIALLESS", "Cross-Origin-Embedder-Policy", "credentialless", 2),
    ("COEP_UNSAFE_NONE", "Cross-Origin-Embedder-Policy", "unsafe-none", 2),
    ("COEP_REPORT_TO_MISSING", "Cross-Origin-Embedder-Policy", "unsafe-none; report-to=\"decoy\"", 1),
    ("CONTENT_SECURITY_POLICY", "Content-Security-Policy", "img-src {}", 2),
    ("CSP_WIDE_OPEN", "Content-Security-Policy", "img-src {}; script-src *", 3),
    ("CSP_REPORT_TO_MISSING", "Content-Security-Policy", "img-src {}; report-to decoy", 3),
]
ENFORCED = "Browsers will only report violations of this policy, not enforce it"


def policy(inp, chk, i):
    note, field, value, kind = POLICIES[i]
    only = inp.bool("only")
    value = value.replace("{}", inp.bytes("m", 3, alphabet=LETTERS).decode("ascii"))
    r = lib.response([((field + ("-Report-Only" if only else "")).encode(), value.encode("ascii"))], base_uri="https://h.i/j")
    found = [n for n in lib.all_notes(r) if type(n).__name__ == note]
    chk.eq(len(found), 1, "the note is there, once", note=note)
    s, d = found[0].summary, str(found[0].detail).replace("\n", " ")
    if kind in (1, 2):
        chk.eq("for reporting only" in s, only, "the summary says whether the policy is enforced", note=note)
    if kind in (2, 3):
        chk.eq(ENFORCED in d, only, "the detail says whether the policy is enforced", note=note)
    chk.reach("policy")


def fill(t, m):
    """The text with {} (or, in JSON, [] between quotes) replaced."""
    for mark in ("{}", "[]"):
        if mark in t:
            out, parts = "", t.split(mark)
            for i, p in enumerate(parts):
                out = out + (m if i else "") + p
            return out
    return t


def word(c):
    return c.isalnum() or c == "-" or c == "_"


def shows(text, template, m):
    """Is the template (with m in it) in the text, and nothing that it's a part of?"""
    if "{}" not in template and "[]" not in template:
        pre, mid, post = "", template, ""
        at = 0
        while True:
            at = text.find(mid, at)
            if at < 0:
                return False
            if (at == 0 or not word(text[at - 1])) and (at + len(mid) == len(text) or not word(text[at + len(mid)])):
                return True
            at += 1
    pre, post = template.split("{}" if "{}" in template else "[]")
    at = 0
    while True:
        at = text.find("zq", at)
        if at < 0:
            return False
        end = at + len(m)
        if text[at:end] == m and text[max(0, at - len(pre)):at] == pre and text[end:end + len(post)] == post:
            before, after = text[:at - len(pre)], text[end + len(post):]
            if not (before and word(before[-1])) and not (after and word(after[0])):
                return True
        at += 1


def setup_symbolic():
    from sx import mdmodel

    mdmodel.install()


def named(inp, chk, i, n=3):
    note, fields, summary, detail, opts = CASES[i]
    alphabet = MIXED if "mixed" in opts else LETTERS
    if "long" in opts:
        m = "zqabk"
    else:
        n = opts.get("n", n)
        m = "zq" + inp.bytes("m", n, alphabet=alphabet).decode("ascii") + "k"
    headers = [(k.encode(), fill(v, m).encode("ascii")) for k, v in fields]
    method = fill(opts.get("method", "GET"), m).encode("ascii")
    target = fill(opts.get("target", "http://example.com/"), m).encode("ascii")
    if "q" in opts:
        r = lib.request(headers, method=method, uri=target, content=opts.get("content"))
    else:
        q = None
        if "req" in opts:
            q = lib.request([(k.encode(), fill(v, m).encode("ascii")) for k, v in opts["req"]], method=method, uri=target)
        r = lib.response(headers, status=opts.get("status", "200").encode(), req=q, content=opts.get("content"), base_uri="http://h.i/j")
    found = [n for n in lib.all_notes(r) if type(n).__name__ == note]
    if "req" in opts and not found:
        found = [n for n in lib.all_notes(q) if type(n).__name__ == note]
    if "optional" in opts and not found:
        return
    chk.eq(len(found), 1, "the note is there, once", note=note)
    s, d = found[0].summary, str(found[0].detail).replace("\n", " ")
    for t in summary:
        chk(shows(s, t, m), "the summary shows what it's about", note=note, text=t)
    for t in detail:
        chk(shows(d, t, m), "the detail shows what it's about", note=note, text=t)
    if "decoy" not in opts:
        chk("decoy" not in s and "decoy" not in d, "and nothing else", note=note)
    if "absent" in opts:
        chk(opts["absent"] not in s and opts["absent"] not in d, "and nothing else (2)", note=note)
    chk.reach("named")


# what each parameter of Cache-Status and Proxy-Status (with a valid, and another value) is shown as
STATUS = {
    "Cache-Status": [
        ("hit", "The response was served from the cache."), ("hit=?0", "`hit`: `False`"), ("hit=5", "`hit`: `5`"), ("fwd=miss", "The cache did not contain a response."), ("fwd=stale", "The cache contained a stale response."),
        ("fwd=method", "The request method's semantics require the request to be forwarded."), ("fwd={}", "`fwd`: `{}`"), ("fwd=\"{}\"", "`fwd`: `{}`"), ("fwd-status=304", "The status code of the forwarded request was 304."),
        ("fwd-status={}", "`fwd-status`: `{}`"), ("ttl=60", "The response's remaining time-to-live was 60 seconds."), ("ttl=-5", "The response's remaining time-to-live was -5 seconds."), ("ttl", "`ttl`: `True`"),
        ("stored", "The response was stored in the cache."), ("stored=?0", "`stored`: `False`"), ("collapsed", "The request was collapsed with another request."), ("collapsed=?0", "`collapsed`: `False`"),
        ("key=\"{}\"", "The cache key was `{}`."), ("key={}", "`key`: `{}`"), ("detail=\"{}\"", "Additional details: `{}`"), ("detail={}", "Additional details: {}"), ("{}=5", "`{}`: `5`"), ("{}", "`{}`: `True`"),
    ],
    "Proxy-Status": [
        ("error=dns_error", "The proxy encountered a DNS error."), ("error=connection_refused", "The proxy's connection to the next hop was refused."), ("error=proxy_loop_detected", "The proxy detected a loop."),
        ("error={}", "`error`: `{}`"), ("error=\"{}\"", "`error`: `{}`"), ("next-hop=\"{}\"", "The next hop was `{}`."), ("next-hop={}", "The next hop was {}."), ("next-hop=5", "`next-hop`: `5`"),
        ("next-protocol={}", "The next protocol was {}."), ("next-protocol=\"{}\"", "`next-protocol`: `{}`"), ("received-status=502", "The received status code was 502."), ("received-status={}", "`received-status`: `{}`"),
        ("details=\"{}\"", "Additional details: `{}`"), ("details=5", "`details`: `5`"), ("{}=5", "`{}`: `5`"),
    ],
}


def status(inp, chk, field, i, count):
    """What each cache or intermediary says is listed under its name, once."""
    m = "zq" + inp.bytes("m", 2, alphabet=LETTERS).decode("ascii") + "k"
    params = [STATUS[field][i]] + [inp.choice("p" + str(k), STATUS[field]) for k in range(1, count)]
    names = [p[0].split("=")[0] for p in params]
    inp.assume(len(set(names)) == len(names))
    at = inp.choice("at", range(count + 1))  # how many are in the first member
    value = "".join(["A"] + [";" + fill(p[0], m) for p in params[:at]] + [", B"] + [";" + fill(p[0], m) for p in params[at:]])
    r = lib.response([(field.encode(), value.encode("ascii"))])
    n = lib.find(r, field.upper().replace("-", "_"))
    want = ["**`A`**:"] + ["* " + fill(p[1], m) for p in params[:at]] + ["**`B`**:"] + ["* " + fill(p[1], m) for p in params[at:]]
    chk.eq([t for t in str(n.vars["status"]).split("\n") if t], want, "everything that's said is listed where it belongs")
    d = str(n.detail)
    for p in params:
        for q in fill(p[1], m).split("`"):
            chk(q in d, "and shown", text=q)
    chk.reach("status")


def tasks(tier):
    return [dict(func="named", params=dict(i=i, n=5 if tier == "thorough" else 3)) for i in range(len(CASES))] + [dict(func="policy", params=dict(i=i)) for i in range(len(POLICIES))] + [dict(func="status", params=dict(field=f, i=i, count=3 if tier == "thorough" else 2)) for f in STATUS for i in range(len(STATUS[f]))]


BUDGET = {"quick": 60, "thorough": 600}
CONTINUE = True
MUST_REACH = ["named", "policy", "status"]
BOUNDS = {
    "quick": "%d messages, each giving rise to one note whose text depends on the message; the part of the message that the note is about is 'zq', any three letters (either case and digits where the syntax allows them) and 'k'; decoys stand in the other places; policies, enforced or only reported; Cache-Status and Proxy-Status with all pairs of parameters, in one member or two" % len(CASES),
    "thorough": "as quick with five letters, and three parameters in the status fields",
}
OUTSIDE = "other lengths and characters in the text (T03 has arbitrary ones); notes that only say where a position is; notes whose text doesn't depend on the message; the other locales"
ASSUMPTIONS = ["markdown.Markdown.convert is modelled by sx/mdmodel.py; every replayed path uses the real library"]
