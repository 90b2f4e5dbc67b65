"""Concrete field values used as skeletons: harnesses replace windows of them by symbolic bytes.

Written from the RFC grammars; every field the documentation lists has at least one entry."""

RESPONSE = {
    "accept-ch": [b"Sec-CH-A, Sec-CH-B;q=1", b'"f", 1'],
    "accept-patch": [b"text/example;charset=utf-8, a/b"],
    "accept-post": [b"text/turtle, */*"],
    "accept-query": [b'application/sql;a=1, "a/b"', b"*/*, text/*"],
    "accept-ranges": [b"bytes, none", b"foo"],
    "access-control": [b"foo"],
    "access-control-allow-credentials": [b"true"],
    "access-control-allow-headers": [b"a, b-c, *"],
    "access-control-allow-methods": [b"GET, PUT"],
    "access-control-allow-origin": [b"https://a.b", b"*", b"null"],
    "access-control-expose-headers": [b"Content-Length, x"],
    "access-control-max-age": [b"123", b"-1"],
    "age": [b"10", b"-20"],
    "allow": [b"GET, POST"],
    "alt-svc": [b'h2=":443"; ma=60', b"clear, x", b'h3="a"'],
    "authentication-info": [b'nextnonce="a", nc=01'],
    "cache-control": [b"max-age=60, private", b'private="b,c", s-maxage=5', b"no-store=foo, a=1, a=2", b"stale-if-error=1"],
    "cache-group-invalidation": [b'"g", 1'],
    "cache-groups": [b'"g", ?0'],
    "cache-status": [b"ExampleCache; hit; ttl=37", b'"A b"; fwd=miss, B; foo=1'],
    "cdn-cache-control": [b"max-age=60, no-store", b'max-age="a", private=?0'],
    "clear-site-data": [b'"cache", "cookies"', b"*, foo"],
    "connection": [b"close, keep-alive", b"x;a=b"],
    "content-base": [b"http://a/b"],
    "content-disposition": [b'attachment; filename="f.txt"', b"inline; filename*=UTF-8''a%cc", b"a; filename=a/b; x"],
    "content-encoding": [b"gzip, br", b"dcb"],
    "content-language": [b"en-US, fr"],
    "content-length": [b"12", b"1, 1"],
    "content-location": [b"/foo?a"],
    "content-md5": [b"Q2hlY2sg=="],
    "content-range": [b"bytes 1-10/200", b"bytes */12", b"bytes 2-3/*"],
    "content-security-policy": [b"default-src 'self'; script-src *", b"report-to e; report-uri /c", b"default-src x; default-src y, z"],
    "content-security-policy-report-only": [b"default-src 'self'"],
    "content-transfer-encoding": [b"binary"],
    "content-type": [b'text/html; charset="utf-8"', b"application/a+json;x=y"],
    "cross-origin-embedder-policy": [b'require-corp; report-to="e"', b"foo"],
    "cross-origin-embedder-policy-report-only": [b"require-corp"],
    "cross-origin-opener-policy": [b"same-origin; report-to=e", b"1"],
    "cross-origin-opener-policy-report-only": [b"same-origin"],
    "cross-origin-resource-policy": [b"same-site"],
    "cteonnt-length": [b"1"],
    "date": [b"Mon, 04 Jul 2011 09:08:06 GMT", b"0"],
    "deprecation": [b"@1672531199", b"?1"],
    "etag": [b'"foo"', b'W/"f"'],
    "expires": [b"Mon, 04 Jul 2011 09:08:06 GMT", b"Sunday, 06-Nov-94 08:49:37 GMT", b"Sun Nov  6 08:49:37 1994"],
    "keep-alive": [b"timeout=30, max=5"],
    "last-modified": [b"Mon, 04 Jul 2011 09:08:06 GMT"],
    "link": [b"<//a.b/c>; rel=preload", b'<http://a.b/>; rel="example next"', b'</f>; rel=preload; as=style; anchor="x"', b"<a>; rev=x; type=a/b; hreflang=en, <b>"],
    "location": [b"http://a.b/foo", b"/x"],
    "mime-version": [b"1.0"],
    "nel": [b'{"report_to": "g", "max_age": 1}', b'{"success_fraction": 1.5, "report_to":"x"}', b"{}, [1]", b'{"report_to":"g","max_age":true}'],
    "p3p": [b'CP="x"'],
    "permissions-policy": [b"geolocation=(), camera=self", b'a=("self" b), c=*'],
    "pragma": [b"no-cache, x"],
    "proxy-authenticate": [b'Basic realm="W"'],
    "proxy-authentication-info": [b'nextnonce="5", nc=2'],
    "proxy-status": [b"Ex; error=http_protocol_error", b'"A"; next-hop=e.com, B; x=1'],
    "referrer-policy": [b"no-referrer, unsafe-url"],
    "report-to": [b'{"max_age": 1, "endpoints": [{"url": "https://e.c"}]}', b'{"group": "a"}, 1', b'{"endpoints":[{"url":"//a"}],"max_age":"1"}'],
    "reporting-endpoints": [b'e="https://e.com/r", f="/r"', b"e=123", b'e="//h"'],
    "retry-after": [b"120", b"Mon, 04 Jul 2011 09:08:06 GMT"],
    "server": [b"Apache/2.4.1 (Unix) x"],
    "server-timing": [b'miss, db;dur=53;desc="a"', b"db;dur=foo"],
    "set-cookie": [b"SID=31; Path=/; Domain=e.com; Secure", b"a=b; Expires=Wed, 09 Jun 2021 10:18:14 GMT; Max-Age=12", b"__Host-a=1; HttpOnly; SameSite=Lax; Partitioned", b"a; Priority=High"],
    "set-cookie2": [b"a=b"],
    "speculation-rules": [b'"https://e.com/r.json", "/x"', b"123"],
    "strict-transport-security": [b"max-age=31536000; includeSubDomains", b"max-age=1; preload; max-age=2; x"],
    "sunset": [b"Sat, 31 Dec 2022 23:59:59 GMT"],
    "tcn": [b"list"],
    "trailer": [b"Age, Content-Length"],
    "transfer-encoding": [b"chunked, gzip;a=b", b"chunked", b"identity"],
    "upgrade": [b"HTTP/2.0, websocket"],
    "use-as-dictionary": [b'match="/foo/*", ttl=123', b'id="a", match-dest=("x")'],
    "vary": [b"Accept-Encoding, *, Host", b"a, b, c, d"],
    "via": [b"1.1 test, HTTP/1.0 a:8 (c)"],
    "warning": [b'110 - "Stale"'],
    "www-authenticate": [b'Basic realm="W", Digest a=b'],
    "x-cache": [b"HIT from x"],
    "x-cache-lookup": [b"HIT from x:8"],
    "x-content-type-options": [b"nosniff"],
    "x-frame-options": [b"DENY", b"SAMEORIGIN, x"],
    "x-pad": [b"x"],
    "x-unknown-thing": [b"abc"],
    "x-powered-by": [b"abc"],
    "x-xss-protection": [b"1; mode=block"],
}

REQUEST = {
    "accept": [b"audio/*; q=0.2, a/b;x=1", b"*/*;q=1.001"],
    "accept-encoding": [b"gzip, *;q=0.5"],
    "accept-language": [b"da, en-gb;q=0.8", b"en; foo=bar"],
    "access-control-request-headers": [b"Custom-A, b"],
    "access-control-request-method": [b"POST"],
    "authorization": [b"Basic QWxh=="],
    "available-dictionary": [b":pZGm:", b'"x"'],
    "cache-control": [b"no-cache, max-age=0"],
    "connection": [b"close"],
    "content-length": [b"3"],
    "content-type": [b"a/b; charset=x"],
    "cookie": [b"SID=31; a=b"],
    "expect": [b"100-continue"],
    "from": [b"web@e.org"],
    "host": [b"www.example.org:80"],
    "if-match": [b'"x", W/"y"', b"*"],
    "if-modified-since": [b"Sat, 29 Oct 1994 19:43:31 GMT"],
    "if-none-match": [b'W/"x", "y"'],
    "if-range": [b'"xyzzy"', b"Sat, 29 Oct 1994 19:43:31 GMT"],
    "if-unmodified-since": [b"Sat, 29 Oct 1994 19:43:31 GMT"],
    "max-forwards": [b"5"],
    "origin": [b"https://e.com", b"null"],
    "pragma": [b"no-cache"],
    "proxy-authorization": [b"Basic QWxh=="],
    "range": [b"bytes=0-499, 5-", b"bytes=-5", b"b=a"],
    "referer": [b"http://e.org/x#y", b"http://u@example.com:8/"],
    "soapaction": [b'"x"'],
    "te": [b"trailers, deflate; q=0.5"],
    "upgrade-insecure-requests": [b"1"],
    "user-agent": [b"CERN/2.15 lib/2 (x)"],
    "via": [b"1.1 test"],
}
