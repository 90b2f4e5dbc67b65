"""Field names: canonical spelling, and the messages they are defined for (RFC 9110, RFC 9111, Fetch and others; written independently of the code)."""

RESPONSE_ONLY = """Accept-CH Accept-Patch Accept-Post Accept-Query Accept-Ranges Access-Control-Allow-Credentials Access-Control-Allow-Headers
Access-Control-Allow-Methods Access-Control-Allow-Origin Access-Control-Expose-Headers Access-Control-Max-Age Age Allow Alt-Svc Authentication-Info
Cache-Group-Invalidation Cache-Groups Cache-Status CDN-Cache-Control Clear-Site-Data Content-Range Content-Security-Policy
Content-Security-Policy-Report-Only Cross-Origin-Embedder-Policy Cross-Origin-Embedder-Policy-Report-Only Cross-Origin-Opener-Policy
Cross-Origin-Opener-Policy-Report-Only Cross-Origin-Resource-Policy Deprecation Expires Last-Modified Location NEL P3P Permissions-Policy
Proxy-Authenticate Proxy-Authentication-Info Proxy-Status Referrer-Policy Report-To Reporting-Endpoints Retry-After Server Server-Timing Set-Cookie
Set-Cookie2 Speculation-Rules Strict-Transport-Security Sunset TCN Use-As-Dictionary Vary Warning WWW-Authenticate X-Cache X-Cache-Lookup
X-Content-Type-Options X-Frame-Options X-Pad""".split()
REQUEST_ONLY = """Accept Accept-Encoding Accept-Language Access-Control-Request-Headers Access-Control-Request-Method Authorization Available-Dictionary
Cookie Expect From Host If-Match If-Modified-Since If-None-Match If-Range If-Unmodified-Since Max-Forwards Origin Pragma Proxy-Authorization Range
Referer SoapAction User-Agent""".split()
BOTH = """Cache-Control Connection Content-Disposition Content-Encoding Content-Language Content-Length Content-Type Date Keep-Alive Link Trailer
Transfer-Encoding Upgrade Via""".split()
OTHER = "ETag TE Content-Location MIME-Version Content-MD5 Content-Base Content-Transfer-Encoding Access-Control".split()  # placement not claimed
DEPRECATED = """Accept-CH-Lifetime Accept-Charset C-PEP-Info Protocol-Info Protocol-Query C-Ext C-Man C-Opt C-PEP Content-DPR Content-ID
Content-Script-Type Content-Style-Type Content-Version Cookie2 Default-Style Derived-From DNT Differential-ID Digest DPR Expect-CT Ext Feature-Policy
GetProfile HTTP2-Settings Man Method-Check Method-Check-Expires Opt PEP Pep-Info PICS-Label ProfileObject Protocol Protocol-Request Proxy-Features
Proxy-Instruction Public Public-Key-Pins Public-Key-Pins-Report-Only Referer-Root Safe Security-Scheme SetProfile URI Viewport-Width Want-Digest Width
X-Content-Security-Policy X-Webkit-CSP X-UA-Compatible X-Meta-MSSmartTagsPreventParsing X-Download-Options X-XSS-Protection""".split()
# deprecated fields that are otherwise parsed
DEPRECATED_PARSED = "P3P Pragma Set-Cookie2 Warning X-Pad Keep-Alive Report-To MIME-Version Content-MD5 Content-Base Content-Transfer-Encoding Access-Control".split()
UNNECESSARY = """x-aspnet-version x-aspnetmvc-version x-powered-by x-generator x-drupal-cache x-varnish x-mod-pagespeed x-pingback x-runtime
x-rack-cache x-content-encoded-by x-backend-server""".split()
ALIASES = {"x-pad-for-netscrape-bug": "x-pad", "xx-pad": "x-pad", "x-browseralignment": "x-pad", "nncoection": "connectiox", "cneonction": "connectiox",
           "yyyyyyyyyy": "connectiox", "xxxxxxxxxx": "connectiox", "_onnection": "connectiox"}
MANGLED = ["connectiox", "cteonnt-length", "x-cnection"]
KNOWN = {n.lower(): n for n in RESPONSE_ONLY + REQUEST_ONLY + BOTH + OTHER}
TCHAR = b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def anycase(inp, name, label="n"):
    """The name in any letter case."""
    out = b""
    for i, c in enumerate(name):
        if c.isalpha():
            out = out + inp.bytes(label + str(i), 1, alphabet=c.lower() + c.upper())
        else:
            out = out + c.encode()
    return out
