"""Compact regular expressions for field values, written from the RFCs (independently of httplint.syntax).

ELEMENT maps a field to (how its lines divide into members, what one member looks like).
"""
import re

TOK = r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+"
OWS = r"[ \t]*"
QS = r'"(?:[\t !#-\[\]-~\x80-\xff]|\\[\t -~\x80-\xff])*"'
VAL = "(?:" + TOK + "|" + QS + ")"
PARAM = TOK + "=" + VAL
PARAMS = "(?:" + OWS + ";(?:" + OWS + PARAM + ")?)*"  # RFC 9110, Section 5.6.6
Q = r"(?:0(?:\.[0-9]{0,3})?|1(?:\.0{0,3})?)"
WEIGHT = "(?:" + OWS + ";" + OWS + "[qQ]=" + Q + ")?"
ETAG = r'(?:W/)?"[!#-~\x80-\xff]*"'

# RFC 3986
UNRESERVED = r"A-Za-z0-9\-._~"
SUB = r"!$&'()*+,;="
PCT = "%[0-9A-Fa-f]{2}"
PCHAR = "(?:[" + UNRESERVED + SUB + ":@]|" + PCT + ")"
SEGNC = "(?:[" + UNRESERVED + SUB + "@]|" + PCT + ")+"
QUERY = "(?:[" + UNRESERVED + SUB + ":@/?]|" + PCT + ")*"
H16 = "[0-9A-Fa-f]{1,4}"
DEC = "(?:25[0-5]|2[0-4][0-9]|1[0-9][0-9]|[1-9][0-9]|[0-9])"
LS32 = "(?:" + H16 + ":" + H16 + "|" + DEC + r"\." + DEC + r"\." + DEC + r"\." + DEC + ")"
IPV6 = "(?:" + "|".join(
    ["(?:" + H16 + ":){6}" + LS32, "::(?:" + H16 + ":){5}" + LS32]
    + ["(?:(?:" + H16 + ":){0," + str(k) + "}" + H16 + ")?::(?:" + H16 + ":){" + str(4 - k) + "}" + LS32 for k in range(5)]
    + ["(?:(?:" + H16 + ":){0,5}" + H16 + ")?::" + H16, "(?:(?:" + H16 + ":){0,6}" + H16 + ")?::"]
) + ")"
HOST = r"(?:\[(?:" + IPV6 + "|[vV][0-9A-Fa-f]+[.][" + UNRESERVED + SUB + r":]+)\]|(?:[" + UNRESERVED + SUB + "]|" + PCT + ")*)"
AUTHORITY = "(?:(?:[" + UNRESERVED + SUB + ":]|" + PCT + ")*@)?" + HOST + "(?::[0-9]*)?"
SCHEME = r"[A-Za-z][A-Za-z0-9+\-.]*"
AFTER = "(?://" + AUTHORITY + "(?:/" + PCHAR + "*)*|/(?:" + PCHAR + "+(?:/" + PCHAR + "*)*)?|"
HIER = AFTER + PCHAR + "+(?:/" + PCHAR + "*)*|)"
REL = AFTER + SEGNC + "(?:/" + PCHAR + "*)*|)"
ABSOLUTE = SCHEME + ":" + HIER + r"(?:\?" + QUERY + ")?"
PARTIAL = REL + r"(?:\?" + QUERY + ")?"
FRAGMENT = "(?:#" + QUERY + ")?"
REFERENCE = "(?:" + ABSOLUTE + FRAGMENT + "|" + PARTIAL + FRAGMENT + ")"

# RFC 9110, Section 5.6.7; letter case isn't claimed
DAY = "(?:Mon|Tue|Wed|Thu|Fri|Sat|Sun)"
DAYL = "(?:Monday|Tuesday|Wednesday|Thursday|Friday|Saturday|Sunday)"
MONTH = "(?:Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec)"
TIME = "[0-9]{2}:[0-9]{2}:[0-9]{2}"
DATE = ("(?i:" + DAY + ", [0-9]{2} " + MONTH + " [0-9]{4} " + TIME + " GMT|" + DAYL + ", [0-9]{2}-" + MONTH + "-[0-9]{2} " + TIME + " GMT|"
        + DAY + " " + MONTH + " (?:[0-9]{2}| [0-9]) " + TIME + " [0-9]{4})")

# RFC 5646
AL = "[A-Za-z0-9]"
LANGUAGE = (
    "(?i:(?:[a-z]{2,3}(?:-[a-z]{3}(?:-[a-z]{3}){0,2})?|[a-z]{4}|[a-z]{5,8})(?:-[a-z]{4})?(?:-(?:[a-z]{2}|[0-9]{3}))?(?:-(?:" + AL + "{5,8}|[0-9]" + AL + "{3}))*"
    "(?:-[0-9a-wy-z](?:-" + AL + "{2,8})+)*(?:-x(?:-" + AL + "{1,8})+)?|x(?:-" + AL + "{1,8})+|"
    "en-gb-oed|i-ami|i-bnn|i-default|i-enochian|i-hak|i-klingon|i-lux|i-mingo|i-navajo|i-pwn|i-tao|i-tay|i-tsu|sgn-be-fr|sgn-be-nl|sgn-ch-de|"
    "art-lojban|cel-gaulish|no-bok|no-nyn|zh-guoyu|zh-hakka|zh-min|zh-min-nan|zh-xiang)"
)

AUTH = TOK + OWS + "=" + OWS + VAL
CREDENTIALS = TOK + r"(?: +(?:[A-Za-z0-9\-._~+/]+=*|(?:(?:" + AUTH + "|,)(?:" + OWS + ",(?:" + OWS + AUTH + ")?)*)?))?"
CHALLENGE = TOK + r"(?: +(?:[A-Za-z0-9\-._~+/]+=*|" + AUTH + "(?:, " + AUTH + ")*)?)?"
PRODUCT = TOK + "(?:/" + TOK + ")?"
COMMENT = r"\((?:[\t -'*-\[\]-~\x80-\xff]|\\[\t -~\x80-\xff])*\)"
PRODUCTS = PRODUCT + r"(?:[ \t]+(?:" + PRODUCT + "|" + COMMENT + "))*"
RANGE = r"(?:\*/\*|" + TOK + "/" + TOK + ")" + PARAMS
MEDIA = TOK + "/" + TOK + PARAMS
TRANSFER = TOK + "(?:" + OWS + ";" + OWS + TOK + OWS + "=" + OWS + VAL + ")*"
DIRECTIVE = "[A-Za-z0-9-]+(?:[ \\t][\\t !-+\\--:<-~]*)?"
ATEXT = r"[A-Za-z0-9!#$%&'*+\-/=?^_`{|}~]+"
ADDR = ATEXT + r"(?:\." + ATEXT + ")*@" + ATEXT + r"(?:\." + ATEXT + ")*"
CACHE = TOK + "(?:=" + VAL + ")?"
STS = TOK + "(?:" + OWS + "=" + OWS + VAL + ")?"

ELEMENT = {
    # field: (division, member)
    "allow": ("list", TOK), "vary": ("list", TOK), "connection": ("list", TOK), "trailer": ("list", TOK), "accept-ranges": ("list", TOK),
    "content-encoding": ("list", TOK), "access-control-allow-methods": ("list", TOK), "access-control-allow-headers": ("list", TOK),
    "access-control-expose-headers": ("list", TOK), "access-control-request-headers": ("list", TOK), "referrer-policy": ("list", TOK),
    "access-control-request-method": ("one", TOK), "content-language": ("list", LANGUAGE), "upgrade": ("list", PRODUCT),
    "expect": ("list", TOK + "(?:=" + VAL + PARAMS + ")?"), "cache-control": ("list", CACHE), "pragma": ("list", CACHE),
    "keep-alive": ("list", PARAM), "x-content-type-options": ("list", "(?i:nosniff)"), "clear-site-data": ("list", QS),
    "content-md5": ("one", "[A-Za-z0-9+/]{22}=="), "accept": ("list", RANGE), "accept-encoding": ("list", TOK + WEIGHT),
    "accept-language": ("list", r"(?:[A-Za-z]{1,8}(?:-[A-Za-z0-9]{1,8})*|\*)" + WEIGHT), "accept-patch": ("list", MEDIA),
    "accept-post": ("list", RANGE), "transfer-encoding": ("list", TRANSFER), "te": ("list", TRANSFER + WEIGHT),
    "server-timing": ("list", TOK + PARAMS), "alt-svc": ("list", "(?:(?i:clear)|" + TOK + "=" + QS + "(?:" + OWS + ";" + OWS + PARAM + ")*)"),
    "etag": ("one", ETAG), "if-match": ("etags", r"(?:\*|" + ETAG + ")"), "if-none-match": ("etags", r"(?:\*|" + ETAG + ")"),
    "if-range": ("one", "(?:" + ETAG + "|" + DATE + ")"), "if-modified-since": ("one", DATE), "if-unmodified-since": ("one", DATE),
    "retry-after": ("one", "(?:[0-9]+|" + DATE + ")"), "max-forwards": ("one", "[0-9]+"), "content-type": ("one", MEDIA),
    "content-disposition": ("one", TOK + "(?:" + OWS + ";" + OWS + PARAM + ")*"),
    "strict-transport-security": ("one", "(?:" + STS + ")?(?:" + OWS + ";(?:" + OWS + STS + ")?)*"),
    "content-security-policy": ("list", DIRECTIVE + "(?:;" + OWS + "(?:" + DIRECTIVE + ")?)*"),
    "content-security-policy-report-only": ("list", DIRECTIVE + "(?:;" + OWS + "(?:" + DIRECTIVE + ")?)*"),
    "x-frame-options": ("one", "(?i:DENY|SAMEORIGIN|ALLOW-FROM[ \\t]+" + SCHEME + "://" + HOST + "(?::[0-9]*)?)"),
    "access-control-allow-credentials": ("one", "true"), "host": ("one", HOST + "(?::[0-9]*)?"),
    "location": ("one", REFERENCE), "content-location": ("one", "(?:" + ABSOLUTE + "|" + PARTIAL + ")"), "referer": ("one", "(?:" + ABSOLUTE + "|" + PARTIAL + ")"),
    "link": ("links", "<" + REFERENCE + ">(?:" + OWS + ";" + OWS + TOK + "(?:=" + VAL + ")?)*"),
    "server": ("line", PRODUCTS), "user-agent": ("one", PRODUCTS),
    "via": ("comments", "(?:" + TOK + "/)?" + TOK + "[ \\t]+(?:" + HOST + "(?::[0-9]*)?|" + TOK + ")(?:[ \\t]+" + COMMENT + ")?"),
    "authorization": ("one", CREDENTIALS), "proxy-authorization": ("one", CREDENTIALS), "www-authenticate": ("challenges", CHALLENGE),
    "proxy-authenticate": ("challenges", CHALLENGE), "authentication-info": ("list", AUTH), "proxy-authentication-info": ("list", AUTH),
    "from": ("one", "(?:" + ADDR + "|(?:" + ATEXT + ")?<" + ADDR + ">)"),
}

# what commas don't divide
WHOLE = {"list": QS, "challenges": QS, "etags": '"[!#-~\\x80-\\xff]*"', "links": "(?:<[^>]*>|" + QS + ")", "comments": COMMENT}
OPENING = {"list": '"', "challenges": '"', "etags": '"', "links": '<"', "comments": "("}


def members(text, division):
    """The members of one field line, without the empty ones."""
    if division in ("one", "line"):
        return [text.strip(" \t")]
    out = []
    start = pos = 0
    whole = re.compile(WHOLE[division])
    while pos < len(text):
        c = text[pos]
        if c == ",":
            out.append(text[start:pos])
            pos += 1
            start = pos
            continue
        if c in OPENING[division]:
            m = whole.match(text[pos:])
            if m is not None:
                pos += m.end()
                continue
        pos += 1
    out.append(text[start:])
    out = [m.strip(" \t") for m in out]
    out = [m for m in out if m != ""]
    if division == "challenges":
        merged = []
        for m in out:
            if merged and re.match(TOK + OWS + "=", m):
                merged[-1] = merged[-1] + ", " + m
            else:
                merged.append(m)
        out = merged
    return out


def valid(text, name):
    return re.fullmatch(ELEMENT[name][1], text) is not None
