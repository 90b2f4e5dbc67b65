"""The properties: one entry each."""
F = "httplint/field/"
P = "httplint/field/parsers/"

PROPS = [
    dict(
        id="T01", title="Linting never raises, whatever arrives on the wire",
        statement="Feeding any message (start line, field lines, content chunks, trailers, in the documented call order, with or without a related message, clock, or base URI) to a linter never raises an exception. Every malformed input is either accepted silently or reported as a note.",
        forall="all bytes in start lines, field names and values, targets, trailers; related-message and clock configurations", over=["inputs", "configurations"],
        why="The unit tests feed a few dozen well-chosen values per field; a crash needs one odd byte in one place, or a combination of fields that are only interpreted together.",
        files=["httplint/message.py", F + "section.py", P], mech=[("ValueError convention of parse()", F + "list_field.py, singleton_field.py"), ("section processing", F + "section.py:FieldSection.process"), ("post checks", "httplint/message.py:finish_content")],
    ),
    dict(
        id="M01", title="Content accounting and the Content-Length verdict are exact",
        statement="A message's content length is the number of bytes fed, and its hash and sample are those of the concatenated content, however it was divided into chunks. Content-Length is reported as correct exactly when its decimal value equals that number, incorrect exactly when it differs, and neither when the message cannot have content or its content was not collected. Content in a response that can't have it, or in a request whose method doesn't define it, is always reported.",
        forall="all statuses, methods, Content-Length values, content sizes and chunk divisions within the bounds", over=["inputs", "histories"],
        why="Tests use one or two lengths, one status and one chunk; the verdict must hold for every status/length/division combination.",
        files=["httplint/message.py", P + "content_length.py"], mech=[("finish_content", "httplint/message.py"), ("feed_content", "httplint/message.py"), ("parse", P + "content_length.py")],
    ),
    dict(
        id="C01", title="Storability by private and shared caches follows RFC 9111 section 3",
        statement="For every response, what is reported about which caches may store it is what HTTP caching specifies for its method, status, Cache-Control directives, Expires, Vary and the request's Authorization. Exactly one storage verdict is reported, in any letter case and layout of the directives, and the programmatic result agrees with it.",
        forall="all three-digit statuses x subsets of directives x authorisation x Expires x methods", over=["inputs"],
        why="The state space is the product of a dozen conditions; tests visit a handful of points.",
        files=["httplint/cache.py"], mech=[("check_storable", "httplint/cache.py"), ("check_basic", "httplint/cache.py")], observe=["response.caching", "notes"],
    ),
    dict(
        id="C02", title="Freshness lifetimes and fresh/stale verdicts follow RFC 9111 section 4.2",
        statement="The freshness lifetimes for private and shared caches are computed from s-maxage, max-age, Expires and Date with HTTP's precedence, and a response is reported fresh exactly when its lifetime exceeds its age. The notes on revalidation, staleness and redundancy that accompany the verdict follow from the directives and that comparison alone.",
        forall="all values of Age, max-age, s-maxage, Date, Expires and local time within the bounds, all combinations of directives", over=["inputs"],
        why="Boundary values (lifetime equal to age, zero, shared and private on different sides) and directive combinations are not enumerated by tests.",
        files=["httplint/cache.py"], mech=[("check_freshness", "httplint/cache.py"), ("check_stale", "httplint/cache.py")], observe=["response.caching", "notes"],
    ),
    dict(
        id="C03", title="Age calculation and clock verdicts follow RFC 9111 section 4.2.3",
        statement="The age of a response is the greater of its apparent age and its Age plus the response delay, for any clocks, and it is reported whenever it is not zero. Only non-negative decimal integers are ages. The server's clock is reported as wrong, right, or hidden by caching, and Last-Modified as future, exactly according to the difference of the times involved.",
        forall="all Age values, Date and Last-Modified times and clock readings within the bounds", over=["inputs", "schedules"],
        why="The verdicts depend on differences between up to four times; tests fix one or two of them.",
        files=["httplint/cache.py", P + "age.py", P + "date.py", P + "last_modified.py"], mech=[("check_age", "httplint/cache.py"), ("post_check", P + "date.py, last_modified.py"), ("parse", P + "age.py")],
    ),
    dict(
        id="C05", title="Cache-Control directives are recognised, typed, placed and compared correctly",
        statement="Every Cache-Control directive is recognised in any letter case, layout and position, its argument is accepted exactly when it has the directive's type, and its value is what was sent. Directives in the wrong kind of message, repeated, overridden by another directive, or with a missing, unexpected or oversized argument are reported exactly once each, and extension directives are never reported for those reasons.",
        forall="all directives, arguments and combinations within the bounds", over=["inputs"],
        why="Tests try single directives; conflicts, repetition and typing are quantified over pairs, subsets and argument strings.",
        files=[P + "cache_control.py"], mech=[("parse", P + "cache_control.py"), ("evaluate", P + "cache_control.py")],
    ),
    dict(
        id="F01", title="Fields are identified by their whole name, in any letter case",
        statement="A field is interpreted by the whole of its name, compared without regard to letter case, so any casing of a name gives the same notes, parsed values and (canonical) name. Names that only resemble a known field's (a byte more, fewer or different, underscores for hyphens) are never interpreted as it, names that aren't tokens are reported once for each line, and deprecated, unnecessary and mangled fields are reported once for each line and never otherwise.",
        forall="all letter cases of all known names, all names one byte away from a known name, all short names", over=["inputs"],
        why="Tests use each name's canonical spelling; the guarantee is about the 2^n others and about near misses.",
        files=[F + "finder.py", F + "section.py", F + "__init__.py"], mech=[("find_handler_class", F + "finder.py"), ("FieldSection.process", F + "section.py")],
    ),
    dict(
        id="F02", title="Field sections are recorded, decoded and measured exactly",
        statement="Every field line received is recorded in order, its value decoded as ISO-8859-1, and the section's size is the number of bytes in its names and values. Lines of more than 8K, sections of more than 32K, and non-ASCII names and values are reported, each on its own line and only then; for a field that occurs once in a message the first occurrence is used and repetition is reported once.",
        forall="all bytes in names and values, sizes around the limits, and repetitions within the bounds, in headers and trailers", over=["inputs", "histories"],
        why="Tests check one large field; limits, positions and decoding hold for every line, known or not, in both sections.",
        files=[F + "section.py", F + "singleton_field.py"], mech=[("FieldSection.process", F + "section.py"), ("SingletonField", F + "singleton_field.py")], observe=["headers.text", "headers.size", "notes"],
    ),
    dict(
        id="F05", title="Fields in the wrong kind of message are reported, and otherwise ignored",
        statement="A field defined only for requests that appears in a response, or the reverse, is reported once for each line, in headers and trailers, whatever its value; nothing else is said about it, it has no parsed value, and what is said about the rest of the message is unchanged. Fields in the right kind of message, and fields that aren't known, are never reported as misplaced.",
        forall="all fields defined for one kind of message x values within the bounds x headers/trailers", over=["inputs"],
        why="Tests cover one field each way; a misplaced field that is still interpreted needs a particular field and value.",
        files=[F + "section.py", F + "__init__.py"], mech=[("FieldSection.process", F + "section.py"), ("valid_in_requests/valid_in_responses", P)],
    ),
    dict(
        id="F07", title="HTTP dates denote the time they say, in all three formats",
        statement="In Date, Expires, Last-Modified and Sunset, a date in IMF-fixdate, RFC 850 or asctime format is parsed as the seconds since the epoch it denotes, in UTC and the Gregorian calendar, and the obsolete formats are reported as such. Values that have none of these forms, or denote times that don't exist, have no value and are reported as invalid exactly once.",
        forall="all years, days, times of day in the three formats, and all one-byte damages of the sample dates", over=["inputs"],
        why="Tests parse about ten dates; leap years, month lengths and malformed digits are quantified over all of them.",
        files=[F + "utils.py", "httplint/syntax/rfc9110.py"], mech=[("parse_http_date", F + "utils.py")], observe=["headers.parsed", "notes"],
    ),
    dict(
        id="T04", title="No short value makes linting take exponential time",
        statement="The time linting takes does not grow exponentially with the length of a field value or request target: none of the syntax definitions it matches values against can match one text in exponentially many ways. A message of a few hundred bytes is linted in well under a second.",
        forall="all field values and request targets built by repeating a word of bounded length", over=["inputs"],
        why="Catastrophic backtracking needs a particular repeated word followed by a particular mismatch; no test contains one.",
        files=["httplint/syntax/rfc9110.py", "httplint/syntax/rfc5322.py", "httplint/syntax/rfc3986.py", P + "content_security_policy.py"], mech=[("regular expressions", "httplint/syntax"), ("syntax matching", F + "list_field.py, singleton_field.py")],
        oracle="exponential ambiguity of the position automaton (two different loops over one word); a reported value is timed on the real code",
    ),
dict(
    id="F04", title="Exactly the values that don't have their field's syntax are reported",
    statement="For every field with a syntax defined by its specification (tokens, parameters, dates, URIs, entity tags, credentials, products, policies), each member of the field that doesn't have that syntax is reported as bad syntax once, and no valid member is. When a position is reported, what comes before it is valid and the character shown is the one there.",
    forall="all short values, and all small edits of typical values, of 60 fields", over=["inputs"],
    why="Tests give each field one or two values; whether a grammar accepts or rejects is a statement about every string.",
    files=[F + "list_field.py", F + "singleton_field.py", "httplint/syntax/rfc9110.py", "httplint/syntax/rfc3986.py", "httplint/syntax/rfc5646.py"],
    mech=[("HttpListField.handle_input", F + "list_field.py"), ("SingletonField.finish", F + "singleton_field.py"), ("syntax definitions", "httplint/syntax")],
    oracle="harness/grammar.py: compact regular expressions written from the RFCs' ABNF, and an independent splitter",
),
    dict(
        id="T02", title="Every note can be rendered, in every locale",
        statement="Whatever message produced it, every note (and every child note) has a subject, level and category, and its summary and detail render to non-empty text in each supported locale. Rendering never raises. Subjects are parts of the message (its first line, content, fields by name, lines by position), children's being their parents'.",
        forall="all messages of the stated bounds x all five locales x every note they produce", over=["inputs", "configurations"],
        why="A template and the variables its call site passes are far apart, and translated templates further still; each note is reached by few tests, and none renders them all in all locales.",
        files=["httplint/note.py", "httplint/i18n.py", P, "httplint/translations"], mech=[("_get_summary, _get_detail", "httplint/note.py:Note"), ("set_locale, translate", "httplint/i18n.py")],
    ),
    dict(
        id="T03", title="Text from a message never becomes markup in a note's detail",
        statement="However a message is crafted, text taken from it (field names and values, decoded parameters and strings, methods, targets, status phrases) appears in a note's detail only HTML-escaped, in every locale. Markup in the message therefore can't reach a page that shows the detail.",
        forall="the marker <zq> with arbitrary neighbouring bytes, at every position of every field's values, decoded or not, and in start lines, names and trailers; five locales", over=["inputs", "configurations"],
        why="It takes one template without a code span, or one value whose backticks, line breaks or encoded forms survive, in one locale; tests look at a few notes with one payload.",
        files=["httplint/note.py", "httplint/util.py", F + "list_field.py", F + "structured_field.py", P, "httplint/translations"], mech=[("_get_detail, code_text, MarkdownSafe", "httplint/note.py"), ("markdown_list", "httplint/util.py")],
    ),
dict(
    id="F03", title="Lists mean the same whatever their layout",
    statement="The value of a list-based field is the concatenation of its members' values, whether the members share a line or not, and whatever empty members and whitespace stand between them; the notes don't depend on that either. Commas inside quoted strings, entity tags, comments, link targets and challenges' parameters don't divide members.",
    forall="pairs of valid members within the bounds x all list-based fields x layouts", over=["inputs"],
    why="Tests use one layout per field; dividing wrongly needs a comma or quotation mark in the wrong place, in a field with its own rules.",
    files=[F + "list_field.py", F + "utils.py", F + "section.py", P], mech=[("HttpListField.split, handle_input", F + "list_field.py"), ("split_list_field, split_challenges", F + "utils.py")],
    observe=["headers.parsed", "notes"],
    oracle="the members linted one at a time, and harness/grammar.py",
),
dict(
    id="F06", title="Parameters have the names and values they denote",
    statement="In fields with parameters, each one's name (in lower case) and value are parsed as their specification says: tokens as they are, quoted strings without quotes and escapes, extended values (RFC 8187) percent-decoded as UTF-8, semicolons in quoted strings not dividing. Repeated, single-quoted and faulty or misplaced extended parameters are reported, each once and no others; so are unknown Content-Dispositions and risky filenames.",
    forall="all valid values within the bounds x 10 fields with parameters", over=["inputs"],
    why="Tests use a handful of parameters; quoting, escapes and extended values interact with each other and with the dividing characters.",
    files=[F + "utils.py", P], mech=[("parse_params, split_string, unquote_string", F + "utils.py"), ("content_disposition", P + "content_disposition.py")],
    observe=["headers.parsed", "notes"],
    oracle="a character-by-character reader written from RFC 9110, Section 5.6.6 and RFC 8187",
),
dict(
    id="F08", title="Structured Fields are parsed as RFC 9651 says, or reported and ignored",
    statement="A field defined as a Structured Field has the structure its lines, combined, denote under RFC 9651, with repeated keys reported. When they aren't a valid List, Dictionary or Item (whichever the field is), that is reported exactly once, the field has no value, and nothing is said about its content.",
    forall="all values within the bounds x 17 fields x one or two lines", over=["inputs"],
    why="Tests try a few malformed values; what's valid is a grammar with many small rules, and each field chooses the type it's parsed as.",
    files=[F + "structured_field.py", P], mech=[("StructuredField.finish", F + "structured_field.py"), ("sf_type", P)], observe=["headers.parsed", "notes"],
    oracle="harness/sf.py: regular expressions and a reader written from RFC 9651",
),
dict(
    id="P08", title="Isolation, reporting, deprecation and cache status fields are judged right",
    statement="COEP/COOP policies, Permissions-Policy allowlists, Deprecation, CDN-Cache-Control directives, Cache-Status and Proxy-Status parameters, Use-As-Dictionary, Available-Dictionary, cache groups, reporting endpoints, Report-To and NEL are reported for what they say: members of another type than defined, unknown and missing ones, insecure URLs, undefined endpoints, and nothing else. Notes name the member concerned.",
    forall="small edits of all known names x all Structured Field and JSON types x times of receipt", over=["inputs", "clock"],
    why="Each of these tables is sampled by one or two tests; near misses of names and types are where they go wrong.",
    files=[P + "cross_origin_embedder_policy.py", P + "cross_origin_opener_policy.py", P + "nel.py", P + "report_to.py", P + "reporting_endpoints.py", P + "cdn_cache_control.py", P + "use_as_dictionary.py", P + "permissions_policy.py", P + "cache_status.py", P + "proxy_status.py", F + "utils.py"],
    mech=[("evaluate, post_check", P), ("check_sf_params", F + "utils.py")],
    oracle="tables written from RFC 9211, 9209, 9213, 9745, 9842, 9875, the Reporting API, NEL and HTML",
),
dict(
    id="M03", title="Status codes are explained, and judged against the request",
    statement="A status code is a sequence of ASCII digits, anything else being reported; codes that aren't registered are reported as nonstandard. Each code gets the notes about it and no others: those about a missing or unwanted field (Location, Content-Range, Date, Content-Type...), and about a request that didn't ask for it (Expect, Upgrade, Range, preconditions, negotiation, a safe or listed method), exactly when the messages' fields say so.",
    forall="all status codes x fields' presence x requests' methods and expectations within the bounds", over=["inputs"],
    why="Tests try a few codes; each has its own conditions on two messages.",
    files=["httplint/status.py", "httplint/message.py"], mech=[("StatusChecker", "httplint/status.py"), ("process_response_topline", "httplint/message.py")],
    oracle="tables written from RFC 9110, Section 15 and IANA's status code registry",
),
dict(
    id="M05", title="Preflights and origins (CORS) are judged as Fetch has it",
    statement="A preflight is an OPTIONS request with Origin and Access-Control-Request-Method; it and its response are reported as such, and fields of preflights that appear elsewhere, or without each other, are reported and named. An Origin is parsed into scheme, host and port or reported; whether Access-Control-Allow-Origin allows it is said right, and only when there's a valid origin to compare it with.",
    forall="all small edits of origins, allowed origins and methods x presence of all fields concerned x with and without the request", over=["inputs"],
    why="Tests check one message per note; the notes depend on two messages' fields, methods and near misses of origins.",
    files=[F + "cors.py", P + "origin.py", P + "access_control_max_age.py", P + "access_control_allow_credentials.py", P + "access_control_allow_origin.py"],
    mech=[("is_cors_preflight_request, check_preflight_response, check_access_control_allow_origin", F + "cors.py"), ("origin.parse", P + "origin.py")],
    oracle="a reader of serialized origins written from RFC 6454 and RFC 3986, and the Fetch standard's CORS check",
),
dict(
    id="M04", title="Request targets that aren't URIs, or are too long, are reported",
    statement="A request target that doesn't correspond to a URI as RFC 3986 defines it is reported, as is one with more than 8000 characters (its fragment not counting), and no others. A valid target's URI is the target without its fragment, characters that URIs can't have percent-encoded as UTF-8; the length shown is the URI's.",
    forall="all small edits of four targets x characters outside ASCII x lengths around the limit", over=["inputs"],
    why="Tests give a handful of targets; what's a URI is decided by a grammar and by a conversion that repairs some characters.",
    files=["httplint/message.py", "httplint/util.py", "httplint/syntax/rfc3986.py"], mech=[("set_uri", "httplint/message.py"), ("iri_to_uri", "httplint/util.py"), ("URI", "httplint/syntax/rfc3986.py")],
    oracle="a character-by-character reader written from RFC 3986, Appendix A and B",
),
dict(
    id="D01", title="What's reported about a message depends on that message alone",
    statement="Linting a message gives the same notes and parsed values whatever other messages the process has linted before, or is linting at the same time, and those messages' results don't change afterwards. They don't depend on the order a process happens to keep the members of sets in, either.",
    forall="all small edits of all fields' values x messages linted before, after and in between, with other contexts x interleavings of two messages' steps x set orders", over=["inputs", "histories", "schedules"],
    why="Tests lint one message each and look at it at once; leaks need a second message, and show in the first or later.",
    files=["httplint/message.py", "httplint/field", F + "finder.py", "httplint/note.py"], mech=[("FieldSection, HttpField", "httplint/field"), ("Notes", "httplint/note.py")],
    oracle="the same messages linted in a fresh state",
),
dict(
    id="D02", title="The order of fields with different names doesn't matter",
    statement="Moving a field before or after fields with other names changes neither any field's parsed value nor what's reported: the same notes with the same details, about the same lines. HTTP gives that order no meaning.",
    forall="all small edits of all fields' values x first or last among 17 or 23 others x all fields' examples in rotated and reversed order", over=["inputs"],
    why="Tests have one order each; a check that looks at another field too early works in that order only.",
    files=[F + "section.py", "httplint/message.py", P], mech=[("FieldSection.process", F + "section.py"), ("finish_content, post_check", "httplint/message.py")],
    oracle="the same message in another order",
),
    dict(id="M02", title="Content is decoded as Content-Encoding says, or reported",
         statement="Content in any chunks is decoded through gzip and brotli codings in the reverse of the order they were applied in, and the decoded length and hash are those of the original bytes. Invalid gzip headers, corrupt compressed data and content that decodes to more than 100 MB are reported, once, and decoding stops there; content with an unknown coding isn't decoded.",
         forall="gzip headers with any flags and fields x all codings and orders x divisions into chunks x corruptions of one byte", over=["inputs", "faults"],
         why="Tests decode one valid body at once; decoding is incremental, so headers cut at any byte and errors in later chunks are what matters.",
         files=["httplint/content_encoding.py", "httplint/message.py", F + "content_encoding.py"], mech=[("GzipProcessor.process, _read_gzip_header, BrotliProcessor.process, _setup", "httplint/content_encoding.py")],
         oracle="gzip members written from RFC 1952, with zlib and brotli themselves applied to the whole content"),
    dict(id="P01", title="Cookies are parsed as browsers do, and their problems reported",
         statement="A Set-Cookie's name, value and attributes are those RFC 6265's algorithm gives, and a cookie that it ignores is reported; a Cookie's pairs are those between its semicolons. Insecure, prefixed, partitioned, expired, oversized, duplicated and malformed cookies and attributes are reported for what they are, and nothing else is.",
         forall="all short Set-Cookie values x pairs and triples of all kinds of attribute, in any case x sizes about the limits", over=["inputs", "clock"],
         why="Attributes interact (prefixes with Secure, Path and Domain; SameSite=None and Partitioned with Secure; Max-Age with Expires), and tests have one of each.",
         files=[P + "set_cookie.py"], mech=[("set_cookie.parse, evaluate, loose_parse", P + "set_cookie.py")],
         oracle="the set-cookie-string algorithm of RFC 6265 section 5.2 written anew, and a table of attributes' requirements from RFC 6265bis"),
    dict(id="P02", title="Dates in cookies denote the time RFC 6265 section 5.1.1 gives them",
         statement="An Expires attribute's value denotes the time that the cookie-date algorithm gives it, whatever the order of its parts and the delimiters between them. One that the algorithm doesn't accept is reported, and sets nothing.",
         forall="all digits, months, orders and delimiters x short edits at any place of a date", over=["inputs"],
         why="The algorithm accepts an enormous language (any order, any delimiter); tests sample a few lines of it.",
         files=[P + "set_cookie.py"], mech=[("loose_date_parse", P + "set_cookie.py")], oracle="the algorithm of RFC 6265 section 5.1.1 written anew, with calendar arithmetic from days since 1970"),
    dict(id="P03", title="HSTS policies are judged as browsers apply them",
         statement="Strict-Transport-Security's max-age, includeSubDomains and preload are recognised in any case and order, quoted or not. Missing, malformed, zero, short and duplicated directives, insufficient preload policies, and use over HTTP are reported, and nothing else is.",
         forall="pairs and triples of directives x all short max-ages x layouts, schemes and statuses", over=["inputs"],
         why="Verdicts depend on combinations (preload with both others) and on thresholds of a parsed number.",
         files=[P + "strict_transport_security.py"], mech=[("strict_transport_security.parse, evaluate", P + "strict_transport_security.py")], oracle="a reader of directives written from RFC 6797 section 6.1, and hstspreload.org's requirements"),
    dict(id="P04", title="Range and Content-Range denote the positions they say, or are reported",
         statement="Byte ranges are read with exactly the positions sent; those that end before they start, or can't be read, are reported and dropped. A Content-Range's positions are checked against each other and the length, and against the statuses in which it has a meaning.",
         forall="positions and lengths of many digits x all short edits x all statuses", over=["inputs"],
         why="Comparisons of numbers have boundaries (first = last, last = length) that sampled tests miss.",
         files=[P + "range.py", P + "content_range.py", "httplint/syntax/rfc9110.py"], mech=[("range.parse", P + "range.py"), ("content_range.parse, evaluate", P + "content_range.py")], oracle="the grammar of RFC 9110 section 14 read by other means, and comparison of decimal numbers"),
    dict(id="P05", title="What Content Security Policies allow is reported as browsers read them",
         statement="Policies are split into directives as CSP says, the first of each name counting. Wide-open sources, 'unsafe-inline', 'unsafe-eval', insecure schemes, report-uri, duplicates and undefined endpoints are reported on the field that has them, listing the directives concerned; other values aren't.",
         forall="pairs and triples of directives, in several policies and both fields x short values at any place of a source list", over=["inputs"],
         why="Keywords can hide in other words, other cases and second copies of a directive; tests use one policy each.",
         files=[P + "content_security_policy.py", P + "content_security_policy_report_only.py"], mech=[("parse, evaluate, post_check", P + "content_security_policy.py")], oracle="CSP's policy and source-list parsing written anew"),
    dict(id="P06", title="Negotiation fields have the values they denote, and are judged on them",
         statement="Vary, Accept, Accept-Language, Content-Language and Accept-CH have the members, weights and parameters that were sent, each once where repetition means nothing. Duplicates, faulty weights, `*`, bad media ranges, and client hints that don't work are reported, and nothing else is.",
         forall="lists of arbitrary short names x all short weights x layouts x request targets", over=["inputs"],
         why="Weights and wildcards have boundary values, and repetition can be in any case and any line.",
         files=[P + "vary.py", P + "accept.py", P + "accept_language.py", P + "content_language.py", P + "accept_ch.py", F + "utils.py"], mech=[("parse_qvalue, check_media_type", F + "utils.py"), ("evaluate", P + "vary.py")], oracle="RFC 9110 section 12's grammar and weights, and RFC 8942, written anew"),
    dict(id="P07", title="References (Location, Link, Referer, Content-Disposition) denote what they say",
         statement="Location's absolute form is the URI RFC 3986 gives; a Link's target, parameters and hints are those sent; a Referer's origin is compared by scheme, host and port; a Content-Disposition's file name is what was sent. Problems with each are reported, and nothing else is.",
         forall="all statuses, relative references, pairs of link parameters, origins and ports x short targets, relations and file names", over=["inputs"],
         why="Delimiters inside targets and quoted strings, default ports and letter case are where such code goes wrong.",
         files=[P + "location.py", P + "link.py", P + "referer.py", P + "content_disposition.py", F + "utils.py"], mech=[("location.evaluate", P + "location.py"), ("link.parse, evaluate", P + "link.py"), ("referer.evaluate", P + "referer.py"), ("content_disposition.parse", P + "content_disposition.py")], oracle="RFC 3986's examples, RFC 8288's and RFC 6266's grammars, and RFC 6454's origins"),
    dict(id="P10", title="Codings are compared with those the request accepts",
         statement="Content and transfer codings that a request doesn't accept, by name, weight or `*`, are reported, once each, and others aren't. Available-Dictionary without a dictionary coding in Accept-Encoding, and Use-As-Dictionary's missing or faulty parameters, are reported.",
         forall="pairs and triples of codings in four layouts x all members and weights of Accept-Encoding and TE", over=["inputs"],
         why="The verdict depends on two messages, and on weights of 0 in all their spellings; tests have one coding each.",
         files=[P + "content_encoding.py", P + "transfer_encoding.py", P + "available_dictionary.py", P + "use_as_dictionary.py", F + "utils.py"], mech=[("evaluate", P + "content_encoding.py"), ("evaluate", P + "transfer_encoding.py"), ("coding_requested", F + "utils.py")], oracle="RFC 9110 section 12.5.3's weights, and RFC 9842"),
    dict(id="P09", title="Media types and charsets are judged by name, and against the content",
         statement="Media types and ranges that aren't, or whose names RFC 6838 doesn't allow, are reported in every field that has them. Whole, non-empty content that is sniffed as another type is reported; content that can't be decoded with its declared (or, for JSON, implied) charset, or that is detected with enough confidence as another with different text, is reported, even when its sample ends inside a character; other content isn't.",
         forall="short media types in five fields x declared and sniffed types x charsets (unknown and binary codecs among them), contents and detected encodings x statuses", over=["inputs", "configurations"],
         why="What's reported depends on five conditions at once, and on Python's codecs for names that arrive on the wire.",
         files=["httplint/charset.py", "httplint/content_type.py", F + "utils.py", P + "content_type.py", P + "accept_patch.py", P + "accept_post.py", P + "accept_query.py"], mech=[("verify_charset, _encodings_compatible", "httplint/charset.py"), ("verify_content_type", "httplint/content_type.py"), ("check_media_type", F + "utils.py")],
         oracle="RFC 6838's names and RFC 9110's tokens as other patterns; Python's codecs applied to the whole content"),
    dict(id="P11", title="Framing, sniffing, referrer, resource and site data policies are judged",
         statement="X-Frame-Options, X-Content-Type-Options, Referrer-Policy, Cross-Origin-Resource-Policy and Clear-Site-Data are judged by what browsers make of them: the whole value, in the letter cases they accept, the first or last that applies. Unknown, unquoted, empty and repeated values are reported and named, and nothing else is.",
         forall="short edits at any place of each known value x pairs and triples of values in all layouts", over=["inputs"],
         why="A policy that's reported as protecting when browsers ignore it is the worst outcome, and near misses are countless.",
         files=[P + "x_frame_options.py", P + "x_content_type_options.py", P + "referrer_policy.py", P + "cross_origin_resource_policy.py", P + "clear_site_data.py"], mech=[("evaluate", P)], oracle="tables and selection rules from HTML, Fetch, Referrer Policy and Clear Site Data"),
    dict(id="P12", title="Implementation, timing and hop fields are described by what they say",
         statement="Server, Via, Expect, Max-Forwards, Pragma, Server-Timing, Accept-Ranges, Alt-Svc, Sunset, ETag and Keep-Alive have the members, parameters, strength and text that were sent. Long values, unknown expectations, units and directives, non-numeric durations, missing metrics, misplaced `clear`, ignored fields and past sunsets are reported and named, and nothing else is.",
         forall="pairs and triples of members in all layouts x short durations, methods and entity tags x all times of receipt", over=["inputs", "clock"],
         why="Each is sampled by one or two tests; separators inside strings and comments, letter case and boundaries aren't.",
         files=[P + "server.py", P + "via.py", P + "expect.py", P + "max_forwards.py", P + "pragma.py", P + "server_timing.py", P + "accept_ranges.py", P + "alt_svc.py", P + "sunset.py", P + "etag.py", P + "keep_alive.py", F + "utils.py"], mech=[("parse, evaluate", P), ("parse_params, split_list_field", F + "utils.py")], oracle="tables of members and what they denote, and numbers by another pattern"),
dict(
    id="G01", title="The command line prints the notes about the message it reads",
    statement="Given a complete, well-formed request or response on standard input, the httplint command prints each note's level and summary once (with its child notes), grouped by category, in the chosen locale: the notes that the library gives for the message's first line, fields (without the whitespace around their values), content as its framing delimits it, and trailers. With -n, the exchange is judged as happening now.",
    forall="all one-byte edits of all fields' values x whitespace around them x first lines x content of a few bytes in each framing x options", over=["inputs"],
    why="No test runs the command; it reads messages with another library's parser, so its results rest on how the two fit together.",
    files=["httplint/cli/__init__.py", "httplint/cli/http_parser.py"], mech=[("main", "httplint/cli/__init__.py"), ("HttpCliParser", "httplint/cli/http_parser.py")],
    observe=["standard output"], oracle="the notes of the same message given to the library in parts, and the layout of the output",
),
dict(
    id="F09", title="Notes about a line are attached to it and name its field",
    statement="Notes about a field line have that line's position as their subject, so that they can be shown next to it, and give its field's canonical name. What's said about a line depends on that line alone: not on other lines of the same field before or after it, nor on lines of other fields. Notes that any field can get (bad syntax, repetition, deprecation, the wrong kind of message...) are filed under that field's own category.",
    forall="all one-octet edits of all known fields' values x positions among other lines x the name's case", over=["inputs"],
    why="Tests compare the notes' classes in one-line messages, and never look at subjects, categories or names in text.",
    files=[F + "section.py", F + "list_field.py", F + "broken_field.py", F + "__init__.py", F + "finder.py"], mech=[("FieldSection.process", F + "section.py"), ("handle_input", F + "list_field.py")],
    observe=["notes' subjects and variables"], oracle="the same line sent alone",
),
dict(
    id="U01", title="Durations and times in notes read as what was observed",
    statement="Wherever a note tells a duration (how old a response is, how long it's fresh for or has been stale, each kind of cache's lifetime, how wrong a clock is, how long ago the last change was, how long a cookie lives), the words are those of the actual duration: in the largest unit that it's at least 1.2 of, rounded to the nearest, in the right direction, and beside the right label. A lifetime that ended before it began is given as zero.",
    forall="all intervals of whole seconds within 100 years x ages, lifetimes, dates and clocks within the bounds", over=["inputs", "clock"],
    why="Tests compare note classes, hence never the durations; one test tries eight intervals.",
    files=["httplint/util.py", "httplint/i18n.py", "httplint/cache.py", P + "date.py", P + "last_modified.py", P + "set_cookie.py"],
    mech=[("relative_time", "httplint/util.py"), ("format_timedelta", "httplint/i18n.py"), ("check_age, check_freshness", "httplint/cache.py")],
    observe=["notes' variables"], oracle="inequalities between the number and unit shown and the interval",
),
dict(
    id="U02", title="Texts are in the language that's set, and in English otherwise",
    statement="Inside a set_locale block, words, durations and notes (also those made before it) are in the language of its locale if there's a catalog for it, whatever its region or script; and in English if the name isn't that of a known locale, or none is given. Leaving the block, normally or by an exception, restores what was set before, and exceptions pass through.",
    forall="all sequences of entering and leaving blocks within the bounds x 14 names of locales", over=["inputs", "histories"],
    why="Tests enter one block once.",
    files=["httplint/i18n.py", "httplint/note.py", "httplint/util.py"], mech=[("set_locale, get_translations, format_timedelta", "httplint/i18n.py")],
    observe=["translate()", "notes' summaries"], oracle="the compiled catalogs, read by gettext",
),
dict(
    id="F10", title="Trailers are read as headers are, and change nothing else that's said",
    statement="A field in the trailer section has the value that it would have in the headers, and what's said about its lines and about it is what would be said there. It never changes anything that's said about the rest of the message: the headers (including a field of the same name), the content, or whether the response can be cached and for how long.",
    forall="all one-octet edits of all known fields' values, as trailers of messages with and without the same field in their headers", over=["inputs"],
    why="Tests put one field in a trailer section, and never the same one in both.",
    files=[F + "section.py", F + "finder.py", F + "__init__.py", "httplint/message.py", "httplint/cache.py"], mech=[("FieldSection.process", F + "section.py"), ("HttpMessageLinter.finish_content", "httplint/message.py")],
    observe=["notes", "headers.parsed and trailers.parsed", "the caching results"], oracle="the same message without trailers, and with the line in its headers",
    note="Notes about whole messages (caching, CORS, length, decoding) are only made from headers.",
),
dict(
    id="M06", title="Skipping content, or dividing it differently, changes only what it should",
    statement="In no_content mode, whether content is fed or not, nothing is said about it (its length, presence, type, charset or coding), and everything else is said just as when it's collected. When it is, what's said doesn't depend on how it's divided into chunks, empty ones included.",
    forall="all one-octet edits of all known fields' values, statuses, methods, divisions of six contents", over=["inputs"],
    why="Tests never compare the two modes, nor the same content in several divisions.",
    files=["httplint/message.py", "httplint/content_encoding.py", "httplint/content_type.py", "httplint/charset.py"], mech=[("HttpMessageLinter.feed_content and finish_content", "httplint/message.py"), ("post_checks", "httplint/message.py")],
    observe=["notes", "content_length, content_hash, content_sample and decoded"], oracle="the same message with its content, whole",
),
dict(
    id="S01", title="Finished linters and their notes can be pickled, and copies say the same",
    statement="Whatever message a linter was given (headers, trailers, content with any coding, decodable or not, a related request), once it's finished it can be pickled together with its notes. The unpickled copy has the same notes, parsed values and content results, and pickling changes nothing in the original. Notes are equal when they say the same about the same thing, and only then.",
    forall="all one-octet edits of all known fields' values, six contents with six codings, exchanges with any status", over=["inputs"],
    why="No test pickles a linter; what can't be pickled may be left by one kind of field or content only.",
    files=["httplint/message.py", "httplint/content_encoding.py", F + "section.py", "httplint/note.py"], mech=[("HttpMessageLinter.__getstate__", "httplint/message.py"), ("ContentEncodingProcessor.__getstate__", "httplint/content_encoding.py")],
    observe=["the unpickled linter's notes and values"], oracle="the original; pickle's protocol",
),
    dict(
        id="V01", title="Notes show what they're about, as it was sent",
        statement="Where a note's summary or detail names a member, parameter, directive, cookie, coding, method, origin, URL, size or status of the message, it's the one that the note is about, as it was sent (apart from letter case, where the field normalises it). It isn't another one that stands beside it, and the text isn't cut or changed; notes about policies say whether they're enforced or only reported.",
        forall="the text of the named part, in a message for each note whose text depends on the message, with other parts beside it", over=["inputs"],
        why="The tests assert that a note is added, not what it says; a note that shows the wrong parameter, limit or URL passes them, and misleads whoever acts on it.",
        files=["httplint/note.py", "httplint/message.py", "httplint/cache.py", "httplint/status.py", F + "utils.py", P], mech=[("add_note's variables", P), ("_get_summary, _get_detail", "httplint/note.py")],
        observe=["note.summary", "note.detail"],
        oracle="the table of messages and expected texts in harness/v01.py",
    ),
]

NOT_APPLICABLE = [
    dict(
        id="N01", title="Sniffed and detected encodings reflect the content's real type",
        statement="A mismatch between declared and actual media type or character encoding is reported exactly when the content really has another type or encoding.",
        forall="all contents", why="Statistical detection cannot be settled by examples.",
        files=["httplint/content_type.py", "httplint/charset.py"], mech=[("verify_content_type", "httplint/content_type.py"), ("verify_charset", "httplint/charset.py")],
        reason="The decision is made by statistical/byte-table detection inside third-party libraries (sniffpy, chardet) over thousands of content bytes with floating-point scores; their inner loops are outside what the encoding can carry and there is no specification to compare them with.",
    ),
    dict(
        id="N02", title="Linters can be used from several threads",
        statement="Linting different messages in different threads at the same time gives the same results as linting them one after another.",
        forall="all thread schedules", over=["schedules"], why="Tests are single-threaded.",
        files=["httplint/note.py", "httplint/i18n.py"], mech=[("thread-local Markdown", "httplint/note.py")],
        reason="Interleavings of CPython bytecode, and the C internals of re, zlib, babel and markdown under them, are not encodable here; sharing of state between messages in one thread is decided by D01.",
    ),
]
