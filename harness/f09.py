"""F09: what's said about a line is attached to it, names its field, and doesn't depend on the other lines."""
from harness import lib, seeds
from harness.d01 import plain
from harness.f04 import REQ
from harness.fields import KNOWN

WIRE = {"FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING"}  # these use the name as received
# notes that any field can get, which have no category of their own
GENERIC = {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED", "SINGLE_HEADER_REPEAT", "DUPLICATE_KEY", "BAD_JSON", "STRUCTURED_FIELD_PARSE_ERROR", "BAD_DATE_SYNTAX", "DATE_OBSOLETE",
           "FIELD_DEPRECATED", "RESPONSE_HDR_IN_REQUEST", "REQUEST_HDR_IN_RESPONSE"}
ANY = [c for c in range(256) if c not in (0, 10, 13)]


def send(name, fields):
    return lib.request(fields) if name in REQ else lib.response(fields)


def said(r, subject, canonical):
    """What's said about a line."""
    out = []
    for n in r.notes:
        if n.subject == subject:
            out.append([type(n).__name__, [[k, plain(n.vars[k])] for k in sorted(n.vars)], [type(s).__name__ for s in n.subnotes]])
    return out


def filed(chk, r, name, n):
    category = r.headers.handlers[name].category.name
    chk.eq(n.category.name, category, "notes that have no category of their own are filed under their field's", note=type(n).__name__)
    chk.reach("generic")
    chk.reach(category)


def misplaced(inp, chk, name, k, case):
    """A field in the other kind of message."""
    canonical = KNOWN[name]
    wire = {"lower": name, "upper": name.upper(), "canonical": canonical}[case].encode()
    v = (seeds.REQUEST.get(name) or seeds.RESPONSE[name])[0][:3] + inp.bytes("w", 1, alphabet=ANY)
    fields = [(b"X-A", b"1")] * k + [(wire, v)]
    r = lib.response(fields) if name in REQ else lib.request(fields)
    for n in r.notes:
        if type(n).__name__ in GENERIC:
            chk.eq(n.vars["field_name"], canonical, "notes name the field they're about")
            if "_HDR_IN_" in type(n).__name__ or n.subject != "field-" + name:
                chk.eq(n.subject, "offset-" + str(k), "notes about lines are attached to the lines that they're about")
            filed(chk, r, name, n)


def lines(inp, chk, name, k, edits, case):
    """Lines with a field's values, with others in between."""
    canonical = KNOWN.get(name, name)
    wire = {"lower": name, "upper": name.upper(), "canonical": canonical}[case].encode()
    values = seeds.REQUEST.get(name) or seeds.RESPONSE[name]
    fields, mine = [(b"X-A", b"1")], []
    for j, (i, delete, insert) in enumerate(edits):
        v = values[(k + j) % len(values)]
        v = v[:i] + inp.bytes("w" + str(j), insert, alphabet=ANY) + v[i + delete:]
        mine.append((len(fields), v))
        fields = fields + [(wire, v), (b"X-B", b"2")]
    r = send(name, fields)
    subjects = ["offset-" + str(i) for i, v in mine]
    for n in r.notes:
        if n.subject[:7] == "offset-":
            chk(n.subject in subjects, "notes about lines are attached to the lines that they're about")
        if n.subject in subjects or n.subject == "field-" + name:
            if "field_name" in n.vars and type(n).__name__ not in WIRE:
                if name in KNOWN:
                    chk.eq(n.vars["field_name"], canonical, "notes name the field they're about")
                else:
                    chk.eq(n.vars["field_name"].lower(), name, "notes name the field they're about")
            if type(n).__name__ in GENERIC:
                filed(chk, r, name, n)
    for (i, v), subject in zip(mine, subjects):
        alone = send(name, [(wire, v)])
        chk.eq(said(r, subject, canonical), said(alone, "offset-0", canonical), "what's said about a line doesn't depend on others")
        if said(r, subject, canonical):
            chk.reach("line")
    chk.reach("field")


def many(inp, chk, name, k, before, count):
    """Many lines with the field, and many others before them."""
    canonical = KNOWN.get(name, name)
    values = seeds.REQUEST.get(name) or seeds.RESPONSE[name]
    at = inp.choice("at", sorted({0, count // 2, count - 1}))
    v = values[k]
    v = v[:len(v) // 2] + inp.bytes("w", 1, alphabet=ANY) + v[len(v) // 2 + 1:]
    mine = [values[(k + 1 + j) % len(values)] for j in range(count)]
    mine[at] = v
    fields = [(b"X-" + str(j).encode(), b"1") for j in range(before)] + [(name.encode(), x) for x in mine]
    r = send(name, fields)
    for n in r.notes:
        if n.subject[:7] == "offset-":
            i = int(n.subject[7:])
            chk(i >= before and i < before + count, "notes about lines are attached to the lines that they're about")
        if (n.subject[:7] == "offset-" or n.subject == "field-" + name) and "field_name" in n.vars and type(n).__name__ not in WIRE and name in KNOWN:
            chk.eq(n.vars["field_name"], canonical, "notes name the field they're about")
    subject = "offset-" + str(before + at)
    chk.eq(said(r, subject, canonical), said(send(name, [(name.encode(), v)]), "offset-0", canonical), "what's said about a line doesn't depend on others")
    chk.reach("many")


def tasks(tier):
    out = []
    deep = tier != "quick"
    for x, name in enumerate(sorted(set(seeds.REQUEST) | set(seeds.RESPONSE))):
        values = seeds.REQUEST.get(name) or seeds.RESPONSE[name]
        for k, v in enumerate(values):
            nxt = values[(k + 1) % len(values)]
            case = ("lower", "upper", "canonical")[(x + k) % 3]
            for i in range(0, len(v) + 1) if deep else sorted({0, len(v) // 2, len(v) - 1}):
                out.append(dict(func="lines", params=dict(name=name, k=k, edits=[[i, 1, 1], [len(nxt) // 2, 0, 0]], case=case)))
                if deep and i % 3 == 0:
                    out.append(dict(func="lines", params=dict(name=name, k=k, edits=[[len(v) // 2, 0, 0], [i % (len(nxt) + 1), 1, 1], [0, 0, 0]], case=case)))
        for before, count in ([[(0, 24), (30, 3)][x % 2]] if not deep else [(0, 24), (30, 3), (120, 12), (0, 110)]):
            out.append(dict(func="many", params=dict(name=name, k=x % len(values), before=before, count=count)))
        if name in KNOWN:
            for k in (0, 2):
                out.append(dict(func="misplaced", params=dict(name=name, k=k, case=("lower", "upper", "canonical")[(x + k // 2) % 3])))
    return out


BOUNDS = {
    "quick": "2 lines of each known field with 1 arbitrary octet (1..255 less CR) in the first, at 3 places in each skeleton value; other lines in between; the name in lower, upper or canonical case; each field in the other kind of message; 24 lines of half of the fields, and 3 after 30 other lines of the rest, with an arbitrary octet in the first, middle or last",
    "thorough": "the same, with the arbitrary octet at each place, and 3 lines with it in the second at each third place; up to 110 lines of each field, and 12 after 120 others",
}
OUTSIDE = "notes about the whole field (subject field-NAME), which P01 and P09 decide; values with several arbitrary octets; trailers"
ASSUMPTIONS = []
BUDGET = {"quick": 60, "thorough": 600}
CONTINUE = True
MUST_REACH = ["line", "field", "many", "generic", "SECURITY", "CACHING", "COOKIES", "CONNEG", "VALIDATION", "RANGE", "CORS"]
