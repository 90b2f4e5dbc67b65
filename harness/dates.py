"""HTTP dates with symbolic parts."""
BASE = 1309770000  # Mon, 04 Jul 2011 09:00:00 GMT
D = "0123456789"


def minute_date(inp, name):
    """(field value, seconds since the epoch) of any second of one hour."""
    mm = inp.bytes(name + "_mm", 2, alphabet=D)
    ss = inp.bytes(name + "_ss", 2, alphabet=D)
    inp.assume(mm[0] <= 53)
    inp.assume(ss[0] <= 53)
    return b"Mon, 04 Jul 2011 09:" + mm + b":" + ss + b" GMT", BASE + 60 * int(mm) + int(ss)


def second_date(inp, name, minute=b"08"):
    ss = inp.bytes(name + "_ss", 2, alphabet=D)
    inp.assume(ss[0] <= 53)
    return b"Mon, 04 Jul 2011 09:" + minute + b":" + ss + b" GMT", BASE + 60 * int(minute) + int(ss)
