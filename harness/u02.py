"""U02: texts are in the language that's set where they're rendered, and in no other."""
import gettext
import os

import httplint.i18n
from harness import lib
from httplint.i18n import format_timedelta, set_locale, translate

LANGUAGES = ("es", "fr", "ja", "zh")
CATALOGS = {}
for _l in LANGUAGES:
    with open(os.path.join(os.path.dirname(httplint.__file__), "translations", _l, "LC_MESSAGES", "messages.mo"), "rb") as _f:
        CATALOGS[_l] = gettext.GNUTranslations(_f)

# locales and what they're rendered in: languages that there's no catalog for, and things that aren't languages, in English
LOCALES = {
    "": "en", "en": "en", "fr": "fr", "es": "es", "ja": "ja", "zh": "zh", "fr_FR": "fr", "es_MX": "es", "zh_Hans_CN": "zh",
    "xx": "en", "fr-FR": "en", "x": "en", "../fr": "en", "frm": "en", "esx": "en", "not a locale": "en",
}
HOURS = {"en": "2 hours", "fr": "2 heures", "es": "2 horas", "ja": "2 時間", "zh": "2小时"}


EMPTY = [v for v in vars(httplint.i18n).values() if isinstance(v, dict) and not v]


def fresh():
    """As if nothing had been rendered before."""
    for d in EMPTY:
        d.clear()


def look(chk, r, current):
    want = LOCALES[current]
    for word in ("ahead", "Caching"):
        chk.eq(translate(word), CATALOGS[want].gettext(word) if want in CATALOGS else word, "words are in the language set", locale=current)
    chk.eq(format_timedelta(7200).replace("\xa0", " "), HOURS[want], "durations are in the language set", locale=current)
    n = lib.find(r, "FRESHNESS_FRESH")
    text = CATALOGS[want].gettext(n._summary) if want in CATALOGS else n._summary
    chk.eq(n.summary.replace("\xa0", " "), text.replace("%(freshness_left)s", HOURS[want]), "notes are rendered in the language set", locale=current)
    chk.reach(want)


def nested(inp, chk, names, ops):
    """Any blocks within blocks, left normally or by an exception."""
    fresh()
    r = lib.response([(b"Cache-Control", b"max-age=7200")])
    stack, blocks = [""], []
    look(chk, r, "")
    for i in range(ops):
        op = inp.choice("op" + str(i), ["enter", "leave", "raise"])
        if op == "enter":
            name = inp.choice("locale" + str(i), names)
            block = set_locale(name)
            block.__enter__()
            blocks.append(block)
            stack.append(name or "")
        elif blocks:
            block = blocks.pop()
            stack.pop()
            if op == "leave":
                block.__exit__(None, None, None)
            else:
                problem = ValueError("x")
                swallowed = block.__exit__(ValueError, problem, None)
                chk(not swallowed, "exceptions aren't swallowed")
                chk.reach("raised")
        look(chk, r, stack[-1])
    while blocks:
        block = blocks.pop()
        stack.pop()
        block.__exit__(None, None, None)
        look(chk, r, stack[-1])
    chk.reach("nested")


def tasks(tier):
    out = [dict(func="nested", params=dict(names=["fr", "zh", None], ops=4 if tier == "quick" else 5), weight=9)]
    for name in sorted(LOCALES):
        base = [l for l in LANGUAGES if l in name and l != name]
        if base:
            out.append(dict(func="nested", params=dict(names=[base[0], name], ops=3)))
        out.append(dict(func="nested", params=dict(names=[name, "es"], ops=2 if tier == "quick" else 3)))
    return out


BOUNDS = {
    "quick": "any 4 entries into and exits from blocks with three locales, and any 2 with each of 16 locales and another, or 3 if its name contains the other's; exits by exceptions too",
    "thorough": "any 5 and 3",
}
OUTSIDE = "the translations' accuracy; languages that durations can be told in but there is no catalog for; other threads' and tasks' locales"
ASSUMPTIONS = ["the locales are the listed ones: catalogs are files, so names aren't symbolic"]
BUDGET = {"quick": 60, "thorough": 600}
CONTINUE = True
MUST_REACH = ["en", "fr", "es", "ja", "zh", "nested", "raised"]
