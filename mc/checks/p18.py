"""Durations: every combination of components, and texts one edit away."""
import collections
import fractions
import itertools

from mc import core, corpus, drv_cpp, drv_go, drv_py, explore, ref

NUM = ["0", "1", "2", "10", "36", "1.5", "0.25", "0.1"]
SEC = ["0", "1", "59", "100", "1.5", "0.25", "0.05", "0.050", "1.0",
       "0.000001", "3.999999", "0.0000005", "0.000000001", "7.123456789",
       "1.0000000001", "0.1234567"]
UNITS = [("Y", NUM), ("Mo", NUM), ("W", NUM), ("D", NUM), ("H", NUM),
         ("M", NUM), ("S", SEC)]
# near the largest counts of nanoseconds, microseconds and days
LARGE = ["P106751D", "P106752D", "-P106751D", "-P106752D", "P106751.5D",
         "PT9223372036S", "PT9223372037S", "PT9223372036.854775807S",
         "PT9223372036.854775808S", "-PT9223372036.854775807S",
         "-PT9223372036.854775808S", "PT9223372036.854775S", "P292Y", "P293Y",
         "P3506M", "P3508M", "P15250W", "P15251W", "PT2562047H",
         "PT2562048H", "PT153722867M", "PT153722868M", "PT9223372035.9S",
         "PT1M9223371976S", "PT1M9223371977S", "P1DT9223285636S",
         "P1DT9223285637S", "P999999999D", "P1000000000D", "-P999999999D",
         "-P999999999DT1S", "P999999999DT23H59M59.999999S",
         "P999999999DT24H", "P2737907Y", "P2737908Y", "PT86399999999999S",
         "PT99999999999999999999S", "P100000000000000000000D"]
EDIT = "PT01.+-YMWDHS, \n\u0661"


def compose(parts, sign=""):
    date = "".join(v + u[0] for u, v in parts if u in ("Y", "Mo", "W", "D"))
    time = "".join(v + u[0] for u, v in parts if u in ("H", "M", "S"))
    return sign + "P" + date + ("T" + time if time else "")


def texts(thorough):
    """All the texts, shortest combinations first, without duplicates."""
    seen = set()
    out = []

    def give(t):
        if t not in seen:
            seen.add(t)
            out.append(t)

    for t in ("P", "PT", "-P", "+P", "", "T", "PT0S", "-PT0S"):
        give(t)
    for n in range(1, 5 if thorough else 4):
        for units in itertools.combinations(UNITS, n):
            for vals in itertools.product(*[
                    v if n < 3 or thorough and n < 4 else v[1::2]
                    for _, v in units]):
                parts = [(u, v) for (u, _), v in zip(units, vals)]
                for sign in ("", "-", "+") if n < 3 else ("", "-"):
                    give(compose(parts, sign))
                if n > 1:
                    # the components out of order
                    give(compose(parts[::-1]))
    for t in LARGE:
        give(t)
    near = ["P1Y", "PT1.5S", "P1DT2H", "-P1M", "PT0.1S", "P1Y2M3W4DT5H6M7.8S",
            "+PT10M", "P0.5W"]
    for t in near:
        for i in range(len(t) + 1):
            for ch in EDIT:
                give(t[:i] + ch + t[i:])
                if i < len(t):
                    give(t[:i] + ch + t[i + 1:])
            if i < len(t):
                give(t[:i] + t[i + 1:])
    return out


def expected(lang, text):
    """None if invalid, else (nanoseconds, tolerance); may be open."""
    r = ref.parse_duration(text)
    if r is None:
        return None
    ns, digits = r
    m = ref._DUR.fullmatch(text)
    inexact = any(m.group(k) and ("." in m.group(k) or k in ("Y", "Mo"))
                  for k in ref.UNIT)
    tol = fractions.Fraction(0)
    if lang == "py":
        if digits > 6:
            return None
        if inexact:
            tol = 1000 + abs(ns) * fractions.Fraction(1, 2**50)
        lo, hi = -999999999 * 86400 * 10**9, 10**9 * 86400 * 10**9 - 1000
    else:
        if digits > 9:
            return None
        if inexact or abs(ns) > 2**53:
            tol = 8 + abs(ns) * fractions.Fraction(1, 2**50)
        lo, hi = -(2**63 - 1), 2**63 - 1
        whole = m.group("S") and len(m.group("S")) > 18
        if whole:
            raise ref.Unspecified("count of seconds out of all the types")
    if abs(ns - lo) <= tol or abs(ns - hi) <= tol:
        raise ref.Unspecified("within the rounding of the limit")
    if not lo <= ns <= hi:
        return None
    return ns, tol


def schemas():
    res = collections.OrderedDict()
    res["dur"] = corpus.schema([
        ("req", corpus.prop({"type": "duration"})),
        ("arr", corpus.prop(corpus.arr({"type": "duration"})))])
    others = [("string", {"pattern": "^P.*$"}), ("path", {}),
              ("date", {}), ("datetime", {}), ("time", {}),
              ("time_zone", {}), ("float", {"minimum": 0.5})]
    full = corpus.schema(
        [("req", corpus.prop({"type": "duration"})),
         ("arr", corpus.prop(corpus.arr({"type": "duration"}))),
         ("opt", corpus.prop({"type": "duration"}, optional=True)),
         ("emb", corpus.prop({"type": "Emb"}, optional=True)),
         ("assoc", corpus.prop(corpus.mp({"type": "duration"}),
                               optional=True))] +
        [("o_" + k, corpus.prop(dict(kw, type=k), optional=True))
         for k, kw in others],
        [corpus.cls("Alpha", [("d", corpus.prop({"type": "duration"}))])],
        [corpus.embed("Emb", [("d", corpus.prop({"type": "duration"}))])])
    n = max(len(explore.CPP_SETTINGS), len(explore.PY_SETTINGS))
    for i in range(n):
        st = explore.CPP_SETTINGS[i % len(explore.CPP_SETTINGS)]
        if core.THOROUGH or st["datetime_library"] == "date.h" or i < 2:
            res["dur_set{}".format(i)] = corpus.with_settings(
                full if i % 2 else res["dur"], cpp=st,
                py=explore.PY_SETTINGS[i % len(explore.PY_SETTINGS)])
    return res


def document(text):
    return {"req": text, "arr": [text, "PT1S"]}


def judge(t, lang, text, a, want):
    t.n["states"] += 1
    t.n["transitions"] += 3
    t.n["traces_validated_against_impl"] += 1
    if a.get("panic"):
        t.fail("dur", lang, "{!r} raised {}".format(text, a["panic"]), text)
        return
    if want is None:
        t.n["rejected"] += 1
        if (lang == "py" and text.endswith("\n") and not a["errors"] and
                expected("py", text[:-1]) is not None):
            t.hits["py-duration-newline"] += 1
            return
        if sorted(a["errors"]) != ["#/arr/0", "#/req"]:
            t.fail("dur", lang, "{!r} has to be rejected, got errors at {}"
                   .format(text, a["errors"]), text, a)
        return
    t.n["accepted"] += 1
    if a["errors"]:
        t.fail("dur", lang, "{!r} is valid, got errors at {}".format(
            text, a["errors"]), text)
        return
    ns, tol = want
    props = a["dump"]["props"]
    got = props["req"]["ns"]
    if got != props["arr"]["list"][0]["ns"] or props["arr"]["list"][1][
            "ns"] != 10**9:
        t.fail("dur", lang, "{!r}: {}".format(text, props), text)
    if abs(got - ns) > tol:
        t.fail("dur", lang, "{!r} is {} ns, not {} ns".format(
            text, got, float(ns)), text)
        return
    j = a.get("json")
    if not isinstance(j, dict):
        t.fail("dur", lang, "{!r} is not serialized: {}".format(
            text, a.get("serpanic") or a.get("sererr")), text)
        return
    r = ref.parse_duration(j["req"]) if isinstance(j["req"], str) else None
    if r is None or r[0] != got:
        t.fail("dur", lang, "{!r} of {} ns is serialized as {!r}".format(
            text, got, j["req"]), text)
    b = a["again"]
    if b.get("panic") or b["errors"] or b["dump"]["props"]["req"] != {
            "ns": got}:
        t.fail("dur", lang, "{!r}, serialized as {!r}, parses back as {}"
               .format(text, j["req"], b.get("errors") or b.get("dump")),
               text)
    t.n["round_trips"] += 1


def _py(args):
    tag, schema, todo = args
    t = explore.Tally()
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    for text in todo:
        try:
            want = expected("py", text)
        except ref.Unspecified:
            t.n["unspecified"] += 1
            continue
        a, g = explore._outcome_py(p, document(text), "#", explore.BIG)
        if g is not None and not a["errors"]:
            try:
                a["json"] = p.serialize(g)
                a["again"], _ = explore._outcome_py(p, a["json"], "#",
                                                    explore.BIG)
            except Exception as e:  # pylint: disable=broad-except
                a["serpanic"] = repr(e)
        judge(t, "py", text, a, want)
        if len(t.bad) > 3:
            break
    p.unload()
    return t


_bundle = None


def _compiled(args):
    lang, tag, todo = args
    t = explore.Tally()
    if tag in _bundle.broken:
        t.fail(tag, "load", _bundle.broken[tag], None)
        return t
    keep = []
    for text in todo:
        try:
            keep.append((text, expected(lang, text)))
        except ref.Unspecified:
            t.n["unspecified"] += 1
    for (text, want), a in zip(keep, _bundle.run(tag, [
            {"op": "rt", "doc": document(x), "ref": "#", "cap": 0}
            for x, _ in keep])):
        judge(t, lang, text, a, want)
    return t


def run(check):
    global _bundle
    todo = texts(core.THOROUGH)
    check.add(texts=len(todo))
    check.sample(todo[1000:1010])
    sch = schemas()
    # all the texts with one schema, and a part with each of the others
    parts = [("dur", todo[i::16]) for i in range(16)]
    parts += [(t, todo[i::1 if core.THOROUGH else 61])
              for i, t in enumerate(sch) if t != "dur"]
    explore.merge(check, core.pmap(_py, [(t, sch[t], p) for t, p in parts]))
    for lang, drv in (("go", drv_go), ("cpp", drv_cpp)):
        _bundle = drv.Bundle(sch)
        explore.merge(check, core.pmap(_compiled, [(lang, t, p) for t, p in parts]))
