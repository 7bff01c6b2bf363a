"""Exhaustive enumeration of documents of a schema around a valid base.

Every position of a document has a base value (cost 0) and a finite alphabet
of alternatives (cost 1 each): other valid values, boundary values, values of
the wrong kind, absent keys, additional keys, dangling references.
``documents(model, k)`` yields every document that deviates from the base
document in at most ``k`` positions.
"""
import collections
import math

MISSING = object()

WRONG = [None, True, False, 0, 7, -3, 1.5, "", "not a value", [], {}, [1],
         {"a": 1}, "#"]

# texts matching and not matching the patterns used in the corpus
PATTERNS = {
    r"^[a-z]+$": (["abc", "z"], ["ABC", "a1", "a b", "\u00e9"]),
    r"^[a-z]{2,3}$": (["ab", "abc"], ["a", "abcd", "AB"]),
    r"^(foo|bar)\.baz$": (["foo.baz", "bar.baz"], ["foo-baz", "qux.baz"]),
    r'^"quoted"$': (['"quoted"'], ["quoted", "'quoted'"]),
    r"^it's$": (["it's"], ["its", 'it"s']),
    r"^a/b$": (["a/b"], ["a.b", "ab"]),
    r"^\\$": (["\\"], ["/", "\\\\"]),
    r"^[^%]*100%$": (["100%", "a 100%"], ["100", "%100"]),
    r"^\{x\}$": (["{x}"], ["x", "{y}"]),
    r"^/[a-zA-Z]+$": (["/abc", "/Z"], ["abc", "/a1", "/", "/a/b"]),
    r"^I[0-9]+$": (["I1", "I23"], ["1", "i1", "J1", "I"]),
    r"^[0-9]+$": (["1", "23"], ["x", "-1", "1x"]),
    r"^%s%d%%$": (["%s%d%%"], ["%s", "%d%%", "x"]),
    r"^\{\}$": (["{}"], ["{", "{0}", "x"]),
    r"^\{0\}a\{x!r\}$": (["{0}a{x!r}"], ["{0}", "a", "0ax"]),
    r'^"a"$': (['"a"'], ["a", "'a'"]),
    r"^'b'$": (["'b'"], ["b", '"b"']),
    r"^`c`$": (["`c`"], ["c", "'c'"]),
    "^\u00e4$": (["\u00e4"], ["a", "\u00e4\u00e4"]),
    r"^\?\?/$": (["??/"], ["\\", "?/"]),
    r"^a b$": (["a b"], ["ab", "a  b"]),
}

DATES = {
    "%Y-%m-%d": (["2016-07-23", "1999-12-31", "2000-02-29"],
                 ["2016-13-01", "2016-00-10", "2016-01-32", "16-01-01",
                  "2016/07/23", "2016-07-23x", "x2016-07-23",
                  "2016-07-23T00:00:00Z", "2015-02-29", "2016-02-30"]),
    "%d/%m/%Y": (["23/07/2016", "29/02/2000"],
                 ["32/07/2016", "23/13/2016", "2016-07-23", "23/07/2016 "]),
    "%d.%m.%y": (["23.07.16", "01.12.99"],
                 ["23.07.2016", "00.07.16", "23.07"]),
    "%B %d, %Y": (["July 23, 2016", "May 01, 2001"],
                  ["Foo 23, 2016", "July 23 2016"]),
    "%d %b %Y": (["23 Jul 2016", "31 Dec 1999"],
                 ["23 Xyz 2016", "Jul 23 2016"]),
    "%Y%%%m%%%d": (["2016%07%23"], ["2016-07-23", "2016%%07%%23"]),
    "%Y-%m": (["2016-07", "1999-12"], ["2016", "2016-07-23", "2016-13"]),
    "'%Y'": (["'2016'"], ["2016", '"2016"']),
    "{%Y}": (["{2016}"], ["2016", "(2016)"]),
    '"%Y"': (['"2016"'], ["2016", "'2016'"]),
    "%Y\\%m": (["2016\\07"], ["2016/07"]),
}
DATETIMES = {
    "%Y-%m-%dT%H:%M:%SZ": (
        ["2016-07-23T01:02:03Z", "1999-12-31T23:59:59Z",
         "2000-02-29T00:00:00Z"],
        ["2016-07-23", "2016-07-23T24:00:00Z", "2016-07-23T23:60:00Z",
         "2016-07-23T01:02:03", "2016-07-23 01:02:03Z",
         "2015-02-29T00:00:00Z", "2016-07-23T01:02:03Zx"]),
    "%Y/%m/%d %H:%M:%S": (
        ["2016/07/23 01:02:03", "1999/12/31 23:59:59"],
        ["2016-07-23T01:02:03Z", "2016/07/23 01:02"]),
    "%Y-%m-%d %I:%M:%S %p": (
        ["2016-07-23 12:02:03 AM", "2016-07-23 12:02:03 PM",
         "2016-07-23 11:59:59 PM"],
        ["2016-07-23 13:02:03 AM", "2016-07-23 01:02:03"]),
    "%d %b %Y %H.%M": (["23 Jul 2016 01.02"], ["23 Jul 2016"]),
}
TIMES = {
    "%H:%M:%S": (["01:02:03", "23:59:59", "00:00:00"],
                 ["24:00:00", "12:60:00", "12:00", "120000",
                  "01:02:03Z", "x01:02:03"]),
    "%H:%M": (["01:02", "23:59"], ["24:00", "01:02:03", "0102"]),
    "%I:%M %p": (["12:00 AM", "12:30 PM", "11:59 PM", "01:00 AM"],
                 ["13:00 AM", "00:30 PM", "11:59", "11:59 XM"]),
    "%H%M%S": (["010203", "235959"], ["010203a", "01:02:03"]),
    "%Hh%M": (["01h02"], ["01:02", "01h"]),
}
DURATIONS = (
    ["P1DT2H3M4S", "PT0S", "P2W", "PT1M", "-P1D", "+PT36H", "P1Y", "P6M",
     "PT0.5S", "PT1.000001S", "P1M", "P0.5D", "P1Y2M3W4DT5H6M7.25S", "PT0.1S",
     "-PT0.000001S", "PT59.999999S", "P10675D", "P0.25W", "PT1.5H"],
    ["1D", "P1", "PD", "P-1D", "P1H", "P01D", "PT1.S", "P1D2H", "P1S",
     "--P1D", "P1DT1D", " P1D", "P1D ", "p1d", "PT1S1M"])


def _uniq(values):
    out = []
    for v in values:
        if not any(type(v) is type(o) and v == o for o in out):
            out.append(v)
    return out


def leaf_values(t):
    """(base, alternatives) of a leaf type."""
    kind = t["type"]
    if kind == "boolean":
        return True, [False]
    if kind == "integer":
        vals = [0, 1, -1, 5, 2**31, -2**31 - 1]
        lo, hi = t.get("minimum"), t.get("maximum")
        if lo is not None or hi is not None:
            vals = []
            for b in (lo, hi):
                if b is not None:
                    vals += [b, b - 1, b + 1, -b]
            ok = [v for v in vals if _inside(t, v)]
            base = ok[-1] if ok else (lo if lo is not None else hi) + 1
            return base, vals + [10**6, -10**6]
        return 3, vals
    if kind == "float":
        lo, hi = t.get("minimum"), t.get("maximum")
        if lo is not None or hi is not None:
            vals = []
            for b in (lo, hi):
                if b is not None and abs(b) > 2**53:
                    vals += [float(b), math.nextafter(b, math.inf),
                             math.nextafter(b, -math.inf), -float(b), 0]
                elif b is not None and abs(b) < 1e-3:
                    vals += [b, math.nextafter(b, 1), math.nextafter(b, -1),
                             -b, 0]
                elif b is not None:
                    vals += [b, b - 0.25, b + 0.25, int(b), int(b) + 1,
                             int(b) - 1]
            ok = [v for v in vals if _inside(t, v)]
            return float(ok[0]), vals + [1e6, -1e6]
        return 1.5, [0, -1, 0.1, 1e300, -2.5, 2**40]
    if kind in ("string", "path"):
        if t.get("pattern") is not None:
            ok, bad = PATTERNS[t["pattern"]]
            return ok[0], ok[1:] + bad + [""]
        if kind == "path":
            return "/some/path", ["a", "a/b.c", "/", "\u00e9"]
        return "some text", ["", "x\"y", "it's", "\u043a\u043b\u044e\u0447",
                             "a\nb", "a\\b", "{}%s", " "]
    for k, table in (("date", DATES), ("datetime", DATETIMES),
                     ("time", TIMES)):
        if kind == k:
            default = {"date": "%Y-%m-%d", "datetime": "%Y-%m-%dT%H:%M:%SZ",
                       "time": "%H:%M:%S"}[k]
            ok, bad = table[t.get("format", default)]
            return ok[0], ok[1:] + bad
    if kind == "time_zone":
        return "Europe/Zurich", ["UTC", "America/New_York",
                                 "Nowhere/Atlantis", "bogus zone"]
    if kind == "duration":
        return DURATIONS[0][0], DURATIONS[0][1:] + DURATIONS[1]
    raise AssertionError(kind)


def _inside(t, v):
    lo, hi = t.get("minimum"), t.get("maximum")
    if lo is not None and (v < lo or (t.get("exclusive_minimum")
                                      and v == lo)):
        return False
    if hi is not None and (v > hi or (t.get("exclusive_maximum")
                                      and v == hi)):
        return False
    return True


ODD_KEYS = ["", "it's", "a/b", "k\"q", "\u043a\u043b\u044e\u0447", "{}",
            "%s", "a\nb", "id"]


class Docs:
    def __init__(self, model, k, skip=None, lean=False, links=False):
        # With ``links`` only the references, the sizes and the presence of
        # values vary, so that a larger k is affordable.
        self.links = links
        self.wrong = [] if links else WRONG
        self.odd = [] if links else ODD_KEYS
        lean = lean or links
        self.m = model
        self.k = k
        self.skip = skip or (lambda v: False)
        self.lean = lean
        self.memo = {}
        self.nodes = 0
        # Base identifiers of the classes overlap partly so that an identifier
        # of another class is a tempting wrong answer.
        self.ids = {}
        for i, c in enumerate(model.classes.values()):
            if c.id_pattern is not None:
                self.ids[c.name] = PATTERNS[c.id_pattern][0][:2]
            else:
                self.ids[c.name] = [["a", "b"], ["b", "c"], ["c", "a"],
                                    ["b", "d"]][i % 4]

    def all_ids(self):
        res = []
        for ids in self.ids.values():
            res += ids
        return _uniq(res)

    # Every helper returns a list of (cost, value) with cost <= k.

    def value(self, t, k, depth=0):
        key = (id(t), k, depth)
        if key in self.memo:
            return self.memo[key]
        kind = t["type"]
        if kind in self.m.classes:
            ids = self.ids[kind]
            res = [(0, ids[0])]
            if k >= 1:
                alts = [i for i in self.all_ids() if i != ids[0]]
                res += [(1, v) for v in _uniq(alts + ["zz"] + self.wrong)
                        if v != ids[0]]
        elif kind in self.m.embeds:
            res = self.composite(self.m.embeds[kind], k, depth + 1)
        elif kind == "array":
            res = self.array(t, k, depth)
        elif kind == "map":
            res = self.mapping(t, k, depth)
        else:
            base, alts = leaf_values(t)
            if self.links:
                alts = []
            res = [(0, base)]
            if k >= 1:
                res += [(1, v) for v in _uniq(alts + self.wrong)
                        if not (type(v) is type(base) and v == base)]
        res = [(c, v) for c, v in res if not self.skip(v)]
        self.memo[key] = res
        return res

    def array(self, t, k, depth):
        if depth >= 2 and not t.get("minimum_size"):
            return [(0, [])]
        lo, hi = t.get("minimum_size"), t.get("maximum_size")
        n0 = 2
        if lo is not None:
            n0 = max(n0, lo)
        if hi is not None:
            n0 = min(n0, hi)
        lens = {0, 1, 2, 3}
        for b in (lo, hi):
            if b is not None:
                lens |= {b - 1, b, b + 1}
        res = self.seq(t["values"], n0, k, depth)
        if k >= 1:
            for n in sorted(x for x in lens if x >= 0 and x != n0):
                res += [(c + 1, v) for c, v in
                        self.seq(t["values"], n, k - 1, depth)]
            res += [(1, v) for v in self.wrong if not isinstance(v, list)]
        return res

    def seq(self, t, n, k, depth):
        if n == 0:
            return [(0, [])]
        acc = [(0, [])]
        elems = self.value(t, k, depth)
        for _ in range(n):
            acc = [(c + d, v + [e]) for c, v in acc for d, e in elems
                   if c + d <= k]
        return acc

    def keyed(self, t, keys, k, depth):
        acc = [(0, {})]
        elems = self.value(t, k, depth)
        for key in keys:
            acc = [(c + d, _with(v, key, e)) for c, v in acc
                   for d, e in elems if c + d <= k]
        return acc

    def mapping(self, t, k, depth):
        if depth >= 2:
            return [(0, {})]
        t = t["values"]
        res = self.keyed(t, ["x", "y"], k, depth)
        if k >= 1:
            res.append((1, {}))
            res += [(c + 1, v) for c, v in
                    self.keyed(t, ["x"], k - 1, depth)]
            for key in self.odd if depth == 0 else self.odd[:2]:
                res += [(c + 1, v) for c, v in
                        self.keyed(t, ["y", key, "b"], 0, depth)]
            # an invalid item under an odd key
            if k >= 2:
                for key in self.odd:
                    res += [(2, {"y": base, key: bad})
                            for base in [self.value(t, 0, depth)[0][1]]
                            for c, bad in self.value(t, 1, depth) if c == 1]
            res += [(1, v) for v in self.wrong if not isinstance(v, dict)]
        return res

    def composite(self, comp, k, depth=0):
        if depth > 4:
            return [(0, {})]
        key = (id(comp), k, "c", depth)
        if key in self.memo:
            return self.memo[key]
        acc = [(0, {})]
        for p in comp.props:
            if p.optional and depth >= 2 and p.type["type"] in self.m.embeds:
                opts = [(0, MISSING)]
            else:
                opts = list(self.value(p.type, k, depth))
            if k >= 1 and not any(o[1] is MISSING for o in opts):
                opts.append((1, MISSING))
            acc = [(c + d, v if e is MISSING else _with(v, p.json, e))
                   for c, v in acc for d, e in opts if c + d <= k]
            self.nodes += len(acc)
        if k >= 1 and not self.lean:
            base = acc[0][1]
            acc.append((1, _with(base, "unheard_of", 1)))
            for p in comp.props:
                if p.name != p.json:
                    # the property under its own, not its JSON, name
                    other = dict(base)
                    if p.json in other and p.name not in other:
                        other[p.name] = other.pop(p.json)
                        acc.append((1, other))
            if comp.kind != "graph" and depth > 0:
                acc += [(1, v) for v in self.wrong if not isinstance(v, dict)]
        self.memo[key] = acc
        return acc

    def registry(self, cls, k):
        res = [(0, [])]
        comps = self.composite(cls, k, 1)
        ids = self.ids[cls.name]
        acc = [(0, {})]
        for id_ in ids:
            acc = [(c + d, _with(v, id_, e)) for c, v in acc
                   for d, e in comps if c + d <= k]
        res = acc
        if k >= 1:
            base = comps[0][1]
            res.append((1, {}))
            res += [(c + 1, {ids[0]: v}) for c, v in comps if c + 1 <= k]
            if cls.id_pattern is None:
                others = [i for i in self.all_ids() + self.odd
                          if i not in ids]
            else:
                ok, bad = PATTERNS[cls.id_pattern]
                others = ok[2:] + bad + [""]
            for o in _uniq(others):
                res.append((1, {ids[0]: base, o: base, ids[1]: base}
                            if len(ids) > 1 else {ids[0]: base, o: base}))
            if k >= 2:
                for o in _uniq(others):
                    for c, v in comps:
                        if c == 1:
                            res.append((2, {o: v, ids[0]: base}))
            res += [(1, v) for v in self.wrong if not isinstance(v, dict)]
        return [(c, v) for c, v in res if c <= k]

    def documents(self):
        acc = [(0, {})]
        k = self.k
        for cls in self.m.classes.values():
            opts = list(self.registry(cls, k))
            if k >= 1:
                opts.append((1, MISSING))
            acc = [(c + d, v if e is MISSING else _with(v, cls.registry, e))
                   for c, v in acc for d, e in opts if c + d <= k]
        comps = self.composite(self.m.graph, k)
        for c, v in acc:
            for d, p in comps:
                if c + d <= k:
                    doc = dict(v)
                    doc.update(p)
                    yield doc
        if k >= 1:
            for w in self.wrong:
                if not isinstance(w, dict):
                    yield w
            # registries after the properties, reversed class order
            base_v, base_p = acc[0][1], comps[0][1]
            doc = dict(base_p)
            for key in reversed(list(base_v)):
                doc[key] = base_v[key]
            yield doc


def _with(mapping, key, value):
    res = dict(mapping)
    res[key] = value
    return res
