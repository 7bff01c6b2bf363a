"""Reference semantics of mapry schemas and documents.

Written from the documentation, working directly on the raw schema mapping:
nothing here is imported from mapry.  ``parse`` interprets a document under a
schema for one target language and yields either the object graph it must
produce or the list of errors it must report; ``check_serialized`` decides
whether a JSON value is a correct serialization of an object graph.
"""
import collections
import fractions
import pathlib
import re

DEFAULT_FORMAT = {
    "date": "%Y-%m-%d",
    "datetime": "%Y-%m-%dT%H:%M:%SZ",
    "time": "%H:%M:%S",
}
LEAVES = ("boolean", "integer", "float", "string", "path", "date", "datetime",
          "time", "time_zone", "duration")


class Unspecified(Exception):
    """The documentation leaves the outcome open for this input."""


class Prop:
    def __init__(self, name, mapping):
        self.name = name
        self.json = mapping.get("json", name)
        self.optional = bool(mapping.get("optional", False))
        self.type = mapping


class Comp:
    def __init__(self, mapping, kind):
        self.kind = kind
        self.mapping = mapping
        self.name = mapping["name"]
        self.props = [Prop(n, p)
                      for n, p in mapping.get("properties", {}).items()]
        if kind == "class":
            self.plural = mapping.get("plural") or default_plural(self.name)
            self.registry = self.plural.lower()
            self.id_pattern = mapping.get("id_pattern")


IRREGULAR = {"criterion": "criteria", "minimum": "minima",
             "maximum": "maxima", "matrix": "matrices", "life": "lives",
             "focus": "foci"}


def default_plural(name):
    head, _, last = name.rpartition("_")
    for k, v in IRREGULAR.items():
        if last in (k, k.capitalize()):
            if last != k:
                v = v.capitalize()
            return (head + "_" if head else "") + v
    if last.endswith("y") and not re.search(r"[aeiou]y$", last):
        return name[:-1] + "ies"
    if last.endswith("x") or last.endswith("s"):
        return name + "es"
    return name + "s"


class Model:
    def __init__(self, mapping):
        self.mapping = mapping
        self.name = mapping["name"]
        self.graph = Comp(mapping, "graph")
        self.classes = collections.OrderedDict(
            (c["name"], Comp(c, "class")) for c in mapping.get("classes", []))
        self.embeds = collections.OrderedDict(
            (c["name"], Comp(c, "embed")) for c in mapping.get("embeds", []))

    def composites(self):
        return ([self.graph] + list(self.classes.values()) +
                list(self.embeds.values()))


# --- naming -----------------------------------------------------------------

def ucamel(name):
    return "".join(p[0].upper() + p[1:] for p in name.split("_") if p)


def lower(name):
    return name.lower()


# --- dates ------------------------------------------------------------------

MONTHS = ["January", "February", "March", "April", "May", "June", "July",
          "August", "September", "October", "November", "December"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday",
        "Sunday"]

STRICT = {
    "%Y": r"(?P<Y>[0-9]{4})",
    "%y": r"(?P<y>[0-9]{2})",
    "%m": r"(?P<m>0[1-9]|1[0-2])",
    "%d": r"(?P<d>0[1-9]|[12][0-9]|3[01])",
    "%e": r"(?P<d> [1-9]|[12][0-9]|3[01])",
    "%H": r"(?P<H>[01][0-9]|2[0-3])",
    "%I": r"(?P<I>0[1-9]|1[0-2])",
    "%l": r"(?P<I> [1-9]|1[0-2])",
    "%M": r"(?P<M>[0-5][0-9])",
    "%S": r"(?P<S>[0-5][0-9])",
    "%p": r"(?P<p>AM|PM)",
    "%P": r"(?P<p>am|pm)",
    "%b": "(?P<b>" + "|".join(x[:3] for x in MONTHS) + ")",
    "%B": "(?P<B>" + "|".join(MONTHS) + ")",
    "%a": "(?P<a>" + "|".join(x[:3] for x in DAYS) + ")",
    "%A": "(?P<A>" + "|".join(DAYS) + ")",
    "%%": "%",
}
# What some platform's strptime may accept on top of the strict form.
LENIENT = {
    "%Y": r"[0-9]{1,4}", "%y": r"[0-9]{1,4}", "%m": r"\s*[0-9]{1,2}",
    "%d": r"\s*[0-9]{1,2}", "%e": r"\s*[0-9]{1,2}", "%H": r"\s*[0-9]{1,2}",
    "%I": r"\s*[0-9]{1,2}", "%l": r"\s*[0-9]{1,2}", "%M": r"\s*[0-9]{1,2}",
    "%S": r"\s*[0-9]{1,2}([.,][0-9]+)?", "%p": r"(?i:am|pm)",
    "%P": r"(?i:am|pm)", "%b": r"[A-Za-z]{3,9}", "%B": r"[A-Za-z]{3,9}",
    "%a": r"[A-Za-z]{3,9}", "%A": r"[A-Za-z]{3,9}", "%%": "%",
    "%z": r"[-+Z0-9:]+", "%Z": r"[A-Za-z/_]+",
}


def tokens(fmt):
    """Split a format into directives and literal characters."""
    res, i = [], 0
    while i < len(fmt):
        if fmt[i] == "%":
            res.append(fmt[i:i + 2])
            i += 2
        else:
            res.append(fmt[i])
            i += 1
    return res


_rx = {}


def _compiled(fmt):
    if fmt not in _rx:
        strict, lenient = [], []
        seen = set()
        ok = True
        for t in tokens(fmt):
            if len(t) == 2:
                s = STRICT.get(t)
                if s is None:
                    ok = False
                else:
                    m = re.match(r"\(\?P<(\w)>", s)
                    if m and m.group(1) in seen:
                        s = "(?:" + s[len(m.group(0)):]
                    elif m:
                        seen.add(m.group(1))
                    strict.append(s)
                lenient.append(LENIENT[t])
            else:
                strict.append(re.escape(t))
                lenient.append(r"\s*" if t.isspace() else
                               r"\s*" + re.escape(t))
        _rx[fmt] = (re.compile("".join(strict)) if ok else None,
                    re.compile("".join(lenient) + r"\s*", re.I))
    return _rx[fmt]


def mdays(y, m):
    if m == 2:
        return 29 if (y % 4 == 0 and y % 100 != 0) or y % 400 == 0 else 28
    return 30 if m in (4, 6, 9, 11) else 31


def parse_time(fmt, text):
    """Fields of ``text`` under ``fmt``; None if no parser may accept it."""
    strict, lenient = _compiled(fmt)
    m = strict.fullmatch(text) if strict else None
    if m is None:
        if lenient.fullmatch(text):
            raise Unspecified(fmt + " vs " + text)
        return None
    g = m.groupdict()
    f = {}
    if g.get("Y"):
        f["Y"] = int(g["Y"])
        if f["Y"] < 1000:
            raise Unspecified("small year")
    elif g.get("y"):
        f["Y"] = int(g["y"]) + (1900 if int(g["y"]) >= 69 else 2000)
    for k in ("b", "B"):
        if g.get(k):
            f["m"] = [x[:3] for x in MONTHS].index(g[k][:3]) + 1
    if g.get("m"):
        f["m"] = int(g["m"])
    if g.get("d"):
        f["d"] = int(g["d"])
    if g.get("H"):
        f["H"] = int(g["H"])
    elif g.get("I"):
        h = int(g["I"])
        if g.get("p"):
            h = h % 12 + (12 if g["p"].lower() == "pm" else 0)
        else:
            h = h % 12 if h == 12 else h
        f["H"] = h
    for k in ("M", "S"):
        if g.get(k):
            f[k] = int(g[k])
    if "d" in f:
        if "Y" in f and "m" in f:
            if f["d"] > mdays(f["Y"], f["m"]):
                return "nosuchday"
        elif f["d"] > 28:
            raise Unspecified("day without month or year")
    for k in ("a", "A"):
        if g.get(k):
            if not all(x in f for x in "Ymd"):
                raise Unspecified("week day only")
            if [x[:3] for x in DAYS].index(g[k][:3]) != weekday(
                    f["Y"], f["m"], f["d"]):
                raise Unspecified("inconsistent week day")
    return f


def weekday(y, m, d):
    t = [0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4]
    yy = y - (1 if m < 3 else 0)
    return (yy + yy // 4 - yy // 100 + yy // 400 + t[m - 1] + d + 6) % 7


# --- durations --------------------------------------------------------------

_DUR = re.compile(
    r"([+-])?P(?:(?P<Y>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)Y)?"
    r"(?:(?P<Mo>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)M)?"
    r"(?:(?P<W>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)W)?"
    r"(?:(?P<D>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)D)?"
    r"(?P<T>T(?:(?P<H>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)H)?"
    r"(?:(?P<M>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)M)?"
    r"(?:(?P<S>0|[1-9][0-9]*)(?:\.(?P<F>[0-9]+))?S)?)?")
UNIT = {"Y": fractions.Fraction(3652425, 10000) * 86400,
        "Mo": fractions.Fraction(30436875, 1000000) * 86400,
        "W": fractions.Fraction(7 * 86400), "D": fractions.Fraction(86400),
        "H": fractions.Fraction(3600), "M": fractions.Fraction(60)}


def parse_duration(text):
    """(exact nanoseconds as Fraction, number of fraction digits) or None."""
    m = _DUR.fullmatch(text)
    if m is None:
        return None
    total = fractions.Fraction(0)
    for k, sec in UNIT.items():
        if m.group(k):
            total += fractions.Fraction(m.group(k)) * sec
    digits = 0
    if m.group("S"):
        total += int(m.group("S"))
        if m.group("F"):
            digits = len(m.group("F"))
            total += fractions.Fraction(int(m.group("F")), 10**digits)
    if m.group(1) == "-":
        total = -total
    return total * 10**9, digits


# --- parsing ----------------------------------------------------------------

class Full(Exception):
    pass


class GoPanic(Exception):
    pass


ZONES = ("Europe/Zurich", "UTC", "America/New_York", "Asia/Tokyo")


class Result:
    def __init__(self, graph, errors, quirks, panic=None, multi=False):
        self.graph = graph
        self.errors = errors
        self.quirks = quirks
        self.panic = panic
        self.truncated = multi


class Interp:
    """Interprets documents for one language ('py', 'go' or 'cpp')."""

    def __init__(self, model, lang, quirks=False, cap=None):
        self.m = model
        self.lang = lang
        self.q = quirks
        self.used = set()
        settings = model.mapping.get(lang, {})
        self.settings = settings
        self.cap = cap
        self.errors = []
        self.whys = []

    # errors
    def err(self, path, why, *about):
        """``why``: what is wrong, ``about``: the values in question"""
        if self.cap is None or len(self.errors) < self.cap:
            self.errors.append(tuple(path))
            self.whys.append((why,) + about)

    def full(self):
        return self.cap is not None and len(self.errors) == self.cap

    def key(self, k):
        return repr(k) if self.lang == "py" else k

    def parse(self, doc, ref="#"):
        """Parse a document (with a fresh error container of ``self.cap``)."""
        self.errors = []
        self.whys = []
        self.used = set()
        graph, panic = None, None
        try:
            graph = self._graph(doc, [ref])
        except Full:
            pass
        except GoPanic as e:
            panic = str(e)
        return Result(None if self.errors or panic or self.full() else graph,
                      ["/".join(e) for e in self.errors], set(self.used),
                      panic)

    def _check_full(self):
        if self.full():
            raise Full()

    def _graph(self, doc, ref):
        if self.lang == "py":
            self._check_full()
        if not isinstance(doc, dict):
            self.err(ref, "kind", doc)
            return None
        registries = collections.OrderedDict()
        self.reg_ids = {}
        items = doc
        for cls in self.m.classes.values():
            self.reg_ids[cls.name] = set()
            if cls.registry not in items:
                continue
            reg = items[cls.registry]
            rref = ref + [cls.registry]
            if reg is None and self.lang == "py":
                # An absent registry may be given as null in Python.
                if self.q:
                    self.used.add("py-null-registry")
                    raise GoPanic("AttributeError")
                continue
            if not isinstance(reg, dict):
                self.err(rref, "kind", reg)
                if self.lang == "py":
                    self._check_full()
                continue
            for id_ in self.order(reg):
                if cls.id_pattern is not None and not self.pattern(
                        cls.id_pattern, id_):
                    self.err(rref, "id", cls.id_pattern, id_)
                    if self.full():
                        break
                self.reg_ids[cls.name].add(id_)
            if self.lang == "py":
                self._check_full()
        self._check_full()
        if self.errors:
            return None
        for cls in self.m.classes.values():
            reg = items.get(cls.registry)
            if reg is None:
                continue
            out = collections.OrderedDict()
            for id_ in self.order(reg):
                out[id_] = self._composite(
                    cls, reg[id_], ref + [cls.registry, self.key(id_)])
                self._check_full()
            registries[cls.name] = out
            self._check_full()
        props = self._props(self.m.graph, items, ref)
        return {"props": props, "reg": registries}

    def order(self, mapping):
        if self.lang == "cpp":
            return sorted(mapping, key=lambda k: k.encode("utf-8"))
        return list(mapping)

    def _composite(self, comp, value, ref):
        if self.lang == "go" and self.errors and self.q:
            self.used.add("go-panic-after-error")
            raise GoPanic("unexpected non-empty errors")
        if not isinstance(value, dict):
            self.err(ref, "kind", value)
            return None
        return self._props(comp, value, ref)

    def _props(self, comp, value, ref):
        res = collections.OrderedDict()
        for p in comp.props:
            if p.json not in value or (self.lang == "py" and
                                       value[p.json] is None):
                if p.optional:
                    res[p.name] = None
                else:
                    self.err(ref, "missing", p.json)
            else:
                res[p.name] = self._value(p.type, value[p.json],
                                          ref + [p.json])
            self._check_full()
        return res

    def pattern(self, pattern, text):
        rx = re.compile(pattern)
        if rx.fullmatch(text):
            return True
        if rx.search(text):
            raise Unspecified("partial match")
        return False

    def _value(self, t, v, ref):
        kind = t["type"]
        if kind in self.m.classes:
            if not isinstance(v, str):
                self.err(ref, "kind", v)
                return None
            if v not in self.reg_ids[kind]:
                self.err(ref, "reference", kind, v)
                return None
            return {"ref": [kind, v]}
        if kind in self.m.embeds:
            comp = self.m.embeds[kind]
            return {"embed": self._composite(comp, v, ref)}
        if kind == "array":
            if not isinstance(v, list):
                self.err(ref, "kind", v)
                return None
            if t.get("minimum_size") is not None and len(
                    v) < t["minimum_size"]:
                self.err(ref, "size", t["minimum_size"], len(v))
                return None
            if t.get("maximum_size") is not None and len(
                    v) > t["maximum_size"]:
                self.err(ref, "size", t["maximum_size"], len(v))
                return None
            out = []
            for i, x in enumerate(v):
                out.append(self._value(t["values"], x, ref + [str(i)]))
                if self.full():
                    break
            return {"list": out}
        if kind == "map":
            if not isinstance(v, dict):
                self.err(ref, "kind", v)
                return None
            out = collections.OrderedDict()
            for k in self.order(v):
                out[k] = self._value(t["values"], v[k], ref + [self.key(k)])
                if self.full():
                    break
            return {"map": out}
        self.why = ("kind", v)
        ok, val = self.leaf(t, v)
        if not ok:
            self.err(ref, *self.why)
            return None
        return val

    def leaf(self, t, v):
        """(accepted, value) of a leaf."""
        kind = t["type"]
        isnum = isinstance(v, (int, float)) and not isinstance(v, bool)
        if kind == "boolean":
            return (isinstance(v, bool), v)
        if kind in ("integer", "float"):
            if isinstance(v, bool) and self.lang == "py" and self.q:
                self.used.add("py-bool-as-number")
                isnum = True
            if not isnum:
                return False, None
            if kind == "integer":
                if self.lang == "py":
                    if isinstance(v, float):
                        return False, None
                else:
                    # JsonCpp reads numbers beyond 64 bits as real numbers.
                    f = float(v) if self.lang == "go" or not (
                        -2**63 <= v < 2**64) else v
                    if isinstance(f, float) and f != int(f):
                        self.why = ("fraction", v)
                        return False, None
                    if not -2**63 <= f < 2**63:
                        self.why = ("fraction", v)
                        return False, None
                    v = int(f)
            else:
                if self.lang != "py":
                    v = float(v)
            lo, hi = t.get("minimum"), t.get("maximum")
            if lo is not None and (v < lo or
                                   (t.get("exclusive_minimum") and v == lo)):
                self.why = ("bound", lo, v)
                return False, None
            if hi is not None and (v > hi or
                                   (t.get("exclusive_maximum") and v == hi)):
                self.why = ("bound", hi, v)
                return False, None
            return True, v
        if not isinstance(v, str):
            return False, None
        if kind in ("string", "path"):
            if t.get("pattern") is not None and not self.pattern(
                    t["pattern"], v):
                self.why = ("pattern", t["pattern"], v)
                return False, None
            if (kind == "path" and self.lang == "py" and
                    self.settings["path_as"] == "pathlib.Path" and
                    str(pathlib.PurePosixPath(v)) != v):
                raise Unspecified("a path that pathlib normalizes")
            return True, ({"path": v} if kind == "path" else v)
        if kind in ("date", "datetime", "time"):
            fmt = t.get("format", DEFAULT_FORMAT[kind])
            self.why = ("format", fmt, v)
            f = parse_time(fmt, v)
            if f == "nosuchday":
                if self.lang == "cpp":
                    raise Unspecified("C library accepts any day up to 31")
                return False, None
            if f is None:
                if (self.lang == "cpp" and self.q and
                        self.settings.get("datetime_library") == "date.h"
                        and v[:-1] and self._strict_prefix(fmt, v)):
                    self.used.add("cpp-dateh-trailing")
                    return True, {kind: parse_time(fmt, v[:self._strict_prefix(fmt, v)]), "text": v[:self._strict_prefix(fmt, v)]}
                return False, None
            return True, {kind: f, "text": v}
        self.why = (kind, v)
        if kind == "time_zone":
            if self.lang == "py" and self.settings["timezone_as"] == "str":
                return True, {"tz": v}
            if (self.lang == "cpp" and
                    self.settings["datetime_library"] == "ctime"):
                return True, {"tz": v}
            if v == "":
                raise Unspecified("empty time zone")
            if v not in ZONES:
                return False, None
            return True, {"tz": v}
        if kind == "duration":
            r = parse_duration(v)
            if r is None:
                return False, None
            ns, digits = r
            if self.lang == "py":
                if digits > 6:
                    return False, None
                if abs(ns) > 999999999 * 86400 * 10**9:
                    return False, None
            else:
                if digits > 9 or abs(ns) >= 2**63:
                    return False, None
            return True, {"ns": int(ns)}
        raise AssertionError(kind)

    @staticmethod
    def _strict_prefix(fmt, v):
        for n in range(len(v) - 1, 0, -1):
            try:
                if isinstance(parse_time(fmt, v[:n]), dict):
                    return n
            except Unspecified:
                pass
        return 0

    # --- comparing ----------------------------------------------------------

    def diff_graph(self, want, got):
        """Differences between an expected graph and a driver's dump."""
        out = []
        for cls in self.m.classes.values():
            w = want["reg"].get(cls.name) or {}
            g = got["reg"].get(cls.name) or {}
            if set(w) != set(g):
                out.append("registry of {}: want ids {}, got {}".format(
                    cls.name, list(w), list(g)))
                continue
            for id_ in w:
                if g[id_].get("id") != id_:
                    out.append("{} {!r} carries id {!r}".format(
                        cls.name, id_, g[id_].get("id")))
                self._diff_props(cls, w[id_], g[id_]["props"],
                                 "{}[{!r}]".format(cls.name, id_), out)
        self._diff_props(self.m.graph, want["props"], got["props"], "graph",
                         out)
        return out

    def _diff_props(self, comp, want, got, at, out):
        for p in comp.props:
            if p.name not in got:
                out.append("{}.{}: not there".format(at, p.name))
            elif p.name not in want:
                continue
            else:
                self._diff_value(p.type, want[p.name], got[p.name],
                                 at + "." + p.name, out)

    def _diff_value(self, t, want, got, at, out):
        kind = t["type"]
        if want is None or got is None:
            if want is not None or got is not None:
                out.append("{}: want {!r}, got {!r}".format(at, want, got))
            return
        if kind in self.m.embeds:
            if not isinstance(got, dict) or "embed" not in got:
                out.append("{}: want an embed, got {!r}".format(at, got))
                return
            self._diff_props(self.m.embeds[kind], want["embed"], got["embed"],
                             at, out)
            return
        if kind == "array":
            if not isinstance(got, dict) or "list" not in got or len(
                    got["list"]) != len(want["list"]):
                out.append("{}: want {!r}, got {!r}".format(at, want, got))
                return
            for i, (w, g) in enumerate(zip(want["list"], got["list"])):
                self._diff_value(t["values"], w, g, "{}[{}]".format(at, i),
                                 out)
            return
        if kind == "map":
            if not isinstance(got, dict) or "map" not in got or set(
                    got["map"]) != set(want["map"]):
                out.append("{}: want {!r}, got {!r}".format(at, want, got))
                return
            for k in want["map"]:
                self._diff_value(t["values"], want["map"][k], got["map"][k],
                                 "{}[{!r}]".format(at, k), out)
            return
        if kind in ("date", "datetime", "time"):
            w = want[kind]
            g = None
            if isinstance(got, dict):
                # Go and C++ use one type for all the points in time.
                g = got.get(kind, got.get("datetime"))
            if g is None or any(g.get(k) != v for k, v in w.items()):
                out.append("{}: want {!r}, got {!r}".format(at, want, got))
            return
        if kind == "path" and isinstance(got, str):
            got = {"path": got}
        if kind == "float" and type(got) is int:  # noqa
            got = float(got)  # e.g. 1e18 without the exponent
        if type(want) is bool or type(got) is bool:  # noqa
            same = want is got or (self.q and want == got)
        else:
            same = want == got
        if not same:
            out.append("{}: want {!r}, got {!r}".format(at, want, got))

    def diff_json(self, want, got):
        """Differences between an expected graph and its serialization."""
        out = []
        self.used = set()
        if got is None and self._null(self.m.graph, want["props"]) and not any(
                want["reg"].values()):
            return out
        if not isinstance(got, dict):
            return ["serialized graph is not an object: {!r}".format(got)]
        keys = set()
        for cls in self.m.classes.values():
            w = want["reg"].get(cls.name) or {}
            if not w:
                continue
            keys.add(cls.registry)
            g = got.get(cls.registry)
            if not isinstance(g, dict) or set(g) != set(w):
                out.append("registry {}: want ids {}, got {!r}".format(
                    cls.registry, list(w), g))
                continue
            for id_ in w:
                self._json_props(cls, w[id_], g[id_],
                                 "{}/{}".format(cls.registry, id_), out,
                                 set())
        self._json_props(self.m.graph, want["props"], got, "#", out, keys)
        return out

    def _null(self, comp, props):
        """Whether the C++ code serializes a composite as null."""
        if (self.lang == "cpp" and self.q and
                (comp.props or comp.kind == "graph") and
                all(v is None for v in props.values())):
            self.used.add("cpp-null-composite")
            return True
        return False

    def _json_props(self, comp, want, got, at, out, keys):
        if got is None and self._null(comp, want):
            return
        if not isinstance(got, dict):
            out.append("{}: want an object, got {!r}".format(at, got))
            return
        keys = set(keys)
        for p in comp.props:
            w = want.get(p.name)
            if w is None:
                continue
            keys.add(p.json)
            if p.json not in got:
                out.append("{}/{}: not serialized".format(at, p.json))
            else:
                self._json_value(p.type, w, got[p.json], at + "/" + p.json,
                                 out)
        if set(got) != keys:
            extra = sorted(set(got) - keys)
            if extra:
                out.append("{}: unexpected keys {}".format(at, extra))

    def _json_value(self, t, want, got, at, out):
        kind = t["type"]
        if kind in self.m.classes:
            want = want["ref"][1]
        elif kind in self.m.embeds:
            self._json_props(self.m.embeds[kind], want["embed"], got, at, out,
                             set())
            return
        elif kind == "array":
            if not isinstance(got, list) or len(got) != len(want["list"]):
                out.append("{}: want {!r}, got {!r}".format(at, want, got))
                return
            for i, (w, g) in enumerate(zip(want["list"], got)):
                self._json_value(t["values"], w, g, "{}/{}".format(at, i),
                                 out)
            return
        elif kind == "map":
            if not isinstance(got, dict) or set(got) != set(want["map"]):
                out.append("{}: want {!r}, got {!r}".format(at, want, got))
                return
            for k in want["map"]:
                self._json_value(t["values"], want["map"][k], got[k],
                                 "{}/{}".format(at, k), out)
            return
        elif kind in ("date", "datetime", "time"):
            want = want["text"]
        elif kind == "path":
            want = want["path"]
        elif kind == "time_zone":
            want = want["tz"]
        elif kind == "duration":
            r = parse_duration(got) if isinstance(got, str) else None
            if r is None or r[0] != want["ns"]:
                out.append("{}: want {} ns, got {!r}".format(
                    at, want["ns"], got))
            return
        if type(want) is bool or type(got) is bool:  # noqa
            same = want is got or (self.q and want == got)
        elif kind in ("integer", "float"):
            if kind == "float" and type(got) is int:  # noqa
                got = float(got)  # e.g. 1e18 without the exponent
            same = (isinstance(got, (int, float)) and want == got)
        else:
            same = type(want) is type(got) and want == got
        if not same:
            out.append("{}: want {!r}, got {!r}".format(at, want, got))
