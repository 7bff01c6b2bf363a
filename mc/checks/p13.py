"""Schemas: accepted exactly when valid, errors at the violated places."""
import collections
import copy
import itertools
import json
import os
import pathlib

from mc import core, refschema, sut

OD = collections.OrderedDict
REF = "s.json#"


def rich():
    def p(type_, **kw):
        return OD([("type", type_), ("description", "is given.")] +
                  sorted(kw.items()))
    return OD([
        ("name", "Some_graph"), ("description", "defines a graph."),
        ("cpp", OD([("namespace", "a::b"),
                    ("path_as", "std::filesystem::path"),
                    ("optional_as", "std::optional"),
                    ("datetime_library", "ctime"), ("indention", "  ")])),
        ("go", OD([("package", "book")])),
        ("py", OD([("module_name", "a.b"), ("path_as", "str"),
                   ("timezone_as", "str"), ("indention", "    ")])),
        ("classes", [
            OD([("name", "Person"), ("description", "defines a person."),
                ("plural", "People"), ("id_pattern", "^[a-z]+$"),
                ("properties", OD([("bff", p("Person", optional=True)),
                                   ("home", p("Address", json="at"))]))]),
            OD([("name", "Focus"), ("description", "defines a focus."),
                ("properties", OD([("f", p("float", minimum=0.5,
                                           exclusive_maximum=True,
                                           maximum=1))]))])]),
        ("embeds", [
            OD([("name", "Address"), ("description", "defines it."),
                ("properties", OD([
                    ("city", p("string", pattern="^[A-Z]")),
                    ("who", p("array", values=OD([("type", "Person")])))]))]),
            OD([("name", "Nothing"), ("description", "defines none.")])]),
        ("properties", OD([
            ("b", p("boolean")), ("i", p("integer", minimum=1)),
            ("d", p("date", format="%d.%m.%Y")), ("t", p("time")),
            ("dt", p("datetime", format="%Y %H")), ("tz", p("time_zone")),
            ("dur", p("duration", optional=False)), ("pa", p("path")),
            ("a", p("array", minimum_size=1, maximum_size=3, values=OD(
                [("type", "map"), ("values", OD([("type", "integer"), (
                    "maximum", 3)]))]))),
            ("m", p("map", values=OD([("type", "Address"),
                                      ("description", "is one.")])))]))])


def bare():
    return OD([("name", "G"), ("description", "is it.")])


def lone():
    s = bare()
    s["classes"] = [OD([("name", "Lone"), ("description", "is one.")])]
    s["embeds"] = []
    s["properties"] = OD()
    return s


VALUES = [None, True, False, 0, -1, 1.5, 2.0, "", "x", "X", "integer", [],
          [1], OD(), OD([("type", "integer")]), "(", "%d%", "a.\n", " \n"]
NAMES = ["Abc", "abc", "A", "a", "A_b", "A_", "_A", "A__b", "A b", "Ä", "1A",
         "A1", "A\n", "", "id", "Id", "Some_graph", "Person", "People",
         "people", "Focus", "Foci", "foci", "Fox", "Foxes", "foxes",
         "Address", "Addresses", "bff", "home", "at", "City", "Day", "Days",
         "Lady", "Ladies", "A_focus", "a_foci", "Boss", "Integer", "i"]


# names for the pairs in quick
FEWER = ["A_", "id", "Some_graph", "Person", "people", "People", "Foci",
         "Address", "bff", "Day", "i"]


def nodes(v, path=()):
    yield path
    items = v.items() if isinstance(v, dict) else (
        enumerate(v) if isinstance(v, list) else ())
    for k, x in items:
        yield from nodes(x, path + (k,))


def get(s, path):
    for k in path:
        s = s[k]
    return s


def put(s, path, value):
    s = copy.deepcopy(s)
    if not path:
        return value
    get(s, path[:-1])[path[-1]] = copy.deepcopy(value)
    return s


def generic(s):
    """All the single edits of a schema as JSON."""
    for path in nodes(s):
        for v in VALUES:
            yield put(s, path, v)
        cur = get(s, path)
        if path:
            t = copy.deepcopy(s)
            del get(t, path[:-1])[path[-1]]
            yield t
        if isinstance(cur, dict):
            for k in ("extra", "type", "values", "minimum_size", "pattern",
                      "properties", "optional", "description", "plural"):
                if k not in cur:
                    for v in (1, "x", OD([("type", "date")])):
                        t = copy.deepcopy(s)
                        get(t, path)[k] = v
                        yield t
            for k in cur:
                t = copy.deepcopy(s)
                get(t, path).move_to_end(k)
                yield t
                t = copy.deepcopy(s)
                get(t, path).move_to_end(k, last=False)
                yield t
        if isinstance(cur, list):
            for i in range(len(cur)):
                t = copy.deepcopy(s)
                get(t, path).append(copy.deepcopy(cur[i]))
                yield t


def types():
    """Definitions of types, valid and invalid ones."""
    for kind, steps in (("integer", (None, -1, 0, 1, 1.0, "1", True)),
                        ("float", (None, -1, 0, 1, 0.5, "1"))):
        for lo, hi in itertools.product(steps, repeat=2):
            for xlo, xhi in itertools.product((None, False, True), repeat=2):
                yield OD([("type", kind)] + [
                    (k, v) for k, v in (
                        ("minimum", lo), ("maximum", hi),
                        ("exclusive_minimum", xlo),
                        ("exclusive_maximum", xhi)) if v is not None])
    far = (None, 1, 0.5, 2 ** 53 + 1, 2 ** 63, -2 ** 64, 2 ** 70, 1e300,
           1.7976931348623157e+308, 2 ** 1024 - 2 ** 971,
           2 ** 1024 - 2 ** 971 + 1, -2 ** 1024, 10 ** 400, float("inf"),
           -float("inf"), float("nan"))
    for kind in ("integer", "float"):
        for lo, hi in itertools.product(far, repeat=2):
            yield OD([("type", kind)] + [
                (k, v) for k, v in (("minimum", lo), ("maximum", hi))
                if v is not None])
    for lo, hi in itertools.product((None, -1, 0, 1, 2, 1.0, "1", False),
                                    repeat=2):
        yield OD([("type", "array"), ("values", OD([("type", "float")]))] + [
            (k, v) for k, v in (("minimum_size", lo), ("maximum_size", hi))
            if v is not None])
    for kind in ("string", "path"):
        for pattern in ("", "a", "(", ")", "[", "a{2,1}", "(?P<a>x)(?P=a)",
                        "\\", "^\\d+$", "*", "(?z)"):
            yield OD([("type", kind), ("pattern", pattern)])
    singles = "aAbBcCdDeFgGhHIjklmMnNpPqrsStTuUvVwWxXyYzZ%.-1"
    for kind in ("date", "time", "datetime"):
        for c in singles:
            yield OD([("type", kind), ("format", "%" + c)])
            yield OD([("type", kind), ("format", "%Y%H x%" + c)])
            yield OD([("type", kind), ("format", "-%" + c + "\n.")])
        for f in ("%", "x", "%%%", "%Y%", "%H%", "x\n", "%%Q", "%\n"):
            yield OD([("type", kind), ("format", f)])
        if kind != "datetime":
            yield OD([("type", kind), ("format", "")])
    for kind in sorted(refschema.PRIMITIVE | refschema.AGGREGATED) + [
            "Person", "Address", "Some_graph", "Nobody", "", "Integer",
            "people", "object"]:
        base = OD([("type", kind)])
        if kind in refschema.AGGREGATED:
            yield OD(base)
            base["values"] = OD([("type", "boolean")])
        yield OD(base)
        for k, v in (("minimum", 1), ("pattern", "x"), ("format", "%Y"),
                     ("values", OD([("type", "integer")])),
                     ("minimum_size", 1), ("exclusive_minimum", True),
                     ("json", "x"), ("optional", True),
                     ("id_pattern", "x"), ("description", "is."),
                     ("description", 1), ("properties", OD()), ("enum", [])):
            t = OD(base)
            t[k] = v
            yield t


def typed(s):
    """The types at all the places of a schema."""
    def prop(t):
        return OD([("type", t["type"]), ("description", "is given.")] +
                  [(k, v) for k, v in t.items()
                   if k not in ("type", "description")])
    for i, t in enumerate(types()):
        yield put(s, ("properties", "new"), prop(t))
        yield put(s, ("properties", "new"), prop(OD(
            [("type", "array"), ("values", t)])))
        where = (("classes", 0), ("embeds", 0))[i % 2]
        yield put(s, where + ("properties", "new"), prop(OD(
            [("type", "map"), ("values", OD([("type", "map"),
                                             ("values", t)]))])))
        yield put(s, where + ("properties", "new"), prop(t))


def renames(s):
    """Places of names with a function that puts a name there."""
    def set_(path):
        return lambda t, n: put(t, path, n) if path_ok(t, path) else None

    def key(path, old):
        def f(t, n):
            if not path_ok(t, path + (old,)):
                return None
            t = copy.deepcopy(t)
            props = get(t, path)
            items = [(n if k == old else k, v) for k, v in props.items()]
            if len({k for k, _ in items}) < len(items):
                return None
            props.clear()
            props.update(items)
            return t
        return f

    yield set_(("name",))
    for i in range(2):
        yield set_(("classes", i, "name"))
        yield set_(("classes", i, "plural"))
        yield set_(("embeds", i, "name"))
    yield set_(("properties", "m", "type"))
    yield set_(("properties", "a", "values", "values", "type"))
    yield set_(("properties", "m", "json"))
    yield set_(("properties", "i", "json"))
    yield set_(("classes", 0, "properties", "bff", "json"))
    yield set_(("embeds", 0, "properties", "city", "json"))
    yield key(("properties",), "i")
    yield key(("properties",), "d")
    yield key(("classes", 0, "properties"), "bff")
    yield key(("embeds", 0, "properties"), "city")


def path_ok(s, path):
    try:
        get(s, path[:-1])
        return True
    except (KeyError, IndexError, TypeError):
        return False


def named(s, k):
    """Up to k names replaced."""
    edits = [(i, f, n) for i, f in enumerate(renames(s)) for n in NAMES]
    for _, f, n in edits:
        t = f(s, n)
        if t is not None:
            yield t
    if k < 2:
        return
    if not core.THOROUGH:
        edits = [e for e in edits if e[2] in FEWER]
    for (i, f, n), (j, g, m) in itertools.combinations(edits, 2):
        if i == j:
            continue
        t = f(s, n)
        t = t and g(t, m)
        if t is not None:
            yield t


def settings():
    """Settings of the languages."""
    words = ["", "a", "A", "_a", "a_", "1a", "a1", "a.b", "a::b", "a:b",
             "a.", ".a", "::a", "a::", "a..b", "a b", "a\n", "a.b.c",
             "a::b::c", "a-b", "a::1", "a.1", "ä"]
    s = rich()
    for path in (("cpp", "namespace"), ("go", "package"),
                 ("py", "module_name")):
        for w in words:
            yield put(s, path, w)
    for lang in ("cpp", "py"):
        for w in ("", " ", "\t", "  ", " \t", "x", " x", "\n", " \n", "\r",
                  "\u00a0"):
            yield put(s, (lang, "indention"), w)
    for path in (("cpp", "path_as"), ("cpp", "optional_as"),
                 ("cpp", "datetime_library"), ("py", "path_as"),
                 ("py", "timezone_as")):
        for w in ("str", "pathlib.Path", "pytz.timezone",
                  "std::filesystem::path", "boost::filesystem::path",
                  "boost::optional", "std::optional",
                  "std::experimental::optional", "ctime", "date.h", "date",
                  "Str", "std::path", "", "std::optional "):
            yield put(s, path, w)
    for c in ("", ".", "a.", "A.", "a", "a b.", "1.", "a.b", "a\nb.", "a.\n",
              " a.", "a..", "ä.", "aä.", "a\u2028b."):
        for path in (("description",), ("classes", 0, "description"),
                     ("embeds", 0, "description"),
                     ("properties", "i", "description")):
            yield put(s, path, c)


def jsonable(s):
    """What the schema looks like in a JSON file."""
    return json.loads(json.dumps(s), object_pairs_hook=OD)


def plain(s):
    if isinstance(s, dict):
        return {k: plain(v) for k, v in s.items()}
    if isinstance(s, list):
        return [plain(v) for v in s]
    return s


def canonical(path):
    """Path of a place as the parts which all the references share."""
    out = []
    owner = True
    for part in path:
        part = str(part)
        if owner and part == "properties":
            owner = False
            continue
        out.append(part)
    return tuple(out)


def related(ref, place):
    if not ref.startswith(REF):
        return False
    rest = ref[len(REF):]
    if rest and not rest.startswith("/"):
        return False
    a = canonical([x for x in rest.split("/") if x != ""])
    b = canonical([x for x in place if x != ""])
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def describe_type(t):
    import mapry
    if isinstance(t, (mapry.Class, mapry.Embed)):
        return {"type": t.name}
    kinds = [(mapry.Boolean, "boolean"), (mapry.Integer, "integer"),
             (mapry.Float, "float"), (mapry.String, "string"),
             (mapry.Path, "path"), (mapry.Date, "date"),
             (mapry.Time, "time"), (mapry.Datetime, "datetime"),
             (mapry.TimeZone, "time_zone"), (mapry.Duration, "duration"),
             (mapry.Array, "array"), (mapry.Map, "map")]
    res = {"type": [n for k, n in kinds if type(t) is k][0]}
    for k in ("minimum", "maximum", "exclusive_minimum",
              "exclusive_maximum", "format", "minimum_size",
              "maximum_size"):
        if hasattr(t, k):
            res[k] = getattr(t, k)
    if hasattr(t, "pattern"):
        res["pattern"] = t.pattern and t.pattern.pattern
    if hasattr(t, "values"):
        res["values"] = describe_type(t.values)
    return res


def expected_type(t):
    kind = t["type"]
    res = {"type": kind}
    if kind in ("integer", "float"):
        for k in ("minimum", "maximum"):
            res[k] = t.get(k)
            if kind == "float" and res[k] is not None:
                res[k] = float(res[k])
            res["exclusive_" + k] = t.get("exclusive_" + k, False)
    if kind in ("string", "path"):
        res["pattern"] = t.get("pattern")
    if kind in ("date", "time", "datetime"):
        res["format"] = t.get("format", {
            "date": "%Y-%m-%d", "time": "%H:%M:%S",
            "datetime": "%Y-%m-%dT%H:%M:%SZ"}[kind])
    if kind == "array":
        for k in ("minimum_size", "maximum_size"):
            res[k] = t.get(k)
    if kind in ("array", "map"):
        res["values"] = expected_type(t["values"])
    return res


def describe(s):
    def props(c):
        return [(n, p.name, p.description, p.json, bool(p.optional),
                 describe_type(p.type)) for n, p in c.properties.items()]
    g = s.graph
    return {
        "name": g.name, "description": g.description, "properties": props(g),
        "classes": [(n, c.name, c.description, c.plural,
                     c.id_pattern and c.id_pattern.pattern, props(c))
                    for n, c in g.classes.items()],
        "embeds": [(n, c.name, c.description, props(c))
                   for n, c in g.embeds.items()],
        "cpp": s.cpp and [s.cpp.namespace, s.cpp.path_as, s.cpp.optional_as,
                          s.cpp.datetime_library, s.cpp.indention],
        "go": s.go and [s.go.package],
        "py": s.py and [s.py.module_name, s.py.path_as, s.py.timezone_as,
                        s.py.indention]}


def expected(s, ordered):
    def props(c):
        items = list(c.get("properties", {}).items())
        if not ordered:
            items.sort()
        return [(n, n, p["description"], p.get("json", n),
                 p.get("optional", False), expected_type(p))
                for n, p in items]
    cpp, go, py = s.get("cpp"), s.get("go"), s.get("py")
    return {
        "name": s["name"], "description": s["description"],
        "properties": props(s),
        "classes": [(c["name"], c["name"], c["description"],
                     c.get("plural", refschema.plural(c["name"])),
                     c.get("id_pattern"), props(c))
                    for c in s.get("classes", [])],
        "embeds": [(c["name"], c["name"], c["description"], props(c))
                   for c in s.get("embeds", [])],
        "cpp": cpp and [cpp["namespace"], cpp["path_as"], cpp["optional_as"],
                        cpp["datetime_library"], cpp.get("indention", "  ")],
        "go": go and [go["package"]],
        "py": py and [py["module_name"], py["path_as"], py["timezone_as"],
                      py.get("indention", "    ")]}


def refs_of(err):
    """References of the single errors in an error."""
    lines = [x for x in str(err).split("\n") if x.startswith(REF)]
    if len(lines) > 1 or lines and lines[0].startswith(
            "{}: {}".format(REF, REF)):
        lines[0] = lines[0][len(REF) + 2:]
    out = []
    for x in lines:
        out.append(x.split(": ", 1)[0] if ": " in x else x)
    return out


def judge(s, ordered, load):
    import mapry.validation
    try:
        struct, want = refschema.places(s, ordered)
    except Exception as e:  # pylint: disable=broad-except
        raise RuntimeError("the oracle failed on {}".format(
            json.dumps(s))) from e
    try:
        got = load()
    except mapry.validation.SchemaError as e:
        if not want:
            return "rejected although valid: {}".format(e), 0
        if not str(e).strip():
            return "empty error", 0
        refs = refs_of(e)
        if not refs:
            return "no reference in the error: {}".format(e), 0
        for r in refs:
            if not any(related(r, p) for w in want for p in w):
                return "{} reported, but {} expected ({})".format(
                    r, want, e), 0
        if not struct:
            for w in want:
                if not any(related(r, p) for r in refs for p in w):
                    return "{} not reported: {}".format(w, e), 0
        return None, 0
    except BaseException as e:  # pylint: disable=broad-except
        return "raised {}: {}".format(type(e).__name__, e), 0
    if want:
        return "accepted although invalid at {}".format(want), 0
    a, b = describe(got), expected(s, ordered)
    if a != b:
        diff = [(k, a[k], b[k]) for k in b if a.get(k) != b[k]]
        return "parsed as {}".format(diff), 0
    return None, 1


def batch(items):
    import mapry.parse
    base = core.scratch() / "p13"
    base.mkdir(exist_ok=True)
    out, valid, n = [], 0, 0
    old = os.getcwd()
    work = base / str(os.getpid())
    work.mkdir(exist_ok=True)
    os.chdir(str(work))
    try:
        for s in items:
            s = jsonable(s)
            path = pathlib.Path("s.json")
            path.write_text(json.dumps(s), encoding="utf-8")
            bad, ok = judge(s, True, lambda: mapry.parse.
                            schema_from_json_file(path))
            valid += ok
            n += 1
            if bad:
                out.append(("file: " + bad, s))
            p = plain(s)
            bad, ok = judge(p, False, lambda: mapry.parse.
                            schema_from_mapping(p, REF))
            n += 1
            if bad:
                out.append(("mapping: " + bad, s))
    finally:
        os.chdir(old)
    return out, valid, n


def run(check):
    assert sut is not None
    todo, seen = [], set()

    def more(name, it):
        n = 0
        for s in it:
            key = json.dumps(s)
            if key not in seen:
                seen.add(key)
                todo.append(s)
                n += 1
        check.add(**{name: n})

    base = [rich(), bare(), lone()]
    more("schemas_base", base)
    for s in base:
        more("schemas_edited_once", generic(s))
    more("schemas_with_types", typed(rich()))
    more("schemas_with_names", named(rich(), 2))
    more("schemas_with_settings", settings())
    if core.THOROUGH:
        for s in list(generic(bare())) + list(generic(lone())):
            if isinstance(s, dict):
                more("schemas_edited_twice", generic(s))
    parts = [todo[i:i + 100] for i in range(0, len(todo), 100)]
    for bad, valid, n in core.pmap(batch, parts):
        check.add(schemas_valid=valid, transitions=n)
        for text, s in bad:
            check.fail(text, s)
    check.add(states=len(todo), traces_validated_against_impl=2 * len(todo))
    check.sample({"schema": plain(rich()), "verdict": "valid"})
