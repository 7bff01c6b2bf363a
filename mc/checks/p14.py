"""Schemas which a language can not express are reported by its generator."""
import collections
import importlib
import itertools
import json

from mc import core, refschema
from mc.checks import p13

OD = collections.OrderedDict
REF = p13.REF
KEYWORDS = {
    "py": set("""False None True and as assert async await break class
        continue def del elif else except finally for from global if import in
        is lambda nonlocal not or pass raise return try while with
        yield""".split()),
    "cpp": set("""alignas alignof and and_eq asm auto bitand bitor bool break
        case catch char class compl const constexpr const_cast continue
        decltype default delete do double dynamic_cast else enum explicit
        export extern false float for friend goto if inline int long mutable
        namespace new noexcept not not_eq nullptr operator or or_eq private
        protected public register reinterpret_cast return short signed sizeof
        static static_assert static_cast struct switch template this throw
        true try typedef typeid typename union unsigned using virtual void
        volatile while xor xor_eq""".split())}
NAMES = ["Abc", "abc", "ABC", "A_bc", "a_bc", "A_b_c", "AB_c", "A__bc", "Ab",
         "id", "Id", "ID", "iD", "I_d", "Graph_g", "GraphG", "Person",
         "person", "People", "people", "Peo_ple", "PeoPle", "Address",
         "Addresses", "ADDRESS", "Foci", "Focus", "bff", "Bff", "BFF", "b_ff",
         "i", "I", "d", "D", "city", "City", "class", "Class", "CLASS",
         "None", "none", "True", "def", "Def", "for", "For", "func", "Func",
         "type_", "lambda", "Lambda", "template", "Template", "async",
         "Async", "float", "Float", "select", "Select", "not_eq", "Not_eq"]
FEWER = ["Abc", "ABC", "a_bc", "A_b_c", "Id", "ID", "Graph_g", "Person",
         "people", "Peo_ple", "Foci", "bff", "BFF", "i", "I", "D", "City",
         "Class", "None", "def"]


def base():
    s = p13.rich()
    s["name"] = "Graph_g"
    return s


def camel(name):
    return "".join(p[:1].upper() + p[1:] for p in name.split("_"))


def cycles(s, kinds):
    """Indices of the embeds which contain themselves by the given kinds."""
    idx = {e["name"]: i for i, e in enumerate(s.get("embeds", []))}
    to = {i: set() for i in idx.values()}
    for e in s.get("embeds", []):
        for p in e.get("properties", {}).values():
            if p["type"] in idx and p.get("optional", False) in kinds:
                to[idx[e["name"]]].add(idx[p["type"]])
    for k, i, j in itertools.product(to, repeat=3):
        if k in to[i] and j in to[k]:
            to[i].add(j)
    return [i for i in to if i in to[i]]


def too_far(t):
    """Check if a bound or a size does not fit into 64 bits."""
    keys = {"integer": ("minimum", "maximum"),
            "array": ("minimum_size", "maximum_size")}.get(t["type"], ())
    if any(not -2 ** 63 <= t[k] < 2 ** 63 for k in keys if k in t):
        return True
    return "values" in t and too_far(t["values"])


def conflicts(s, lang):
    """The conflicts in a language: sets of places to be reported."""
    field = camel if lang == "go" else str.lower
    words = KEYWORDS.get(lang, set())
    res = []
    used, variables = {}, {}
    owners = [(s, (), None)]
    owners += [(c, ("classes", i), True)
               for i, c in enumerate(s.get("classes", []))]
    owners += [(c, ("embeds", i), False)
               for i, c in enumerate(s.get("embeds", []))]
    for c, at, is_class in owners:
        name = camel(c["name"])
        var = c["name"].lower()
        if name in words or lang == "cpp" and var in words:
            res.append({at})
        if name in used:
            res.append({at, used[name]})
        used.setdefault(name, at)
        if lang == "py":
            if var in variables:
                res.append({at, variables[var]})
            variables.setdefault(var, at)
        fields = {}
        for n in c.get("properties", {}):
            f, place = field(n), at + (n,)
            if f in words:
                res.append({place})
            if lang != "py" and too_far(c["properties"][n]):
                res.append({place})
            if is_class and f == ("ID" if lang == "go" else "id"):
                res.append({place})
            if f in fields:
                res.append({place, fields[f]})
            fields.setdefault(f, place)
        if is_class is None:
            plurals = {}
            for i, k in enumerate(s.get("classes", [])):
                f = field(k.get("plural", refschema.plural(k["name"])))
                place = ("classes", i)
                if f in words:
                    res.append({place})
                if f in fields:
                    res.append({place, fields[f]})
                if f in plurals:
                    res.append({place, plurals[f]})
                plurals.setdefault(f, place)
    if lang != "py":
        kinds = (False, True) if lang == "cpp" else (False,)
        res += [{("embeds", i)} for i in cycles(s, kinds)]
    return res


def judge(s, lang, schema):
    want = conflicts(s, lang)
    mod = importlib.import_module("mapry.{}.validation".format(lang))
    try:
        errs = mod.validate_schema(schema)
    except BaseException as e:  # pylint: disable=broad-except
        return "{}: raised {}: {}".format(lang, type(e).__name__, e)
    refs = [e.ref for e in errs]
    for e in errs:
        if not want:
            return "{}: rejected without a conflict: {}".format(lang, e)
        if not str(e).startswith(e.ref + ": ") or str(e) == e.ref + ": ":
            return "{}: no message: {}".format(lang, e)
        if not any(p13.related(e.ref, p) for w in want for p in w):
            return "{}: {} reported, but {} expected ({})".format(
                lang, e.ref, want, e)
    for w in want:
        if not any(p13.related(r, p) for r in refs if r != REF
                   for p in w) and not (() in w and REF in refs):
            return "{}: the conflict at {} not reported: {}".format(
                lang, sorted(w, key=str), [str(e) for e in errs])
    return None


def batch(items):
    import mapry.parse
    out, n, bad_ones, skipped = [], 0, 0, 0
    for s in items:
        s = p13.jsonable(s)
        if refschema.places(s, True)[1]:
            skipped += 1
            continue
        try:
            schema = mapry.parse.schema_from_mapping(s, REF)
        except Exception as e:  # pylint: disable=broad-except
            out.append(("not accepted: {}".format(e), s))
            continue
        for lang in ("py", "go", "cpp"):
            n += 1
            bad_ones += bool(conflicts(s, lang))
            bad = judge(s, lang, schema)
            if bad:
                out.append((bad, s))
    return out, n, bad_ones, skipped


def named():
    fs = list(p13.renames(base()))
    edits = [(i, f, n) for i, f in enumerate(fs) for n in NAMES]
    for _, f, n in edits:
        t = f(base(), n)
        if t is not None:
            yield t
    if not core.THOROUGH:
        edits = [e for e in edits if e[2] in FEWER]
    for (i, f, n), (j, g, m) in itertools.combinations(edits, 2):
        if i != j:
            t = f(base(), n)
            t = t and g(t, m)
            if t is not None:
                yield t


def nested():
    """All the nestings of three embeds, required or optional or none."""
    names = ["Ea", "Eb", "Ec"]
    pairs = list(itertools.product(range(3), repeat=2))
    for combo in itertools.product((None, False, True), repeat=9):
        if not core.THOROUGH and sum(c is not None for c in combo) > 4:
            continue
        embeds = [OD([("name", n), ("description", "is it."),
                      ("properties", OD())]) for n in names]
        for (i, j), c in zip(pairs, combo):
            if c is not None:
                p = OD([("type", names[j]), ("description", "is it.")])
                if c:
                    p["optional"] = True
                embeds[i]["properties"]["p{}".format(j)] = p
        yield OD([("name", "G"), ("description", "is it."),
                  ("embeds", embeds)])


def wrapped():
    """Nestings through arrays and maps, which are fine in all languages."""
    for t in ("array", "map"):
        for n in ("Ea", "Eb"):
            for up in (None, False, True):
                a = OD([("name", "Ea"), ("description", "is it."),
                        ("properties", OD([("p", OD([
                            ("type", t), ("description", "is it."),
                            ("values", OD([("type", n)]))]))]))])
                b = OD([("name", "Eb"), ("description", "is it."),
                        ("properties", OD())])
                if up is not None:
                    b["properties"]["q"] = OD([
                        ("type", "Ea"), ("description", "is it."),
                        ("optional", up)])
                yield OD([("name", "G"), ("description", "is it."),
                          ("embeds", [a, b])])


FAR = [0, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 70, 10 ** 30]


def bounded():
    """Bounds and sizes about the limits of 64 bits, at all the places."""
    defs = []
    for v in FAR:
        for x in (v, -v, 1 - v, -1 - v):
            for k in ("minimum", "maximum"):
                defs.append(OD([("type", "integer"), (k, x)]))
                defs.append(OD([("type", "float"), (k, x)]))
            for k in ("minimum_size", "maximum_size"):
                if x >= 0:
                    defs.append(OD([("type", "array"), (
                        "values", OD([("type", "float")])), (k, x)]))
    for lo, hi in itertools.combinations(sorted(
            {x for v in FAR for x in (v, -v, -1 - v)}), 2):
        defs.append(OD([("type", "integer"), ("minimum", lo),
                        ("maximum", hi)]))
        if lo >= 0:
            defs.append(OD([("type", "array"), ("values", OD(
                [("type", "boolean")])), ("minimum_size", lo),
                            ("maximum_size", hi)]))
    wraps = [lambda t: t,
             lambda t: OD([("type", "array"), ("values", t)]),
             lambda t: OD([("type", "map"), ("values", t)]),
             lambda t: OD([("type", "map"), ("values", OD(
                 [("type", "array"), ("values", t)]))])]
    for t in defs:
        for i, (at, wrap) in enumerate(itertools.product(
                ((), ("classes", 0), ("embeds", 0)), wraps)):
            w = wrap(t)
            p = OD([("type", w["type"]), ("description", "is given.")] +
                   [(k, v) for k, v in w.items() if k != "type"])
            if i % 2:
                p["optional"] = True
            yield p13.put(base(), at + ("properties", "new"), p)


def run(check):
    todo, seen = [], set()
    for name, it in (("schemas_with_names", named()),
                     ("schemas_with_bounds", bounded()),
                     ("schemas_with_nestings", nested()),
                     ("schemas_with_wrapped_nestings", wrapped())):
        n = 0
        for s in it:
            key = json.dumps(s)
            if key not in seen:
                seen.add(key)
                todo.append(s)
                n += 1
        check.add(**{name: n})
    parts = [todo[i:i + 100] for i in range(0, len(todo), 100)]
    valid = 0
    for bad, n, rejected, skipped in core.pmap(batch, parts):
        check.add(transitions=n, verdicts_rejected=rejected,
                  invalid_for_all_languages=skipped)
        for text, s in bad:
            check.fail(text, s)
        valid += n // 3
    check.add(states=valid, traces_validated_against_impl=3 * valid)
    check.sample({"schema": p13.plain(base()), "conflicts": {
        k: [] for k in ("py", "go", "cpp")}})
