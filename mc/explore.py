"""Exhaustive exploration of documents against the generated code.

``explore(check, lang, plan, facets)`` walks every document of every schema in
the plan, runs the generated code of ``lang`` on it and compares the outcome
with the reference interpreter.  A facet names one aspect of the comparison:

accept  - documents are accepted exactly when the schema allows them
value   - the parsed object graph is the documented one
refs    - every error is reported at the place that caused it
caps    - the error containers with a cap stop at the cap
rt      - the graph serializes to the document's meaning and parses back
order   - the order of registries, maps and arrays is kept
pure    - the given document is not changed and repetition gives the same
"""
import collections
import copy
import itertools
import json

from mc import core, corpus, docs, ref

BIG = 10**6


class Plan:
    """Schemas to explore, each with the number of deviations."""

    def __init__(self, **kw):
        self.items = collections.OrderedDict()
        self.kw = kw  # passed to docs.Docs

    def add(self, schemas, k, only=None):
        for tag, s in schemas.items():
            if only is None or only(tag):
                # k is the number of deviations, or a list of documents
                self.items.setdefault("{}@{}".format(
                    tag, "docs" if isinstance(k, list) else k), (s, k))
        return self

    def ordered(self):
        """The items that take the longest first."""
        return sorted(self.items.items(), key=lambda kv: (
            0 if isinstance(kv[1][1], list) else -kv[1][1]))

    def schemas(self):
        return collections.OrderedDict(
            (t, s) for t, (s, _) in self.items.items())


def lean():
    return collections.OrderedDict(
        ("lean_" + t, corpus.leaf_schema(l, wide=False))
        for t, l in corpus.LEAF.items())


QUICK2 = ("lean_bool", "lean_int_minmax", "lean_int_xmin_xmax",
          "lean_float_xmin_max", "lean_str_pat1", "lean_path_pat",
          "lean_date", "lean_datetime", "lean_time", "lean_tz",
          "size_1_2", "ref1_GAlpha_req", "ref1_AlphaBeta_arr",
          "emb_G_opt_req", "nestrev_arr_opt", "idpat", "json_swap",
          "only_opt", "empty_embed", "only_classes")


CPP_SETTINGS = [
    {"path_as": p, "optional_as": o, "datetime_library": d}
    for p, o, d in itertools.product(
        ["std::filesystem::path", "boost::filesystem::path"],
        ["std::optional", "std::experimental::optional", "boost::optional"],
        ["ctime", "date.h"])][1:]
PY_SETTINGS = [{"path_as": p, "timezone_as": z} for p, z in itertools.product(
    ["str", "pathlib.Path"], ["str", "pytz.timezone"])][1:]
SET_TYPES = ("path", "date", "time", "datetime", "tz", "dur", "bool", "int",
             "str")


def left_to_p17(schema):
    """Whether date.h reads a format differently or its dates are incomplete."""
    for p in schema.get("properties", {}).values():
        toks = set(ref.tokens(p.get("format", "%Y-%m-%d")))
        if toks & {"%e", "%I", "%p"} or p["type"] in (
                "date", "datetime") and not (
                toks & {"%Y", "%y"} and toks & {"%m", "%b", "%B"} and
                toks & {"%d"}):
            return True
    return False


def varied(lang, thorough):
    """Schemas whose code depends on settings, with settings in turns."""
    out = collections.OrderedDict()
    few = collections.OrderedDict(
        ("lean_" + t, corpus.leaf_schema(l, wide=False))
        for t, l in corpus.LEAF.items()
        if t.split("_")[0] in SET_TYPES[:5] or t in SET_TYPES)
    more = corpus.structures()
    more.update(corpus.topologies() if thorough else {})
    every = CPP_SETTINGS if lang == "cpp" else PY_SETTINGS
    n = 0
    for schemas, times in ((few, len(every) if thorough else 2),
                           (more, 4 if thorough else 1)):
        for tag, s in schemas.items():
            for _ in range(min(times, len(every))):
                while (every[n % len(every)].get("datetime_library")
                       == "date.h" and left_to_p17(s)):
                    n += 4
                # steps of 4 visit all the settings
                out["{}_set{}".format(tag, n % len(every))] = (
                    corpus.with_settings(s, **{lang: every[n % len(every)]}))
                n += 4
    return out


def default_plan(lang, thorough=None):
    thorough = core.THOROUGH if thorough is None else thorough
    plan = Plan().add(corpus.all_schemas(thorough), 1)
    if lang != "go":
        plan.add(varied(lang, thorough), 1)
    two = lean()
    two.update(corpus.topologies())
    two.update(corpus.structures())
    plan.add(two, 2, None if thorough else (lambda t: t in QUICK2))
    return plan


def same_errors(got, want):
    return sorted(got) == sorted(want)


def sub_multiset(a, b):
    ca, cb = collections.Counter(a), collections.Counter(b)
    return all(n <= cb[x] for x, n in ca.items())


JUDGE_INVALID = {"accept", "refs", "caps", "pure"}


class Tally:
    def __init__(self):
        self.n = collections.Counter()
        self.bad = []
        self.hits = collections.Counter()
        self.samples = []
        self.nbad = 0

    def fail(self, tag, facet, msg, doc, extra=None, key=None):
        self.nbad += 1
        if len(self.bad) < 4:
            self.bad.append((tag, facet, msg, doc, extra, key))


def merge(check, tallies):
    for t in tallies:
        for k, n in t.n.items():
            check.add(**{k: n})
        for k, n in t.hits.items():
            if check.knows(k):
                check.hit(k, n)
            else:
                # reported by the check of another property
                check.add(left_to_other_properties=n)
        for tag, facet, msg, doc, extra, key in t.bad:
            check.fail("{} [{}]: {}".format(tag, facet, msg),
                       {"schema": tag, "facet": facet, "document": doc,
                        "detail": extra}, key=key)
        for s in t.samples:
            check.sample(s)


# --- Python -----------------------------------------------------------------

def _outcome_py(p, doc, ref_, cap):
    """Outcome of the generated Python code in the drivers' common form."""
    out = {}
    try:
        errors = p.errors(cap)
        g = p.from_(doc, ref_, errors)
        vals = list(errors.values())
    except Exception as e:  # pylint: disable=broad-except
        return {"panic": "{}: {}".format(type(e).__name__, e)}, None
    out["errors"] = [e.ref for e in vals]
    for e in vals:
        if not isinstance(e.message, str) or not e.message:
            out["nomessage"] = True
    out["none"] = g is None
    if g is not None:
        try:
            out["dump"] = p.dump(g)
        except Exception as e:  # pylint: disable=broad-except
            out["dumppanic"] = "{}: {}".format(type(e).__name__, e)
    return out, g


def _work_py(args):
    from mc import drv_py
    tag, (schema, k), facets, known, kw = args
    t = Tally()
    model = ref.Model(schema)
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    t.n["schemas"] += 1
    it = ref.Interp(model, "py")
    lax = ref.Interp(model, "py", quirks=True)
    try:
        for doc in k if isinstance(k, list) else docs.Docs(
                model, k, **kw).documents():
            t.n["states"] += 1
            try:
                r = it.parse(doc)
            except ref.Unspecified:
                t.n["unspecified"] += 1
                continue
            _judge_py(t, tag, p, it, lax, doc, r, facets, known)
            if t.nbad > 20:
                break
    finally:
        p.unload()
    if model.classes:
        t.n["schemas_with_classes"] += 1
    return t


def _copy(doc):
    return copy.deepcopy(doc)


def _judge_py(t, tag, p, it, lax, doc, r, facets, known):
    if r.errors and not JUDGE_INVALID & set(facets):
        t.n["invalid_documents"] += 1
        return
    before = _copy(doc) if "pure" in facets else None
    a, g = _outcome_py(p, doc, "#", BIG)
    t.n["transitions"] += 1
    t.n["traces_validated_against_impl"] += 1
    msgs = _compare(it, r, a, facets)
    if msgs:
        # perhaps a known finding explains the difference entirely
        try:
            q = lax.parse(doc)
        except ref.Unspecified:
            q = None
        if q is not None and q.quirks and all(x in known for x in q.quirks):
            if not _compare(lax, q, a, facets):
                for x in q.quirks:
                    t.hits[x] += 1
                return
        for facet, m in msgs:
            t.fail(tag, facet, m, doc, {"errors": a.get("errors"),
                                        "expected": r.errors})
        return
    if r.errors:
        t.n["invalid_documents"] += 1
        if "caps" in facets:
            _caps_py(t, tag, p, it, doc, r)
    else:
        t.n["valid_documents"] += 1
        if len(t.samples) < 1 and t.n["valid_documents"] == 1:
            t.samples.append({"schema": tag, "document": doc,
                              "outcome": "accepted"})
    if "refs" in facets and r.errors:
        # the reference that the caller passes is the root of all references
        for base in ("", "some/where#"):
            b, _ = _outcome_py(p, doc, base, BIG)
            t.n["transitions"] += 1
            want = [base + e[1:] for e in r.errors]
            if "panic" in b or not same_errors(b["errors"], want):
                t.fail(tag, "refs", "under the reference {!r} expected {}, "
                       "got {}".format(base, want,
                                       b.get("errors", b.get("panic"))), doc)
    if "pure" in facets:
        if not _same_json(before, doc):
            t.fail(tag, "pure", "the document was changed by the parsing",
                   before)
        b, g2 = _outcome_py(p, doc, "#", BIG)
        t.n["transitions"] += 1
        if b != a:
            t.fail(tag, "pure", "parsing again gives another outcome", doc)
        if g is not None and g2 is not None:
            _pure_ser(t, tag, p, doc, g, g2, a)
    if r.errors:
        return
    if g is not None and "rt" in facets:
        _roundtrip_py(t, tag, p, it, doc, r, g)
    if g is not None and "order" in facets:
        _order_py(t, tag, p, it, doc, r, g, a)


def _same_json(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(_same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(_same_json, a, b))
    return a == b


def _pure_ser(t, tag, p, doc, g, g2, a):
    before = _copy(doc)
    try:
        j1 = p.serialize(g)
        keep = _copy(j1)
        j2 = p.serialize(g)
        j3 = p.serialize(g2)
    except Exception as e:  # pylint: disable=broad-except
        t.fail(tag, "pure", "serialization raised {!r}".format(e), doc)
        return
    if not (_same_json(j1, keep) and _same_json(j1, j2) and
            _same_json(j1, j3)):
        t.fail(tag, "pure", "serializing again gives another value", doc)
    if p.dump(g) != a["dump"]:
        t.fail(tag, "pure", "the serialization changed the graph", doc)
    # mutating one serialized value must not reach the graph or the document
    _scribble(j1)
    if p.dump(g) != a["dump"]:
        t.fail(tag, "pure", "the serialized value shares objects with the "
               "graph", doc)
    if not _same_json(doc, before):
        t.fail(tag, "pure", "the serialized value shares objects with the "
               "document", doc)
    t.n["transitions"] += 3


def _scribble(j):
    if isinstance(j, dict):
        for v in list(j.values()):
            _scribble(v)
        j["scribble"] = 1
    elif isinstance(j, list):
        for v in j:
            _scribble(v)
        j.append("scribble")


def _compare(it, r, a, facets):
    """(facet, message) of the differences visible right after parsing."""
    out = []
    if "panic" in a:
        # an exception escaping the parsing violates every facet
        if r.panic:
            return out
        return [("accept", "the parsing raised " + a["panic"])]
    if "nomessage" in a and "refs" in facets:
        out.append(("refs", "an error without a message"))
    if r.errors:
        if not a["errors"]:
            if "accept" in facets or "refs" in facets:
                out.append(("accept", "accepted, but has to be rejected at "
                            "{}".format(r.errors)))
        elif "refs" in facets and not same_errors(a["errors"], r.errors):
            out.append(("refs", "errors at {} instead of {}".format(
                a["errors"], r.errors)))
        if a.get("none") is False and "accept" in facets:
            out.append(("accept", "a graph is returned despite of errors"))
        return out
    if a["errors"]:
        if "accept" in facets or "refs" in facets or "value" in facets or \
                "rt" in facets:
            out.append(("accept", "rejected at {}, but the document is valid"
                        .format(a["errors"])))
        return out
    if a.get("none"):
        return [("accept", "neither a graph nor an error is given")]
    if "dumppanic" in a:
        return [("value", "the graph can not be read: " + a["dumppanic"])]
    if "value" in facets:
        df = it.diff_graph(r.graph, a["dump"])
        if df:
            out.append(("value", "; ".join(df[:3])))
    return out


def _caps_py(t, tag, p, it, doc, r):
    total = len(r.errors)
    for cap in (0, 1, 2, 3):
        if cap > total:
            break
        a, _ = _outcome_py(p, doc, "#", cap)
        t.n["transitions"] += 1
        if "panic" in a:
            if cap == 0:
                continue
            t.fail(tag, "caps", "cap {}: raised {}".format(cap, a["panic"]),
                   doc)
            continue
        if len(a["errors"]) != min(cap, total) or not sub_multiset(
                a["errors"], r.errors):
            t.fail(tag, "caps", "cap {}: errors {} of {}".format(
                cap, a["errors"], r.errors), doc)
        if a["none"] is False:
            t.fail(tag, "caps", "cap {}: a graph is returned".format(cap),
                   doc)


def _roundtrip_py(t, tag, p, it, doc, r, g):
    try:
        j = p.serialize(g)
        j = json.loads(json.dumps(j), object_pairs_hook=collections.OrderedDict)
    except Exception as e:  # pylint: disable=broad-except
        t.fail(tag, "rt", "serialization raised {!r}".format(e), doc)
        return
    t.n["round_trips"] += 1
    t.n["transitions"] += 2
    df = it.diff_json(r.graph, j)
    if df:
        t.fail(tag, "rt", "serialized: " + "; ".join(df[:3]), doc, j)
        return
    b, g2 = _outcome_py(p, j, "#", BIG)
    if "panic" in b or b["errors"] or b["none"]:
        t.fail(tag, "rt", "the serialized value does not parse: {}".format(
            b.get("panic", b.get("errors"))), doc, j)
        return
    if "dumppanic" in b:
        t.fail(tag, "rt", b["dumppanic"], doc, j)
        return
    df = it.diff_graph(r.graph, b["dump"])
    if df:
        t.fail(tag, "rt", "parsed back: " + "; ".join(df[:3]), doc, j)


def _order_py(t, tag, p, it, doc, r, g, a):
    """Registries and maps keep the order of the document."""
    t.n["order_checks"] += 1
    j = p.serialize(g)
    for cls in it.m.classes.values():
        want = list((r.graph["reg"].get(cls.name) or {}))
        got = list(a["dump"]["reg"][cls.name])
        if want != got:
            t.fail(tag, "order", "registry {}: {} instead of {}".format(
                cls.name, got, want), doc)
        if want and list(j[cls.registry]) != want:
            t.fail(tag, "order", "serialized registry {}: {} instead of {}"
                   .format(cls.name, list(j[cls.registry]), want), doc)
        for id_ in want:
            _order_props(t, tag, it, cls, r.graph["reg"][cls.name][id_],
                         a["dump"]["reg"][cls.name][id_]["props"],
                         j[cls.registry][id_], doc)
    _order_props(t, tag, it, it.m.graph, r.graph["props"],
                 a["dump"]["props"], j, doc)


def _order_props(t, tag, it, comp, want, got, j, doc):
    for p in comp.props:
        if want.get(p.name) is None:
            continue
        _order_value(t, tag, it, p.type, want[p.name], got[p.name],
                     j[p.json], doc)


def _order_value(t, tag, it, typ, want, got, j, doc):
    kind = typ["type"]
    if kind == "array":
        for w, g, x in zip(want["list"], got["list"], j):
            _order_value(t, tag, it, typ["values"], w, g, x, doc)
    elif kind == "map":
        if not (list(want["map"]) == list(got["map"]) == list(j)):
            t.fail(tag, "order", "map: {} parsed and {} serialized instead "
                   "of {}".format(list(got["map"]), list(j),
                                  list(want["map"])), doc)
            return
        for k in want["map"]:
            _order_value(t, tag, it, typ["values"], want["map"][k],
                         got["map"][k], j[k], doc)
    elif kind in it.m.embeds:
        _order_props(t, tag, it, it.m.embeds[kind], want["embed"],
                     got["embed"], j, doc)


def known_keys(check):
    """Keys of all the known findings, whatever property they belong to."""
    return {k for (_, k) in check.known}


def explore_py(check, plan, facets):
    known = known_keys(check)
    items = plan.ordered()
    merge(check, core.pmap(
        _work_py, [(t, sk, tuple(facets), known, plan.kw) for t, sk in items]))


# --- Go and C++ -------------------------------------------------------------

_bundle = None
CHUNK = 3000
DATE_H = "cpp-dateh-trailing"
GO_PANIC = "unexpected non-empty errors"


def _requests(lang, doc, r, facets, t):
    """What to ask the driver about one document: [(what, request)]."""
    out = []
    if not r.errors:
        if "rt" in facets:
            out.append(("rt", {"op": "rt", "doc": doc, "ref": "#", "cap": 0}))
        elif {"accept", "value"} & facets:
            out.append(("valid", {"op": "parse", "doc": doc, "ref": "#",
                                  "cap": 0, "n": 2}))
        return out
    if "accept" in facets:
        out.append(("one", {"op": "parse", "doc": doc, "ref": "#",
                            "cap": 1, "n": 2}))
    if "refs" in facets:
        out.append(("all", {"op": "parse", "doc": doc, "ref": "#", "cap": 0,
                            "n": 1}))
        out.append(("base", {"op": "parse", "doc": doc, "ref": "some/where#",
                             "cap": 0}))
        for cap in (1, 2, 3):
            if cap <= len(r.errors):
                out.append(("cap", {"op": "parse", "doc": doc, "ref": "#",
                                    "cap": cap}))
    return out


def _work_compiled(args):
    lang, key, tag, (schema, k), facets, known, kw = args
    t = Tally()
    b = _bundle
    if tag in b.broken:
        t.fail(tag, "load", b.broken[tag], None)
        return t
    t.n["schemas"] += 1
    model = b.models[tag]
    it = ref.Interp(model, lang)
    pending = []
    for doc in k if isinstance(k, list) else docs.Docs(
            model, k, skip=b.skip, **kw).documents():
        if b.skip(doc):
            continue
        t.n["states"] += 1
        try:
            r = it.parse(doc)
        except ref.Unspecified:
            t.n["unspecified"] += 1
            continue
        t.n["invalid_documents" if r.errors else "valid_documents"] += 1
        rqs = _requests(lang, doc, r, facets, t)
        pending.extend((doc, r, what, rq) for what, rq in rqs)
        if rqs:
            t.n["traces_validated_against_impl"] += 1
        if not t.samples and not r.errors and rqs:
            t.samples.append({"schema": tag, "document": doc,
                              "outcome": "accepted"})
        if len(pending) >= CHUNK:
            _flush(t, tag, b, it, pending, facets, known)
            pending = []
            if t.nbad > 20:
                break
    _flush(t, tag, b, it, pending, facets, known)
    return t


def _flush(t, tag, b, it, pending, facets, known):
    if not pending:
        return
    answers = b.run(tag, [rq for _, _, _, rq in pending])
    for (doc, r, what, rq), a in zip(pending, answers):
        t.n["transitions"] += rq.get("n", 1)
        _judge_compiled(t, tag, it, doc, r, what, rq, a, facets, known)


def _judge_compiled(t, tag, it, doc, r, what, rq, a, facets, known):
    lang = it.lang
    if a.get("mutated"):
        t.fail(tag, "pure", "the document was changed", doc, rq)
    if r.errors and DATE_H in known and it.settings.get(
            "datetime_library") == "date.h" and a.get("panic") is None:
        q = ref.Interp(it.m, lang, quirks=True).parse(doc)
        if q.quirks == {DATE_H}:
            want = [rq["ref"] + e[1:] for e in q.errors]
            if (same_errors(a["errors"], want) if rq["cap"] == 0 else
                    len(a["errors"]) == min(rq["cap"], len(want)) and
                    sub_multiset(a["errors"], want)):
                t.hits[DATE_H] += 1
                return
    if not r.errors:
        if a.get("panic") is not None:
            t.fail(tag, "accept", "raised " + a["panic"], doc)
            return
        if a["errors"]:
            t.fail(tag, "accept", "rejected at {}, but the document is valid"
                   .format(a["errors"]), doc)
            return
        if "others" in a:
            t.fail(tag, "pure", "parsing again gives another outcome", doc,
                   a["others"])
        if a.get("dumppanic"):
            t.fail(tag, "value", a["dumppanic"], doc)
            return
        if "value" in facets:
            df = it.diff_graph(r.graph, a["dump"])
            if df:
                t.fail(tag, "value", "; ".join(df[:3]), doc)
        if what == "rt":
            _judge_rt(t, tag, it, doc, r, a, known)
        return
    want = list(r.errors)
    if what == "base":
        want = [rq["ref"] + e[1:] for e in want]
    if a.get("panic") is not None:
        if (lang == "go" and a["panic"] == GO_PANIC and rq["cap"] != 1 and
                (it.m.classes or it.m.embeds) and a["errors"] and
                sub_multiset(a["errors"], want) and
                "go-panic-after-error" in known):
            t.hits["go-panic-after-error"] += 1
            t.n["panics_after_errors"] += 1
            return
        t.fail(tag, "accept", "cap {}: raised {}; errors {} of {}".format(
            rq["cap"], a["panic"], a["errors"], want), doc)
        return
    if a.get("nomessage"):
        t.fail(tag, "refs", "an error without a message", doc)
    if not a["errors"]:
        t.fail(tag, "accept", "cap {}: accepted, but has to be rejected at {}"
               .format(rq["cap"], want), doc)
        return
    if "refs" not in facets:
        return
    got = a["errors"]
    if what in ("all", "base"):
        if not same_errors(got, want):
            t.fail(tag, "refs", "errors at {} instead of {}".format(
                got, want), doc)
    elif len(got) != min(rq["cap"], len(want)) or not sub_multiset(got, want):
        t.fail(tag, "caps", "cap {}: errors {} of {}".format(
            rq["cap"], got, want), doc)


def _judge_rt(t, tag, it, doc, r, a, known):
    t.n["round_trips"] += 1
    if a.get("serpanic") or a.get("sererr"):
        t.fail(tag, "rt", "the serialization failed: {}".format(
            a.get("serpanic") or a.get("sererr")), doc)
        return
    if "json" not in a:
        t.fail(tag, "rt", "nothing was serialized", doc)
        return
    j = a["json"]
    df = it.diff_json(r.graph, j)
    b = a["again"]
    t.n["transitions"] += 2
    if df:
        lax = ref.Interp(it.m, it.lang, quirks=True)
        if (not lax.diff_json(r.graph, j) and lax.used and
                all(x in known for x in lax.used)):
            # The value is known to be wrong; what it parses as is not open.
            for x in lax.used:
                t.hits[x] += 1
            want = it.parse(j).errors
            if not (want and same_errors(want, b["errors"])):
                t.fail(tag, "rt", "the serialized value gives the errors {} "
                       "instead of {}".format(b["errors"], want), doc, j)
            return
        t.fail(tag, "rt", "serialized: " + "; ".join(df[:3]), doc, j)
        return
    if b.get("panic") or b["errors"] or b.get("dumppanic"):
        t.fail(tag, "rt", "the serialized value does not parse: {}".format(
            b.get("panic") or b.get("dumppanic") or b["errors"]), doc, j)
        return
    df = it.diff_graph(r.graph, b["dump"])
    if df:
        t.fail(tag, "rt", "parsed back: " + "; ".join(df[:3]), doc, j)


def explore_compiled(check, lang, plan, facets, **kw):
    """Explore the documents of the plan against generated Go or C++ code."""
    global _bundle
    import importlib
    drv = importlib.import_module("mc.drv_" + lang)
    schemas = collections.OrderedDict()
    for key, (s, _) in plan.items.items():
        schemas[key.rsplit("@", 1)[0]] = s
    _bundle = drv.Bundle(schemas, **kw)
    known = known_keys(check)
    items = plan.ordered()
    merge(check, core.pmap(_work_compiled, [
        (lang, key, key.rsplit("@", 1)[0], sk, frozenset(facets), known,
         plan.kw) for key, sk in items]))
