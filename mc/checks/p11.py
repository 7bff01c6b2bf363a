"""What one language writes, the others read as the same object graph.

Every document which the reference interpreter accepts for all of Python, Go
and C++ is parsed and serialized by the generated code of each language.  Each
of the three serialized values is then parsed by the generated code of the other
languages, and the graph has to be the one of the original document.
"""
import collections
import json

from mc import core, corpus, docs, drv_cpp, drv_go, drv_py, explore, ref

LANGS = ("py", "go", "cpp")
KNOWN = "cpp-null-composite"
LONG = "py-long-whole-number"
_bundles = {}
CHUNK = 1500


def _exact(value):
    """Check that each number is the same as a 64-bit floating-point number."""
    if isinstance(value, dict):
        return all(_exact(v) for v in value.values())
    if isinstance(value, list):
        return all(_exact(v) for v in value)
    if isinstance(value, int) and not isinstance(value, bool):
        try:
            return int(float(value)) == value
        except OverflowError:
            return False
    return True


def _floats(value):
    """Take the numbers which _exact does not accept as floats."""
    if isinstance(value, dict):
        return collections.OrderedDict(
            (k, _floats(v)) for k, v in value.items())
    if isinstance(value, list):
        return [_floats(v) for v in value]
    return value if _exact(value) else float(value)


def _through_py(p, batch):
    """Serialized values of the documents, by the Python code."""
    out = []
    for doc in batch:
        a, g = explore._outcome_py(p, doc, "#", explore.BIG)
        if g is None:
            out.append((None, "Python rejects the document: {}".format(
                a.get("panic", a.get("errors")))))
            continue
        try:
            out.append((json.loads(
                json.dumps(p.serialize(g)),
                object_pairs_hook=collections.OrderedDict), None))
        except Exception as e:  # pylint: disable=broad-except
            out.append((None, "Python does not serialize: {!r}".format(e)))
    return out


def _through_compiled(lang, tag, batch):
    out = []
    for a in _bundles[lang].run(tag, [
            {"op": "rt", "doc": doc, "ref": "#", "cap": 0} for doc in batch]):
        if "json" in a and a["json"] is not None:
            out.append((a["json"], None))
        elif "json" in a:
            out.append((None, "null"))
        else:
            out.append((None, "{} does not serialize: {}".format(lang, {
                x: a.get(x) for x in ("panic", "errors", "serpanic",
                                      "sererr") if a.get(x)})))
    return out


def _read(lang, tag, p, values):
    if lang == "py":
        return [explore._outcome_py(p, v, "#", explore.BIG)[0]
                for v in values]
    return _bundles[lang].run(tag, [
        {"op": "parse", "doc": v, "ref": "#", "cap": 0, "n": 1}
        for v in values])


def _judge(t, tag, p, writer, reader, doc, value, want, its, known, a):
    t.n["transitions"] += 1
    if not (a.get("panic") is not None or a["errors"] or a.get("dumppanic")):
        df = its[reader].diff_graph(want[reader].graph, a["dump"])
        if not df:
            return
        msg = "as another graph: " + "; ".join(df[:3])
    else:
        msg = "not at all: {}".format(a.get("panic") or a.get("dumppanic")
                                      or a["errors"])
    if writer == "cpp" and KNOWN in known:
        lax = ref.Interp(its["cpp"].m, "cpp", quirks=True)
        if (its["cpp"].diff_json(want["cpp"].graph, value) and
                not lax.diff_json(want["cpp"].graph, value) and
                lax.used == {KNOWN}):
            t.hits[KNOWN] += 1
            return
    if writer == "go" and reader == "py" and LONG in known and (
            not _exact(value)):
        a = explore._outcome_py(p, _floats(value), "#", explore.BIG)[0]
        if not a.get("panic") and not a["errors"] and not a.get(
                "dumppanic") and not its["py"].diff_graph(
                    want["py"].graph, a["dump"]):
            t.hits[LONG] += 1
            return
    t.fail(tag, "interop", "what {} writes, {} reads {}".format(
        writer, reader, msg), doc, {"written": value})


def _flush(t, tag, p, pending, its, known):
    if not pending:
        return
    batch = [doc for doc, _ in pending]
    for writer in LANGS:
        got = (_through_py(p, batch) if writer == "py" else
               _through_compiled(writer, tag, batch))
        t.n["transitions"] += len(batch)
        usable = []
        for (doc, want), (value, err) in zip(pending, got):
            if err == "null":
                # the value of a graph without anything set; see P10
                lax = ref.Interp(its[writer].m, writer, quirks=True)
                if (writer == "cpp" and KNOWN in known and
                        not lax.diff_json(want[writer].graph, None) and
                        lax.used == {KNOWN}):
                    t.hits[KNOWN] += 1
                    continue
                err = "{} writes null".format(writer)
            if err is not None:
                t.fail(tag, "interop", err, doc)
                continue
            usable.append((doc, want, value))
        for reader in LANGS:
            if reader == writer:
                continue  # see P07 and P10
            for (doc, want, value), a in zip(
                    usable, _read(reader, tag, p, [u[2] for u in usable])):
                _judge(t, tag, p, writer, reader, doc, value, want, its,
                       known, a)


def _work(args):
    key, (schema, k), known, kw = args
    tag = key.rsplit("@", 1)[0]
    t = explore.Tally()
    for lang in ("go", "cpp"):
        if tag in _bundles[lang].broken:
            t.fail(tag, "load", _bundles[lang].broken[tag], None)
            return t
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    t.n["schemas"] += 1
    try:
        model = ref.Model(schema)
        its = {lang: ref.Interp(model, lang) for lang in LANGS}
        skip = lambda d: any(b.skip(d) for b in _bundles.values())
        pending = []
        for doc in docs.Docs(model, k, skip=skip, **kw).documents():
            if skip(doc):
                continue
            t.n["states"] += 1
            if not _exact(doc):
                # Go code is given the numbers as 64-bit floating-point
                # numbers, so the number is rounded before mapry sees it.
                t.n["inexact_numbers"] += 1
                continue
            want = {}
            try:
                for lang in LANGS:
                    want[lang] = its[lang].parse(doc)
                    if want[lang].errors:
                        break
            except ref.Unspecified:
                t.n["unspecified"] += 1
                continue
            if want[lang].errors:
                t.n["invalid_documents"] += 1
                continue
            t.n["valid_documents"] += 1
            t.n["traces_validated_against_impl"] += 1
            if not t.samples:
                t.samples.append({"schema": tag, "document": doc})
            pending.append((doc, want))
            if len(pending) >= CHUNK:
                _flush(t, tag, p, pending, its, known)
                pending = []
                if t.nbad > 20:
                    break
        _flush(t, tag, p, pending, its, known)
    finally:
        p.unload()
    return t


def run(check):
    plan = explore.default_plan("cpp") if core.THOROUGH else explore.Plan().add(
        corpus.all_schemas(), 1, lambda t: not t.startswith(
            ("alone_", "leaf_", "nested_class", "nested_embed")))
    if not core.THOROUGH:
        plan.add(explore.lean(), 1)
        plan.add(explore.varied("cpp", False), 1)
    schemas = collections.OrderedDict()
    for key, (s, _) in plan.items.items():
        schemas[key.rsplit("@", 1)[0]] = s
    _bundles["go"] = drv_go.Bundle(schemas)
    _bundles["cpp"] = drv_cpp.Bundle(schemas)
    known = explore.known_keys(check)
    items = sorted(plan.items.items(), key=lambda kv: -kv[1][1])
    explore.merge(check, core.pmap(
        _work, [(key, sk, known, plan.kw) for key, sk in items]))
