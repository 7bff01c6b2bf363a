"""Instances registered under another identifier are not serialized."""
import collections
import importlib
import json

from mc import core, corpus, docs, drv_py, explore, ref

FRESH = ["zz", "", "a ", "A"]


def schemas():
    top = corpus.topologies()
    keep = [t for t in top if t.startswith("ref1_")]
    if core.THOROUGH:
        keep = list(top)
    res = collections.OrderedDict((t, top[t]) for t in keep)
    st = corpus.structures()
    for t in ("idpat", "plural", "upper", "alphabetical", "only_class",
              "only_classes", "deep_ref", "json"):
        res[t] = st[t]
    return res


def histories(model, k):
    """Valid documents with every single renaming of an instance."""
    it = ref.Interp(model, "py")
    d = docs.Docs(model, k, links=True)
    for doc in d.documents():
        try:
            r = it.parse(doc)
        except ref.Unspecified:
            continue
        if r.errors:
            continue
        for cls in model.classes.values():
            ids = list(r.graph["reg"].get(cls.name) or {})
            for id_ in ids:
                for to in docs._uniq(ids + d.all_ids() + FRESH):
                    yield doc, cls.name, id_, to


def _py(args):
    tag, schema, k = args
    t = explore.Tally()
    model = ref.Model(schema)
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    t.n["schemas"] += 1
    for doc, cls, id_, to in histories(model, k):
        t.n["states"] += 1
        t.n["transitions"] += 3
        t.n["traces_validated_against_impl"] += 1
        e = p.errors()
        g = p.from_(doc, "#", e)
        if g is None or not e.empty():
            t.fail(tag, "id", "a valid document was rejected", doc)
            break
        reg = getattr(g, model.classes[cls].plural.lower())
        reg[id_].id = to
        try:
            out = p.serialize(g)
        except ValueError as x:
            if to == id_:
                t.fail(tag, "id", "refused: {}".format(x), doc)
            else:
                t.n["refused"] += 1
            continue
        except Exception as x:  # pylint: disable=broad-except
            t.fail(tag, "id", "raised {!r}".format(x), [doc, cls, id_, to])
            continue
        if to != id_:
            t.fail(tag, "id", "Python: {} {!r} with the ID {!r} was "
                   "serialized".format(cls, id_, to), [doc, cls, id_, to],
                   out)
        else:
            t.n["serialized"] += 1
    p.unload()
    return t


_bundle = None


def _compiled(args):
    lang, tag, schema, k = args
    t = explore.Tally()
    b = _bundle
    if tag in b.broken:
        t.fail(tag, "load", b.broken[tag], None)
        return t
    t.n["schemas"] += 1
    todo = list(histories(b.models[tag], k))
    answers = b.run(tag, [
        {"op": "misid", "doc": doc, "ref": "#", "cap": 0, "cls": cls,
         "id": id_, "to": to} for doc, cls, id_, to in todo])
    for (doc, cls, id_, to), a in zip(todo, answers):
        t.n["states"] += 1
        t.n["transitions"] += 3
        t.n["traces_validated_against_impl"] += 1
        if a.get("errors") or a.get("panic"):
            t.fail(tag, "id", "{}: a valid document was rejected".format(
                lang), doc, a)
            break
        refused = "sererr" in a or (
            lang == "cpp" and str(a.get("serpanic", "")).startswith(
                "exception: "))
        if "serpanic" in a and not refused:
            t.fail(tag, "id", "{}: {}".format(lang, a["serpanic"]),
                   [doc, cls, id_, to])
        elif refused != (to != id_):
            t.fail(tag, "id", "{}: {} {!r} with the ID {!r} was {}".format(
                lang, cls, id_, to,
                "refused" if refused else "serialized"),
                [doc, cls, id_, to], a)
        t.n["refused" if refused else "serialized"] += 1
    return t


def run(check):
    global _bundle
    k = 2 if core.THOROUGH else 1
    todo = schemas()
    explore.merge(check, core.pmap(
        _py, [(t, s, k) for t, s in todo.items()]))
    for lang in ("go", "cpp"):
        _bundle = importlib.import_module("mc.drv_" + lang).Bundle(todo)
        explore.merge(check, core.pmap(
            _compiled, [(lang, t, s, k) for t, s in todo.items()]))
