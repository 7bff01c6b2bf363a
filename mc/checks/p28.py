"""Messages of errors, in the three languages.

All the documents with one error, of the corpus: the message says what was expected
and what was found.  What it has to contain follows from the reference interpreter.
"""
import collections
import json
import os
import re

from mc import core, corpus, docs, drv_cpp, drv_go, explore, ref

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)")


def plan():
    res = collections.OrderedDict()
    lean = explore.lean()
    for t, s in lean.items():
        res[t] = s
    st = corpus.structures()
    res.update(st)
    top = corpus.topologies()
    res.update((t, s) for t, s in top.items()
               if core.THOROUGH or t.startswith(("ref1_", "emb_")))
    for i, p in enumerate([
            "^%s%d%%$", "^\\{\\}$", "^\\{0\\}a\\{x!r\\}$", '^"a"$', "^'b'$",
            "^`c`$", "^\\\\$", "^\u00e4$", "^\\?\\?/$", "^a b$"]):
        res["pat_{}".format(i)] = corpus.schema(
            [("s", corpus.prop({"type": "string", "pattern": p})),
             ("f", corpus.prop({"type": "path", "pattern": p})),
             ("m", corpus.prop(corpus.mp({"type": "string", "pattern": p}))),
             ("n%", corpus.prop({"type": "string"}))][:3],
            [corpus.cls("Alpha", [], id_pattern=p)])
    for i, n in enumerate(["%s", "{}", "{0!r}", 'a"b', "a'b", "`", "\\",
                           "\u00e4", " ", "a/b"]):
        res["json_{}".format(i)] = corpus.schema(
            [("x", corpus.prop({"type": "integer"}, json=n))],
            [corpus.cls("Alpha", [("y", corpus.prop({"type": "integer"},
                                                    json=n))])],
            [corpus.embed("Emb", [("z", corpus.prop({"type": "integer"},
                                                    json=n))])])
    return res


def near(a, b):
    """Whether a printed number stands for the number."""
    return abs(a - b) <= max(abs(b) * 1e-6, 1e-6)


def numbers(text):
    return [float(x) for x in NUMBER.findall(text)]


def lacks(lang, why, text):
    """What the message has to say but does not, if anything."""
    what, about = why[0], why[1:]
    if what == "missing":
        return None if about[0] in text else "the JSON name " + about[0]
    if what in ("bound", "size"):
        want = list(about)
        if what == "bound" and lang == "go" and any(
                abs(x) > 1e300 for x in want):
            return None
        got = numbers(text)
        for x in want:
            if not any(near(g, x) for g in got):
                return "the number {!r}".format(x)
        if near(*want) and sum(near(g, want[0]) for g in got) < 2:
            return "both numbers {!r}".format(want)
        return None
    if what == "fraction":
        if lang == "cpp":
            # found is a "real", which is enough
            return None
        return None if any(near(g, about[0]) for g in numbers(text)) else (
            "the number {!r}".format(about[0]))
    if what in ("pattern", "id"):
        for x in about:
            if x not in text:
                return repr(x)
        return None
    if what == "format":
        if about[1] not in text:
            return repr(about[1])
        if lang != "go" and about[0] not in text:
            return repr(about[0])
        return None
    if what == "reference":
        # the identifier, and the class by one of its names
        if about[1] not in text:
            return repr(about[1])
        if about[0].lower() not in text.lower().replace(" ", "_") and (
                ref.ucamel(about[0]).lower() not in text.lower()):
            return "the class " + about[0]
        return None
    if what in ("time_zone", "duration"):
        if what == "duration" and lang == "go":
            return None
        return None if about[0] in text else repr(about[0])
    return None


KINDS = collections.OrderedDict([
    ("null", None), ("boolean", True), ("number", 5), ("string", "x"),
    ("array", []), ("object", {})])


def kind_of(v):
    for k, x in KINDS.items():
        if type(x) is type(v) or k == "number" and type(v) is float:
            return k
    raise AssertionError(v)


def documents(model, lang, skip):
    it = ref.Interp(model, lang)
    for doc in docs.Docs(model, 1, skip=skip).documents():
        if skip(doc):
            continue
        try:
            r = it.parse(doc)
        except ref.Unspecified:
            continue
        if len(r.errors) == 1:
            yield doc, r.errors[0], it.whys[0]


def judge(t, tag, lang, todo, answers):
    words = collections.defaultdict(dict)
    for (doc, where, why), a in zip(todo, answers):
        t.n["states"] += 1
        t.n["transitions"] += 1
        if a["errors"] != [where]:
            # the documents and places are checked by other properties
            t.n["left_"+lang] += 1
            continue
        t.n["traces_validated_against_impl"] += 1
        text = a["messages"][0]
        t.n["messages_" + why[0]] += 1
        miss = lacks(lang, why, text)
        if miss:
            t.fail(tag, lang, "the message {!r} at {} lacks {}".format(
                text, where, miss), doc)
        if why[0] == "kind":
            words[where].setdefault(kind_of(why[1]), set()).add(text)
    for where, by in words.items():
        for k, texts in by.items():
            for l, others in by.items():
                if k < l and texts & others:
                    t.fail(tag, lang, "the message {!r} at {} is the same "
                           "for {} and {}".format(
                               list(texts & others)[0], where, k, l), None)


def _py(args):
    from mc import drv_py
    tag, schema = args
    t = explore.Tally()
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    t.n["schemas"] += 1
    todo = list(documents(p.model, "py", lambda _: False))
    answers = []
    for doc, _, _ in todo:
        e = p.errors()
        a = {}
        try:
            p.from_(doc, "#", e)
        except Exception as x:  # pylint: disable=broad-except
            a["panic"] = repr(x)
        a["errors"] = [x.ref for x in e.values()]
        a["messages"] = [x.message for x in e.values()]
        answers.append(a)
    p.unload()
    judge(t, tag, "py", todo, answers)
    return t


_bundle = None


def _compiled(args):
    lang, tag = args
    t = explore.Tally()
    if tag in _bundle.broken:
        t.fail(tag, "load", _bundle.broken[tag], None)
        return t
    t.n["schemas"] += 1
    todo = list(documents(_bundle.models[tag], lang, _bundle.skip))
    os.environ["MC_MESSAGES"] = "1"
    _bundle.env = dict(getattr(_bundle, "env", os.environ), MC_MESSAGES="1")
    judge(t, tag, lang, todo, _bundle.run(tag, [
        {"op": "parse", "doc": d, "ref": "#", "cap": 0} for d, _, _ in todo]))
    return t


def run(check):
    global _bundle
    todo = plan()
    explore.merge(check, core.pmap(_py, list(todo.items())))
    for lang, drv in (("go", drv_go), ("cpp", drv_cpp)):
        _bundle = drv.Bundle(todo)
        explore.merge(check, core.pmap(
            _compiled, [(lang, t) for t in todo]))
