"""Generated C++ has no undefined behaviour and reads no stale memory.

All the documents of the bounded space run twice: in a program with the
address and undefined behaviour sanitizers in which everything that is not
initialized holds a pattern, and in a program where it holds zeros.  The first
has to end normally, and both have to give the same answers.
"""
from mc import core, corpus, docs, drv_cpp, explore, ref

CHUNK = 4000


def plan():
    out = explore.Plan()
    out.add(explore.varied("cpp", core.THOROUGH), 1)
    out.add(explore.lean(), 1)
    out.add(corpus.structures(), 1)
    topo = corpus.topologies()
    out.add(topo, 1, None if core.THOROUGH else (
        lambda t: list(topo).index(t) % 5 == 0))
    return out


_bundles = None


def requests(model, doc):
    out = [{"op": "rt", "doc": doc, "ref": "#", "cap": 0}]
    try:
        if ref.Interp(model, "cpp").parse(doc).errors:
            out.append({"op": "parse", "doc": doc, "ref": "#", "cap": 1})
        elif isinstance(doc, dict):
            # a graph with an instance under another identifier
            for cls in model.classes.values():
                for id_ in list(doc.get(cls.registry) or {})[:1]:
                    out.append({"op": "misid", "doc": doc, "ref": "#",
                                "cap": 0, "cls": cls.name, "id": id_,
                                "to": id_ + "x"})
    except ref.Unspecified:
        pass
    return out


def answer(b, tag, rqs):
    """(answers, None), or the first request which kills the program."""
    try:
        return b.run(tag, rqs), None
    except drv_cpp.Broken as e:
        lo, hi, why = 0, len(rqs), e
    while hi - lo > 1:
        mid = (lo + hi) // 2
        try:
            b.run(tag, rqs[lo:mid])
            lo = mid
        except drv_cpp.Broken as e:
            hi, why = mid, e
    return None, (rqs[lo], str(why))


def _work(args):
    tag, k, kw = args
    t = explore.Tally()
    san, plain = _bundles
    for b in _bundles:
        if tag in b.broken:
            t.fail(tag, "load", b.broken[tag], None)
            return t
    t.n["schemas"] += 1
    todo = []
    for doc in docs.Docs(san.models[tag], k, skip=san.skip, **kw).documents():
        if san.skip(doc):
            continue
        t.n["states"] += 1
        t.n["traces_validated_against_impl"] += 1
        todo += requests(san.models[tag], doc)
    for i in range(0, len(todo), CHUNK):
        rqs = todo[i:i + CHUNK]
        t.n["transitions"] += 2 * len(rqs)
        a, dead = answer(san, tag, rqs)
        if dead:
            t.fail(tag, "sanitizer", dead[1], dead[0])
            continue
        b, dead = answer(plain, tag, rqs)
        if dead:
            t.fail(tag, "death", dead[1], dead[0])
            continue
        for rq, x, y in zip(rqs, a, b):
            if x != y:
                t.fail(tag, "stale", "the outcome depends on memory which is "
                       "not initialized: {} and {}".format(
                           str(x)[:200], str(y)[:200]), rq)
            t.n["accepted" if not x.get("errors") and not x.get("panic")
                else "rejected"] += 1
    if todo:
        t.samples.append({"schema": tag, "document": todo[0]["doc"]})
    return t


def run(check):
    global _bundles
    p = plan()
    todo = {}
    for key, (s, _) in p.items.items():
        todo[key.rsplit("@", 1)[0]] = s
    _bundles = (drv_cpp.Bundle(todo, sanitize=True), drv_cpp.Bundle(todo))
    explore.merge(check, core.pmap(_work, [
        (key.rsplit("@", 1)[0], k, p.kw) for key, (_, k) in p.ordered()]))
