"""The error containers against a list with a cap."""
import collections
import itertools

from mc import core, corpus, drv_cpp, drv_go, drv_py, explore


def schemas():
    st, top = corpus.structures(), corpus.topologies()
    res = collections.OrderedDict()
    for t in ("empty", "only_opt", "idpat", "size_1_2"):
        res[t] = st[t]
    res["leaf_dur"] = corpus.leaf_schema(corpus.LEAF["dur"])
    res["ref1_AlphaBeta_map"] = top["ref1_AlphaBeta_map"]
    for i, cpp in enumerate(explore.CPP_SETTINGS):
        py = dict(explore.PY_SETTINGS[i % len(explore.PY_SETTINGS)])
        cpp = dict(cpp)
        if i % 4 == 1:
            py["indention"], cpp["indention"] = "  ", "\t"
        res["all_leaves_set{}".format(i)] = corpus.with_settings(
            st["all_leaves"], cpp=cpp, py=py)
    return res


def histories(depth, lang):
    """Operation sequences over two containers, shortest first."""
    caps = [0, 1, 2, 3, 5]
    ops = [(0, "#", "first"), (0, "#/a", ""), (1, "", "second")]
    if lang == "cpp":
        ops.append((0, None, 7))
    for c in itertools.product(caps, (0, 2)):
        for n in range(depth + 1):
            for seq in itertools.product(ops, repeat=n):
                yield list(c), [list(o) for o in seq]


def model(lang, caps, ops):
    """What the containers show after every operation."""
    vals = [[], []]
    out = []

    def snap():
        row = []
        for c, v in zip(caps, vals):
            endless = lang == "go" and c == 0
            row.append({"full": not endless and len(v) == c,
                        "empty": not v, "values": [list(x) for x in v]})
        out.append(row)

    snap()
    for i, ref_, msg in ops:
        if ref_ is not None and ((lang == "go" and caps[i] == 0) or
                                 len(vals[i]) < caps[i]):
            vals[i].append((ref_, msg))
        snap()
    return out


def _py(args):
    tag, schema, depth = args
    t = explore.Tally()
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    for caps, ops in histories(depth, "py"):
        es = [p.parse.Errors(cap=c) for c in caps]
        got = []

        def snap():
            row = []
            for e in es:
                vals = [[x.ref, x.message] for x in e.values()]
                row.append({"full": e.full(), "empty": e.empty(),
                            "values": vals})
                if e.count() != len(vals):
                    row[-1]["count"] = e.count()
            got.append(row)

        snap()
        for i, ref_, msg in ops:
            es[i].add(ref_, msg)
            snap()
        _judge(t, tag, "py", caps, ops, got)
    p.unload()
    return t


def _judge(t, tag, lang, caps, ops, got):
    t.n["states"] += len(ops) + 1
    t.n["transitions"] += len(ops)
    t.n["traces_validated_against_impl"] += 1
    want = model(lang, caps, ops)
    if got != want:
        n = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w),
                 len(want))
        t.fail(tag, "errors", "{}: caps {}: after {} the containers are {} "
               "instead of {}".format(lang, caps, ops[:n], got[n:n + 1],
                                      want[n:n + 1]), [caps, ops])


_bundle = None


def _compiled(args):
    lang, tag, depth = args
    t = explore.Tally()
    if tag in _bundle.broken:
        t.fail(tag, "load", _bundle.broken[tag], None)
        return t
    todo = list(histories(depth, lang))
    for (caps, ops), a in zip(todo, _bundle.run(tag, [
            {"op": "errors", "doc": None, "ref": "", "cap": 0,
             "args": {"caps": c, "ops": o}} for c, o in todo])):
        _judge(t, tag, lang, caps, ops, a.get("trace"))
    return t


def run(check):
    global _bundle
    depth = 7 if core.THOROUGH else 5
    todo = schemas()
    explore.merge(check, core.pmap(
        _py, [(t, s, depth) for t, s in todo.items()]))
    for lang, drv in (("go", drv_go), ("cpp", drv_cpp)):
        _bundle = drv.Bundle(todo)
        explore.merge(check, core.pmap(
            _compiled, [(lang, t, depth) for t in todo]))
