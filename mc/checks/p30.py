"""Classes and embeds are parsed and serialized on their own as in graphs.

For every class and every embeddable structure of the schemas, all the values
of the bounded space (see docs.Docs.composite) are given to its own functions,
with the registries of a parsed graph.
"""
import collections
import importlib
import json

from mc import core, corpus, docs, drv_py, explore, ref

REFS = ("#", "some/where#/x")
ID = "given id"
BIG = 10**6


def schemas(lang):
    out = corpus.all_schemas(core.THOROUGH)
    if lang != "go":
        out.update(explore.varied(lang, core.THOROUGH))
    if lang == "cpp" and not core.THOROUGH:
        # as many leaves as are in the schemas of the varied settings suffice
        out = collections.OrderedDict(
            (t, s) for i, (t, s) in enumerate(out.items())
            if t.startswith(("ref", "emb", "nest")) or i % 2 == 0)
    return collections.OrderedDict(
        (t, s) for t, s in out.items() if s.get("classes") or s.get("embeds"))


class Space:
    """The base document of a schema and the values for its composites."""

    def __init__(self, model, lang):
        self.m = model
        self.lang = lang
        self.base = next(iter(docs.Docs(model, 0).documents()))
        self.it = ref.Interp(model, lang)
        self.lax = ref.Interp(model, lang, quirks=True)
        self.ids = None
        try:
            if not self.it.parse(self.base).errors:
                self.ids = self.it.reg_ids
        except ref.Unspecified:
            pass

    def values(self, comp):
        k = 2 if core.THOROUGH and len(comp.props) < 5 else 1
        d = docs.Docs(self.m, k)
        return [v for _, v in d.composite(comp, k, 1)]

    def want(self, it, comp, value, at, cap=None):
        """(props, errors, panic) as the reference model has it."""
        it.cap = cap
        it.errors, it.whys, it.used, it.reg_ids = [], [], set(), self.ids
        props, panic = None, None
        try:
            props = it._composite(comp, value, [at])
        except ref.Full:
            pass
        except ref.GoPanic as e:
            panic = str(e)
        it.cap = None
        return props, ["/".join(e) for e in it.errors], panic


def judge(t, tag, sp, comp, value, at, cap, a, known):
    msgs = compare(sp, sp.it, comp, value, at, cap, a)
    if not msgs:
        return
    try:
        quiet = not compare(sp, sp.lax, comp, value, at, cap, a)
    except ref.Unspecified:
        quiet = False
    if quiet and sp.lax.used and all(x in known for x in sp.lax.used):
        for x in sp.lax.used:
            t.hits[x] += 1
        return
    t.fail(tag, "sub", "{}: {}: {}".format(sp.lang, comp.name, msgs[0]),
           {"base": sp.base, "value": value, "ref": at, "cap": cap}, a)


def compare(sp, it, comp, value, at, cap, a):
    props, errors, panic = sp.want(it, comp, value, at)
    used = set(it.used)
    got = a.get("errors", [])
    if a.get("nobase"):
        return ["the base document was rejected"]
    if a.get("mutated"):
        return ["the value was changed"]
    if a.get("panic") is not None:
        if panic is not None or (sp.lang == "go" and it.q and cap != 1 and
                                 a["panic"] == explore.GO_PANIC and got):
            it.used.add("go-panic-after-error")
            if explore.sub_multiset(got, sp.want(
                    sp.it, comp, value, at)[1]):
                return []
        return ["raised {}".format(a["panic"])]
    if cap in (0, BIG):
        if not explore.same_errors(got, errors):
            return ["errors at {} instead of {}".format(got, errors)]
    elif len(got) != min(cap, len(errors)) or not explore.sub_multiset(
            got, errors):
        return ["cap {}: errors {} of {}".format(cap, got, errors)]
    if errors:
        if "val" in a:
            return ["a value is returned in spite of errors"]
        return []
    if a.get("serpanic") or a.get("dumppanic"):
        return ["raised {}".format(a.get("serpanic") or a.get("dumppanic"))]
    if "val" not in a or "json" not in a:
        return ["nothing is returned"]
    out = []
    it.used = used
    it._diff_props(comp, props, a["val"], comp.name, out)
    it._json_props(comp, props, a["json"], comp.name, out, set())
    if comp.kind == "class" and sp.lang != "cpp" and a.get("id") != ID:
        out.append("the identifier is {!r}".format(a.get("id")))
    return out


def requests(sp, comp, value):
    """[(ref, cap)]"""
    errors = sp.want(sp.it, comp, value, "#")[1]
    if not errors:
        return [(REFS[1], 0)]
    return [(REFS[1], 0), (REFS[0], 1)]


def explore_one(t, tag, sp, ask, known):
    """``ask`` answers a list of (comp, value, ref, cap)."""
    if sp.ids is None:
        t.n["unspecified"] += 1
        return
    for comp in sp.m.composites():
        if comp.kind == "graph":
            continue
        t.n["composites"] += 1
        todo = []
        for value in sp.values(comp):
            t.n["states"] += 1
            try:
                rqs = requests(sp, comp, value)
            except ref.Unspecified:
                t.n["unspecified"] += 1
                continue
            t.n["traces_validated_against_impl"] += 1
            if not t.samples and rqs[-1][1] == 0:
                t.samples.append({"schema": tag, "composite": comp.name,
                                  "value": value, "outcome": "accepted"})
            todo += [(comp, value, at, cap) for at, cap in rqs]
        for rq, a in zip(todo, ask(todo)):
            t.n["transitions"] += 1
            judge(t, tag, sp, *rq, a, known)


def _py(args):
    tag, schema, known = args
    t = explore.Tally()
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    t.n["schemas"] += 1
    sp = Space(p.model, "py")

    def ask(todo):
        g = p.from_(sp.base, "#", p.errors())
        if g is None:
            return [{"nobase": True}] * len(todo)
        p.dump(g)
        return [one(g, *rq) for rq in todo]

    def one(g, comp, value, at, cap):
        out = {}
        args = {"value": value, "ref": at, "errors": p.errors(cap or BIG)}
        before = explore._copy(value)
        if comp.kind == "class":
            args["id"] = ID
        for cls in p.model.classes.values():
            args[cls.plural.lower() + "_registry"] = getattr(
                g, cls.plural.lower())
        try:
            f = getattr(p.fromj, comp.name.lower() + "_from")
            names = f.__code__.co_varnames[:f.__code__.co_argcount]
            x = f(**{n: v for n, v in args.items() if n in names})
            out["errors"] = [e.ref for e in args["errors"].values()]
        except Exception as e:  # pylint: disable=broad-except
            return {"panic": "{}: {}".format(type(e).__name__, e)}
        if not explore._same_json(before, value):
            out["mutated"] = True
        if x is None:
            return out
        try:
            if type(x) is not getattr(p.types, ref.ucamel(comp.name)):
                raise TypeError("a {}".format(type(x)))
            if comp.kind == "class":
                out["id"] = x.id
            out["val"] = p._props(comp, x)
            ser = getattr(p.toj, "serialize_" + comp.name.lower())
            j = ser(x)
            if ser(x, ordered=True) != j:
                raise ValueError("ordered gives another value")
            out["json"] = json.loads(json.dumps(j))
            if type(ser(x, ordered=True)) is not collections.OrderedDict:
                raise TypeError("ordered gives no ordered dictionary")
        except Exception as e:  # pylint: disable=broad-except
            out["serpanic"] = "{}: {}".format(type(e).__name__, e)
        return out

    try:
        explore_one(t, tag, sp, ask, known)
    finally:
        p.unload()
    return t


_bundle = None


def _compiled(args):
    lang, tag, known = args
    t = explore.Tally()
    b = _bundle
    if tag in b.broken:
        t.fail(tag, "load", b.broken[tag], None)
        return t
    t.n["schemas"] += 1
    sp = Space(b.models[tag], lang)

    def ask(todo):
        return b.run(tag, [
            {"op": "sub", "doc": sp.base, "cls": comp.name, "val": value,
             "ref": at, "cap": cap, "id": ID}
            for comp, value, at, cap in todo])

    explore_one(t, tag, sp, ask, known)
    return t


def run(check):
    global _bundle
    known = explore.known_keys(check)
    explore.merge(check, core.pmap(
        _py, [(t, s, known) for t, s in schemas("py").items()]))
    for lang in ("go", "cpp"):
        todo = schemas(lang)
        _bundle = importlib.import_module("mc.drv_" + lang).Bundle(
            todo, subs=True)
        explore.merge(check, core.pmap(
            _compiled, [(lang, t, known) for t in todo]))
