"""Names: whatever a language accepts gives code that works."""
import collections
import itertools
import json
import os
import re

from mc import core, corpus, explore, ref, sut
from mc.checks import p14

INT = {"type": "integer"}
KINDS = [lambda: corpus.prop(INT),
         lambda: corpus.prop(corpus.arr(INT), optional=True),
         lambda: corpus.prop({"type": "string"}, optional=True),
         lambda: corpus.prop(corpus.mp({"type": "Kin"}), optional=True),
         lambda: corpus.prop({"type": "date"}, optional=True),
         lambda: corpus.prop({"type": "duration"}, optional=True)]
ROOT = re.compile(r"^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$")
CHUNK = 40
# names which differ in letters or underscores only
NEAR = ["Ab", "AB", "A_b", "A_B", "Ab_c", "AbC", "Abs", "Ab_s", "A__b"]
FEWER = ["Ab", "AB", "A_b", "Ab_c", "Abs"]
# names of the object graph which are compiled on their own in quick
GRAPH_WORDS = set("""and class float return value target errors error ref id
instance instance_ref it kv parse map path std string json jsoncpp registry
some_graph graph errno null eof int64_t vector regex message type_name
duration date time_zone cap link_0 item_0 value_0 target_0 msg expected
tm_to_string""".split())


def words(lang):
    with open(str(core.VERIF / "mc" / "words.json")) as f:
        return json.load(f)[lang]


def capital(w):
    return w[0].upper() + w[1:]


def chunks(seq, n=CHUNK):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def distinct(seq):
    """One name of those which look the same to every language."""
    seen, out = set(), []
    for w in seq:
        k = w.lower().replace("_", "")
        if k not in seen:
            seen.add(k)
            out.append(w)
    return out


def kin():
    return corpus.cls("Kin", [("n", corpus.prop(INT, optional=True))])


def with_props(owner, names):
    props = [(w, KINDS[i % len(KINDS)]()) for i, w in enumerate(names)]
    few = [("qq", corpus.prop(INT, optional=True))]
    return corpus.schema(
        (props if owner == "graph" else few) +
        ([("qemb", corpus.prop({"type": "Qemb"}))] if owner == "embed"
         else []),
        [kin(), corpus.cls("Qclass", props if owner == "class" else few)],
        [corpus.embed("Qemb", props if owner == "embed" else few)])


def with_classes(names):
    return corpus.schema(
        [("qlink_{}".format(i), corpus.prop({"type": w}, optional=True))
         for i, w in enumerate(names)],
        [corpus.cls(w, [("qq", corpus.prop(INT, optional=True)),
                        ("qnext", corpus.prop({"type": w}, optional=True))],
                    id_pattern="^[a-z]+$" if i % 2 else None)
         for i, w in enumerate(names)])


def with_plurals(names):
    return corpus.schema(
        [("qlink_{}".format(i), corpus.prop(
            {"type": "Qclass_{}".format(i)}, optional=True))
         for i, w in enumerate(names)],
        [corpus.cls("Qclass_{}".format(i), [
            ("qq", corpus.prop(INT, optional=True)),
            ("qnext", corpus.prop({"type": "Qclass_{}".format(i)},
                                  optional=True))], plural=w,
                    id_pattern="^[a-z]+$" if i % 2 else None)
         for i, w in enumerate(names)])


def with_embeds(names):
    return corpus.schema(
        [("qemb_{}".format(i), corpus.prop({"type": w}, optional=True))
         for i, w in enumerate(names)], [],
        [corpus.embed(w, [("qq", corpus.prop(INT, optional=True))])
         for w in names])


def with_graph(names):
    s = corpus.schema([("qq", corpus.prop(INT, optional=True)),
                       ("qlink", corpus.prop({"type": "Kin"}, optional=True)),
                       ("qemb", corpus.prop({"type": "Qemb"}, optional=True))],
                      [kin()],
                      [corpus.embed("Qemb", [("qq", corpus.prop(
                          INT, optional=True))])])
    s["name"] = names[0]
    return s


ROLES = collections.OrderedDict([
    ("graph_property", (lambda w: with_props("graph", w), str.lower)),
    ("class_property", (lambda w: with_props("class", w), str.lower)),
    ("embed_property", (lambda w: with_props("embed", w), str.lower)),
    ("class", (with_classes, capital)), ("plural", (with_plurals, capital)),
    ("embed", (with_embeds, capital)), ("graph", (with_graph, capital))])


def near(names):
    """Pairs of similar names in all the pairs of roles."""
    q = corpus.prop(INT, optional=True)
    for a, b in itertools.permutations(names, 2):
        yield ("props", a, b), corpus.schema([(a, q), (b, q)], [
            corpus.cls("Qclass", [(a, q), (b, q)])])
        yield ("classes", a, b), with_classes([a, b])
        yield ("plurals", a, b), with_plurals([a, b])
        yield ("embeds", a, b), with_embeds([a, b])
        s = with_classes([a])
        s["embeds"] = [corpus.embed(b, [("qq", q)])]
        s["properties"]["qemb"] = corpus.prop({"type": b}, optional=True)
        yield ("class_embed", a, b), s
        s = with_classes([a])
        s["name"] = b
        yield ("class_graph", a, b), s
        s = with_embeds([a])
        s["name"] = b
        yield ("embed_graph", a, b), s
        s = with_plurals([a])
        s["properties"][b] = q
        yield ("plural_property", a, b), s
        s = with_classes([a])
        s["classes"].append(corpus.cls("Qother", [("qq", q)], plural=b))
        yield ("class_plural", a, b), s


def with_settings(s):
    """The schema with a property for its first embed, and with settings."""
    full = corpus.schema([("qemb", corpus.prop({"type": "Ea"}))], [], [])
    full["embeds"] = s["embeds"]
    return full


def try_(lang, schema):
    """(accepted, report) of the command line; raises Broken on a crash."""
    base = core.scratch() / "p12"
    base.mkdir(exist_ok=True)
    sp = base / "s{}.json".format(os.getpid())
    sp.write_text(json.dumps(schema))
    code, _, err, exc = sut.cli(lang, sp, base / "out{}".format(os.getpid()))
    if exc is not None:
        if type(exc).__name__ == "SchemaError":
            return False, str(exc)
        return None, "{!r}".format(exc)
    return code == 0, err


def settle(args):
    """Leave out the refused names of a chunk until the rest is accepted."""
    lang, role, names = args
    build, _ = ROLES[role]
    names, gone = list(names), []
    while names:
        ok, text = try_(lang, build(names))
        if ok is None:
            return role, None, gone, text
        if ok:
            return role, names, gone, None
        drop = culprits(role, names, text)
        if not drop:
            # a report that names none of the new names: one at a time
            drop = [w for w in names if not try_(lang, build([w]))[0]]
        if not drop:
            return role, None, gone, "refused as a whole: " + text[:500]
        gone += drop
        names = [w for w in names if w not in drop]
    return role, names, gone, None


def culprits(role, names, text):
    res = []
    for i, w in enumerate(names):
        if role.endswith("property"):
            hit = re.search(r"/{}(?:: |\b.*: )".format(re.escape(w)), text)
        elif role == "graph":
            hit = True
        else:
            hit = re.search(r"#/{}/{}[:/]".format(
                "embeds" if role == "embed" else "classes", i), text)
        if hit:
            res.append(w)
    return res


def settle_near(args):
    lang, tag, schema = args
    return tag, try_(lang, schema)


def run(check):
    facets = ["accept", "value", "rt"]
    for lang in ("py", "go", "cpp"):
        todo = []
        for role, (_, case) in ROLES.items():
            names = sorted({case(w) for w in words(lang)
                            if role != "graph" or lang != "cpp" or
                            core.THOROUGH or w.lower() in GRAPH_WORDS})
            names = [w for w in distinct(names) if ROOT.match(w)]
            n = 1 if role == "graph" else CHUNK
            todo += [(lang, role, c) for c in chunks(names, n)]
        plan = explore.Plan(links=True)
        for i, (role, names, gone, bad) in enumerate(core.pmap(settle, todo)):
            check.add(names_refused=len(gone), names_accepted=len(names or []))
            if bad:
                check.fail("{}: {}: {}".format(lang, role, bad),
                           [todo[i][1], todo[i][2]])
            elif names:
                plan.add({"{}_{}_{}".format(lang, role, i):
                          ROLES[role][0](names)}, 0)
        jobs = [(lang, t, s) for t, s in near(
            FEWER if lang == "cpp" and not core.THOROUGH else NEAR)]
        for (_, t, s), (_, (ok, text)) in zip(jobs, core.pmap(
                settle_near, jobs, chunk=16)):
            check.add(near_names_refused=int(not ok),
                      near_names_accepted=int(bool(ok)))
            if ok is None:
                check.fail("{}: {}: {}".format(lang, t, text), t)
            elif ok:
                plan.add({"{}_near_{}".format(lang, "_".join(t)): s}, 0)
        for i, s in enumerate(p14.wrapped()):
            ok, text = try_(lang, with_settings(s))
            check.add(nestings=1)
            if ok:
                plan.add({"{}_nesting_{}".format(lang, i):
                          with_settings(s)}, 1)
            else:
                check.fail("{}: nesting {}: {}".format(lang, i, text), s)
        if lang == "py":
            explore.explore_py(check, plan, facets)
        else:
            explore.explore_compiled(check, lang, plan, facets)
