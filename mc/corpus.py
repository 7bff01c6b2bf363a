"""The schemas over which documents are enumerated."""
import collections
import copy
import itertools

OD = collections.OrderedDict

LEAF = OD()


def _leaf(tag, **kw):
    t = OD()
    t["type"] = kw.pop("type")
    for k, v in kw.items():
        t[k] = v
    LEAF[tag] = t


_leaf("bool", type="boolean")
_leaf("int", type="integer")
_leaf("float", type="float")
for _k, _lo, _hi in (("integer", -2, 5), ("float", -2.5, 5.5)):
    _s = {"integer": "int", "float": "float"}[_k]
    _leaf(_s + "_min", type=_k, minimum=_lo)
    _leaf(_s + "_max", type=_k, maximum=_hi)
    _leaf(_s + "_minmax", type=_k, minimum=_lo, maximum=_hi)
    _leaf(_s + "_xmin", type=_k, minimum=_lo, exclusive_minimum=True)
    _leaf(_s + "_xmax", type=_k, maximum=_hi, exclusive_maximum=True)
    _leaf(_s + "_xmin_max", type=_k, minimum=_lo, exclusive_minimum=True,
          maximum=_hi)
    _leaf(_s + "_min_xmax", type=_k, minimum=_lo, maximum=_hi,
          exclusive_maximum=True)
    _leaf(_s + "_xmin_xmax", type=_k, minimum=_lo, exclusive_minimum=True,
          maximum=_hi, exclusive_maximum=True)
    _leaf(_s + "_eq", type=_k, minimum=_hi, maximum=_hi)
    _leaf(_s + "_false", type=_k, minimum=_lo, exclusive_minimum=False,
          maximum=_hi, exclusive_maximum=False)
_leaf("int_zero", type="integer", minimum=0, maximum=0)
_leaf("int_big", type="integer", minimum=-2**40, maximum=2**40)
# The bounds at the ends of what the languages can represent.
_leaf("int_all64", type="integer", minimum=-2**63, maximum=2**63 - 1)
_leaf("int_xall64", type="integer", minimum=-2**63, exclusive_minimum=True,
      maximum=2**63 - 1, exclusive_maximum=True)
_leaf("int_53", type="integer", minimum=2**53, maximum=2**53 + 2**20)
_leaf("float_huge", type="float", minimum=-1e300, maximum=1.5e+300)
_leaf("float_60", type="float", minimum=-2**64, maximum=2**60,
      exclusive_maximum=True)
_leaf("float_70", type="float", minimum=2**70)
_leaf("float_tiny", type="float", minimum=1e-07, maximum=2.5e-05,
      exclusive_maximum=True)
_leaf("float_small", type="float", minimum=0.25, maximum=0.75)
_leaf("float_xsmall", type="float", minimum=0.25, exclusive_minimum=True)
_leaf("str", type="string")
for _i, _p in enumerate([r"^[a-z]+$", r"^[a-z]{2,3}$", r"^(foo|bar)\.baz$",
                         r'^"quoted"$', r"^it's$", r"^a/b$", r"^\\$",
                         r"^[^%]*100%$", r"^\{x\}$"]):
    _leaf("str_pat{}".format(_i), type="string", pattern=_p)
_leaf("path", type="path")
_leaf("path_pat", type="path", pattern=r"^/[a-zA-Z]+$")
_leaf("path_patq", type="path", pattern=r"^it's$")
_leaf("date", type="date")
for _i, _f in enumerate(["%d/%m/%Y", "%d.%m.%y", "%B %d, %Y", "%d %b %Y",
                         "%Y%%%m%%%d", "%Y-%m", "'%Y'", '"%Y"', "%Y\\%m",
                         "{%Y}"]):
    _leaf("date_fmt{}".format(_i), type="date", format=_f)
_leaf("datetime", type="datetime")
for _i, _f in enumerate(["%Y/%m/%d %H:%M:%S", "%Y-%m-%d %I:%M:%S %p",
                         "%d %b %Y %H.%M"]):
    _leaf("datetime_fmt{}".format(_i), type="datetime", format=_f)
_leaf("time", type="time")
for _i, _f in enumerate(["%H:%M", "%I:%M %p", "%H%M%S", "%Hh%M"]):
    _leaf("time_fmt{}".format(_i), type="time", format=_f)
_leaf("tz", type="time_zone")
_leaf("dur", type="duration")


def arr(values, lo=None, hi=None):
    t = OD(type="array", values=values)
    if lo is not None:
        t["minimum_size"] = lo
    if hi is not None:
        t["maximum_size"] = hi
    return t


def mp(values):
    return OD(type="map", values=values)


def prop(t, optional=None, json=None, description="holds something."):
    """Definition of a property: type and description come first."""
    p = OD()
    p["type"] = t["type"]
    p["description"] = description
    for k, v in t.items():
        if k != "type":
            p[k] = v
    if optional is not None:
        p["optional"] = optional
    if json is not None:
        p["json"] = json
    return p


def cls(name, props=None, plural=None, id_pattern=None):
    c = OD()
    c["name"] = name
    c["description"] = "defines {}.".format(name.lower())
    if plural:
        c["plural"] = plural
    if id_pattern:
        c["id_pattern"] = id_pattern
    if props is not None:
        c["properties"] = OD(props)
    return c


def embed(name, props=None):
    return cls(name, props)


SETTINGS = OD([
    ("cpp", OD([("namespace", "some::graph"),
                ("path_as", "std::filesystem::path"),
                ("optional_as", "std::optional"),
                ("datetime_library", "ctime")])),
    ("go", OD([("package", "somegraph")])),
    ("py", OD([("module_name", "some_graph"), ("path_as", "str"),
               ("timezone_as", "str")])),
])


def schema(props, classes=(), embeds=(), name="Some_graph", settings=None):
    s = OD()
    s["name"] = name
    s["description"] = "defines an object graph."
    for k, v in SETTINGS.items():
        s[k] = OD(v)
        if settings and k in settings:
            s[k].update(settings[k])
    if classes:
        s["classes"] = list(classes)
    if embeds:
        s["embeds"] = list(embeds)
    if props is not None:
        s["properties"] = OD(props)
    return s


def leaf_schema(t, wide=True, settings=None):
    """One leaf type in every position the generators treat separately."""
    g = [("req", prop(t)), ("opt", prop(t, optional=True)),
         ("arr", prop(arr(t))), ("assoc", prop(mp(t)))]
    classes, embeds = [], []
    if wide:
        g += [("arr_of_arr", prop(arr(arr(t)))),
              ("map_of_map", prop(mp(mp(t)))),
              ("arr_of_map", prop(arr(mp(t)))),
              ("map_of_arr", prop(mp(arr(t)))),
              ("opt_arr", prop(arr(t), optional=True)),
              ("opt_map", prop(mp(t), optional=True)),
              ("emb", prop({"type": "Some_embed"})),
              ("opt_emb", prop({"type": "Some_embed"}, optional=True)),
              ("link", prop({"type": "Some_class"}))]
        classes = [cls("Some_class", [("req", prop(t)),
                                      ("opt", prop(t, optional=True)),
                                      ("arr", prop(arr(t)))])]
        embeds = [embed("Some_embed", [("req", prop(t)),
                                       ("opt", prop(t, optional=True)),
                                       ("assoc", prop(mp(t)))])]
    return schema(g, classes, embeds, settings=settings)


def edge(kind, target):
    """Definition of a property reaching composite ``target``."""
    t = {"type": target}
    return {
        "req": lambda: prop(t),
        "opt": lambda: prop(t, optional=True),
        "arr": lambda: prop(arr(t)),
        "map": lambda: prop(mp(t)),
        "opt_arr": lambda: prop(arr(t), optional=True),
        "arr_map": lambda: prop(arr(mp(t))),
        "map_arr": lambda: prop(mp(arr(t))),
    }[kind]()


def topologies(kinds=("req", "opt", "arr", "map")):
    """Reference topologies over the graph, two classes and two embeds."""
    out = OD()
    # one and two references among the graph and two classes
    nodes = ["G", "Alpha", "Beta"]
    arcs = [(s, t, k) for s in nodes for t in ("Alpha", "Beta") for k in kinds]
    for n, (s, t, k) in enumerate(arcs):
        out["ref1_{}{}_{}".format(s, t, k)] = _refs([(s, t, k)])
    pairs = [((s1, t1), (s2, t2)) for s1, t1 in
             itertools.product(nodes, ("Alpha", "Beta"))
             for s2, t2 in itertools.product(nodes, ("Alpha", "Beta"))
             if (s1, t1) <= (s2, t2)]
    for i, ((s1, t1), (s2, t2)) in enumerate(pairs):
        k1 = kinds[i % len(kinds)]
        k2 = kinds[(i // len(kinds) + i) % len(kinds)]
        out["ref2_{}{}_{}_{}{}_{}".format(s1, t1, k1, s2, t2, k2)] = _refs(
            [(s1, t1, k1), (s2, t2, k2)])
    # references out of embeds
    for k in kinds:
        for owner in ("G", "Alpha"):
            for k2 in kinds:
                e = embed("Emb", [("link", edge(k, "Beta")),
                                  ("num", prop({"type": "integer"},
                                               optional=True))])
                g = [("num", prop({"type": "integer"}, optional=True))]
                a = [("num", prop({"type": "integer"}, optional=True))]
                (g if owner == "G" else a).append(("emb", edge(k2, "Emb")))
                out["emb_{}_{}_{}".format(owner, k2, k)] = schema(
                    g, [cls("Alpha", a), cls("Beta", [])], [e])
    # embeds in embeds
    for k in kinds:
        for k2 in kinds:
            e2 = embed("Inner", [("link", edge("req", "Alpha")),
                                 ("num", prop({"type": "integer"}))])
            e1 = embed("Outer", [("inner", edge(k, "Inner"))])
            out["nest_{}_{}".format(k, k2)] = schema(
                [("outer", edge(k2, "Outer"))],
                [cls("Alpha", [("num", prop({"type": "integer"},
                                        optional=True))])], [e2, e1])
            out["nestrev_{}_{}".format(k, k2)] = schema(
                [("outer", edge(k2, "Outer"))],
                [cls("Alpha", [("num", prop({"type": "integer"},
                                        optional=True))])], [e1, e2])
    out.update(orders())
    return out


def orders():
    """References to classes whose names, plurals and definitions differ in
    their order."""
    out = OD()
    # name, plural: in the order of definition
    names = [("Bee", "Cats"), ("Cat", "Bees"), ("Ant", "Dogs")]
    links = [("to_cat", prop({"type": "Cat"})),
             ("to_ant", prop({"type": "Ant"})),
             ("to_bee", prop({"type": "Bee"}, optional=True))]
    n = [("n", prop({"type": "integer"}, optional=True))]
    plain = [cls(c, n, plural=pl) for c, pl in names]
    out["orders_graph"] = schema(links, plain)
    out["orders_embed"] = schema([("e", prop({"type": "Emb"}))], plain,
                                 [embed("Emb", links)])
    out["orders_nested"] = schema(
        [("e", prop({"type": "Outer"}))], plain,
        [embed("Outer", [("ant_first", prop(arr({"type": "Ant"}))),
                         ("e", prop({"type": "Emb"}))]),
         embed("Emb", links[:1] + links[2:])])
    out["orders_class"] = schema(
        n, [cls(c, links if c == "Cat" else n, plural=pl)
            for c, pl in names])
    return out


def alone(every=False):
    """One type at a single place, so that it alone asks for what it needs."""
    out = OD()
    owners = ["graph", "class", "embed"]
    n = [("n", prop({"type": "integer"}, optional=True))]
    i = 0
    for tag in ("str_pat1", "path", "path_pat", "date", "datetime", "time",
                "tz", "dur", "link"):
        t = LEAF.get(tag, {"type": "Alpha"})
        for seq in ("", "?", "a", "m", "aa", "am", "ma", "mm", "aaa"):
            p = [("x", prop(shaped(seq.strip("?"), t),
                            optional=True if "?" in seq else None))]
            i += 1
            for owner in owners if every else [owners[(i + i // 9) % 3]]:
                classes = [cls("Alpha", p if owner == "class" else n)]
                out["alone_{}_{}_{}".format(
                    tag, seq.replace("?", "opt") or "req", owner)] = schema(
                        p if owner == "graph" else
                        [("e", prop({"type": "Emb"}))] if owner == "embed"
                        else n,
                        classes if owner == "class" or tag == "link" else [],
                        [embed("Emb", p)] if owner == "embed" else [])
    return out


def _refs(arcs):
    props = {"G": [], "Alpha": [], "Beta": []}
    for i, (s, t, k) in enumerate(arcs):
        props[s].append(("link_{}".format(i), edge(k, t)))
    for n in props:
        props[n].append(("num", prop({"type": "integer"}, optional=True)))
    return schema(props["G"], [cls("Alpha", props["Alpha"]), cls("Beta", props["Beta"])])


def structures():
    """Sizes, nesting, names, JSON names and other structural features."""
    out = OD()
    i, s = {"type": "integer"}, {"type": "string"}
    for lo, hi in ((0, None), (1, None), (2, None), (None, 0), (None, 1),
                   (None, 2), (1, 1), (1, 2), (0, 2), (2, 3), (3, 3)):
        out["size_{}_{}".format(lo, hi)] = schema([
            ("arr", prop(arr(i, lo, hi))),
            ("opt", prop(arr(s, lo, hi), optional=True)),
            ("arr2", prop(arr(arr(i, lo, hi), 1, 2))),
            ("assoc", prop(mp(arr(s, lo, hi))))])
    out["deep_arr"] = schema([("deep", prop(arr(arr(arr(i)))))])
    out["deep_map"] = schema([("deep", prop(mp(mp(mp(i)))))])
    out["deep_mix"] = schema([("deep", prop(arr(mp(arr(s))))),
                              ("deeper", prop(mp(arr(mp(i)))))])
    out["deep_ref"] = schema(
        [("deep", prop(arr(mp(arr({"type": "Alpha"}))))),
         ("deeper", prop(mp(arr(mp({"type": "E"})))))],
        [cls("Alpha", [("next", prop(arr(mp({"type": "Alpha"})), optional=True))])],
        [embed("E", [("a", prop({"type": "Alpha"}))])])
    out["empty"] = schema(None)
    out["empty_props"] = schema([])
    out["only_opt"] = schema([("x", prop(i, optional=True))])
    out["only_class"] = schema(None, [cls("Alpha")])
    out["only_classes"] = schema(None, [cls("Alpha", []), cls("Beta", [("a", prop(
        {"type": "Alpha"}))])])
    out["empty_embed"] = schema([("e", prop({"type": "E"}))], [],
                                [embed("E")])
    out["unused_embed"] = schema([("x", prop(i))], [],
                                 [embed("E", [("y", prop(i))])])
    out["rec_embed_arr"] = schema(
        [("e", prop({"type": "E"}))], [],
        [embed("E", [("n", prop(i)), ("sub", prop(arr({"type": "E"})))])])
    out["rec_embed_map"] = schema(
        [("e", prop({"type": "E"}))], [],
        [embed("E", [("n", prop(i)), ("sub", prop(mp({"type": "E"})))])])
    out["idpat"] = schema(
        [("a", prop({"type": "Alpha"})), ("beta_arr", prop(arr({"type": "Beta"})))],
        [cls("Alpha", [("b", prop({"type": "Beta"}, optional=True))],
             id_pattern=r"^I[0-9]+$"),
         cls("Beta", [("n", prop(i))], id_pattern=r"^[0-9]+$")])
    out["idpat_q"] = schema(
        [("a", prop({"type": "Alpha"}))],
        [cls("Alpha", [("n", prop(i))], id_pattern=r"^it's$"),
         cls("Beta", [], id_pattern=r'^"quoted"$')])
    out["json"] = schema(
        [("one", prop(i, json="uno")), ("two", prop(s, json="2.zwei")),
         ("three", prop(i, json="uno/dos", optional=True)),
         ("four", prop({"type": "E"}, json="$f")),
         ("five", prop(arr(i), json="it's"))],
        [cls("Alpha", [("one", prop(i, json="@id")),
                   ("two", prop({"type": "Alpha"}, json="two-link",
                                optional=True))])],
        [embed("E", [("x", prop(i, json="X x")),
                     ("y", prop(s, json="\"y\"", optional=True))])])
    out["json_swap"] = schema(
        [("one", prop(i, json="two")), ("two", prop(i, json="one"))],
        [cls("Alpha", [("one", prop(i, json="two")),
                   ("two", prop(s, json="one"))])])
    out["plural"] = schema(
        [("r", prop({"type": "Person"})), ("q", prop({"type": "Focus"}))],
        [cls("Person", [("n", prop(i))], plural="People"),
         cls("Focus", [("n", prop(i))]),
         cls("Bounding_box", [("n", prop(i))]),
         cls("Daisy", []), cls("Day", []), cls("Some_URL", []),
         cls("Some_focus", []), cls("Glass", [])])
    for n, names in enumerate((
            ("Key", "Toy", "Guy", "Skiy", "Fry", "Y", "X", "S", "Ay"),
            ("Box", "Bus", "Some_bus", "Big_box", "Old_city", "Old_key",
             "URL_Y", "Zz"),
            ("Criterion", "Minimum", "Maximum", "Matrix", "Life",
             "Some_matrix", "Some_Life", "Wildlife"),
            ("Some_criterion", "Minimum_x", "Matrix_y", "FOCUS", "MATRIX",
             "Wolf", "Church", "Potato", "Box_s"))):
        out["plurals_{}".format(n)] = schema(
            [("r", prop({"type": names[0]}))],
            [cls(c, [("n", prop(i, optional=True))]) for c in names])
    out["upper"] = schema(
        [("URL_of_thing", prop(s)), ("someID", prop(i, optional=True)),
         ("things_2", prop(arr(i))), ("EMB", prop({"type": "Emb_URL"})),
         ("OPT_EMB", prop({"type": "Emb_URL"}, optional=True)),
         ("Link", prop({"type": "URL_thing"}))],
        [cls("URL_thing", [("URL", prop(s)), ("Next", prop(
            {"type": "URL_thing"}, optional=True)),
                           ("DATES", prop(mp({"type": "date"})))],
             id_pattern=r"^[a-z]+$")],
        [embed("Emb_URL", [("X", prop(i)), ("yZ", prop(arr(s)))])])
    out["alphabetical"] = schema(
        [("z", prop(i)), ("a", prop(s)), ("m", prop({"type": "Beta"}))],
        [cls("Z", [("y", prop({"type": "Beta"})), ("b", prop(i))]),
         cls("Beta", [("z", prop(i)), ("a", prop({"type": "Z"},
                                               optional=True))])],
        [embed("Y", [("q", prop(i))]), embed("C", [("r", prop(i))])])
    # The same patterns and formats at several places
    pats = [r"^[a-z]+$", r"^[a-z]{2,3}$", r"^[a-z]+$", r"^[0-9]+$",
            r"^(foo|bar)\.baz$", r"^[a-z]{2,3}$"]
    fmts = ["%d/%m/%Y", "%Y-%m", "%d/%m/%Y", "%d.%m.%y", "%Y-%m"]
    out["shared"] = schema(
        [("s_{}".format(k), prop({"type": "string", "pattern": p}))
         for k, p in enumerate(pats)] +
        [("d_{}".format(k), prop({"type": "date", "format": f}))
         for k, f in enumerate(fmts)] + [("e", prop({"type": "Emb"}))],
        [cls("Alpha", [("s", prop({"type": "string", "pattern": pats[1]}))],
             id_pattern=pats[3]),
         cls("Beta", [("a", prop({"type": "Alpha"}, optional=True))],
             id_pattern=pats[0]),
         cls("Gamma", [("p", prop({"type": "path",
                                   "pattern": r"^/[a-zA-Z]+$"}))],
             id_pattern=pats[3])],
        [embed("Emb", [("p", prop({"type": "path",
                                   "pattern": r"^/[a-zA-Z]+$"})),
                       ("s", prop({"type": "string",
                                   "pattern": r"^I[0-9]+$"})),
                       ("t", prop({"type": "string", "pattern": pats[4]}))])])
    out["all_leaves"] = schema(
        [("a_" + t, prop(LEAF[t])) for t in ("bool", "int", "float", "str", "path",
                                      "date", "datetime", "time", "tz",
                                      "dur")] +
        [("opt_" + t, prop(LEAF[t], optional=True))
         for t in ("bool", "int", "float", "str", "path", "date", "datetime",
                   "time", "tz", "dur")])
    return out


SHAPES = [seq for n in (1, 2, 3) for seq in itertools.product("am", repeat=n)]
NESTED = OD([("int", {"type": "integer"}), ("date", LEAF["date"]),
             ("link", {"type": "Alpha"}), ("emb", {"type": "Emb"})])


def shaped(seq, t):
    for c in reversed(seq):
        t = arr(t) if c == "a" else mp(t)
    return t


def nested():
    """All nestings of arrays and maps up to three levels."""
    out = OD()
    for tag, t in NESTED.items():
        for optional in (False, True):
            props = []
            for seq in SHAPES:
                if optional and len(seq) == 3:
                    continue
                p = prop(shaped(seq, t))
                if optional:
                    p["optional"] = True
                props.append(("p_" + "".join(seq), p))
            for owner in ("graph", "class", "embed"):
                if owner == "embed" and tag == "emb":
                    continue
                small = [("n", prop({"type": "integer"}, optional=True))]
                out["nested_{}_{}_{}".format(
                    owner, tag, "opt" if optional else "req")] = schema(
                        (props if owner == "graph" else small) +
                        ([("e", prop({"type": "Emb"}, optional=True))]
                         if owner == "embed" else []),
                        [cls("Alpha", props if owner == "class" else small)],
                        [embed("Emb", props if owner == "embed" else small)])
    return out


def all_schemas(every=False):
    out = OD()
    for tag, t in LEAF.items():
        out["leaf_" + tag] = leaf_schema(t)
    out.update(topologies())
    out.update(structures())
    out.update(nested())
    out.update(alone(every))
    return out


def with_settings(s, **settings):
    s = copy.deepcopy(s)
    for lang, kw in settings.items():
        s[lang].update(kw)
    return s
