"""The settings of a language change the representation and nothing else.

All the combinations of the settings are explored with documents, and so is
every name of a module, package or namespace out of a list of names which mean
something to the language or to the generated code.  All the indentions out of a
list change the beginnings of the lines of all the files, as documented, and
nothing else.
"""
import ast
import itertools
import json
import os
import re
import sys

from mc import core, corpus, drv_py, explore, ref, sut
from mc.checks.p12 import try_, words

FACETS = ["accept", "value", "refs", "rt"]
PY = [("path_as", ["str", "pathlib.Path"]),
      ("timezone_as", ["str", "pytz.timezone"])]
CPP = [("path_as", ["std::filesystem::path", "boost::filesystem::path"]),
       ("optional_as", ["std::optional", "std::experimental::optional",
                        "boost::optional"]),
       ("datetime_library", ["ctime", "date.h"])]
TOPOLOGIES = ("ref1_GAlpha_opt", "ref1_AlphaBeta_map", "emb_G_opt_req",
              "nestrev_arr_opt")


def settings(product):
    names = [n for n, _ in product]
    for values in itertools.product(*[v for _, v in product]):
        yield dict(zip(names, values))


def samples(thorough):
    out = {}
    for leaf in ("path", "path_pat", "tz", "date", "datetime", "time", "dur"):
        out[leaf] = corpus.leaf_schema(corpus.LEAF[leaf])
    for tag, s in corpus.topologies().items():
        if thorough or tag in TOPOLOGIES:
            out[tag] = s
    return out


INT = {"type": "integer"}


def tiny():
    """Everything that refers to the module, package or namespace."""
    opt = lambda t: corpus.prop(t, optional=True)
    return corpus.schema(
        [("n", opt(INT)), ("link", opt({"type": "Alpha"})),
         ("emb", opt({"type": "Emb"})), ("path", opt({"type": "path"})),
         ("date", opt({"type": "date"})),
         ("dur", opt({"type": "duration"})),
         ("pat", opt({"type": "string", "pattern": "^[a-z]+$"})),
         ("arr", opt(corpus.arr(corpus.mp(INT))))],
        [corpus.cls("Alpha", [("n", opt(INT)),
                              ("next", opt({"type": "Alpha"}))],
                    id_pattern="^[a-z]+$")],
        [corpus.embed("Emb", [("n", opt(INT))])])


ROOT = re.compile(r"^[a-zA-Z][a-zA-Z0-9_]*$")


OWN = ["Emb", "Alpha", "alphas", "SomeGraph", "some_graph"] + [
    f.format(c) for f in (
        "{}_from", "placeholder_{}", "serialize_{}", "target_{}",
        "{}_instance", "{}s_registry", "target_{}s", "{}s")
    for c in ("emb", "alpha", "some_graph")]
# words of the generated C++ code which are compiled in quick
FEW = {"value", "target", "errors", "ref", "message", "link", "regex", "map",
       "string", "parse", "path", "id", "instance", "registry", "std", "tm",
       "Value", "cap", "time_t", "vector"}
# names which the C library declares in the global namespace
GLOBAL = {"atol", "ctime"}


def names(lang):
    """Names of modules, packages and namespaces to try."""
    found = sorted({w for x in list(words(lang)) + OWN
                    for w in (x, x.lower()) if ROOT.match(w)})
    if lang == "py":
        taken = set(sys.stdlib_module_names) | {"pytz", "mc", "mapry"}
        for w in found:
            if w not in taken:
                yield w
                yield w + ".mcq"
            yield "mcq.x_" + w + "." + w
    elif lang == "go":
        for w in found:
            if w not in ("main", "documentation"):
                yield w
    else:
        found = sorted(set(found) | {
            "std", "Json", "boost", "date", "parse", "jsoncpp", "some_graph"})
        for w in found:
            if not core.THOROUGH and w in words(lang) and w not in FEW and \
                    try_(lang, corpus.with_settings(
                        tiny(), cpp={"namespace": w}))[0]:
                continue  # compiled in thorough
            if w not in GLOBAL:
                yield w
            yield "mcq::x_" + w + "::" + w
            if core.THOROUGH:
                yield w + "::mcq"


KEY = {"py": "module_name", "go": "package", "cpp": "namespace"}


def accepted(args):
    lang, chunk = args
    out = []
    for w in chunk:
        s = corpus.with_settings(tiny(), **{lang: {KEY[lang]: w}})
        out.append((w, s) + try_(lang, s))
    return out


DEFAULT = {"py": " " * 4, "cpp": " " * 2}
INDENTIONS = ["", " ", "  ", "   ", " " * 4, " " * 8, "\t\t", " \t", "\t "]
FIRST = re.compile(r"^(\t*)( *)")


def indented(lang, schema, indention):
    """{file: text}, or the report of a refusal."""
    s = corpus.with_settings(schema, **{lang: {"indention": indention}})
    if indention is None:
        del s[lang]["indention"]
    out = core.scratch() / "p23" / "out{}".format(os.getpid())
    try:
        sut.generate(lang, s, out)
    except sut.GenerationFailed as e:
        return str(e)
    res = {p.name: p.read_text(encoding="utf-8")
           for p in sorted(out.iterdir())}
    for p in list(out.iterdir()):
        p.unlink()
    return res


def indentions(args):
    lang, tag, schema = args
    bad, n = [], 0

    def differ(indention, name, i, what):
        bad.append("{}: schema {}, indention {!r}, {} line {}: {}".format(
            lang, tag, indention, name, i + 1, what))

    tabs = indented(lang, schema, "\t")
    if isinstance(tabs, str):
        return n, [lang + ": " + tag + ": indention of a tab: " + tabs]
    shape = {}
    for name, text in tabs.items():
        lines = text.split("\n")
        shape[name] = [(FIRST.match(x).groups(), x.strip()) for x in lines]
        for i, x in enumerate(lines):
            if len(FIRST.match(x).group(2)) > 3 and x.strip():
                differ("\t", name, i, "not indented: {!r}".format(x))
                break
        if lang == "py":
            try:
                ast.parse(text)
            except SyntaxError as e:
                differ("\t", name, 0, repr(e))
    for indention in [None] + INDENTIONS:
        n += 1
        got = indented(lang, schema, indention)
        if lang == "py" and indention == "":
            if not isinstance(got, str) or "#/py/indention" not in got:
                bad.append("py: {}: the empty indention is not refused: {}"
                           .format(tag, str(got)[:200]))
            continue
        if isinstance(got, str):
            bad.append("{}: {}: indention {!r}: {}".format(
                lang, tag, indention, got))
            continue
        if sorted(got) != sorted(shape):
            bad.append("{}: {}: indention {!r}: other files".format(
                lang, tag, indention))
            continue
        unit = DEFAULT[lang] if indention is None else indention
        for name, text in got.items():
            lines = text.split("\n")
            if len(lines) != len(shape[name]):
                differ(indention, name, 0, "another number of lines")
                continue
            for i, (x, ((units, rest), y)) in enumerate(
                    zip(lines, shape[name])):
                if not y and not x.strip():
                    continue
                if x.rstrip() != unit * len(units) + rest + y:
                    differ(indention, name, i, repr(x))
                    break
    return n, bad


def run(check):
    todo = [(lang, tag, s) for tag, s in corpus.all_schemas().items()
            for lang in ("py", "cpp")]
    for n, bad in core.pmap(indentions, todo, chunk=4):
        check.add(indentions=n)
        for what in bad[:2]:
            check.fail(what, what)
    for lang in ("py", "cpp"):
        plan = explore.Plan()
        for tag, s in samples(False).items():
            plan.add({"{}_{}_indented".format(lang, tag): corpus.with_settings(
                s, **{lang: {"indention": "\t"}})}, 0)
        if lang == "py":
            explore.explore_py(check, plan, FACETS)
        else:
            explore.explore_compiled(check, lang, plan, FACETS)
    for lang, product in (("py", PY), ("cpp", CPP)):
        plan = explore.Plan()
        for i, st in enumerate(settings(product)):
            check.add(combinations=1)
            for tag, s in samples(core.THOROUGH).items():
                plan.add({"{}_{}_{}".format(lang, tag, i):
                          corpus.with_settings(s, **{lang: st})}, 1)
        # the needs of a single type under settings that take turns
        for i, (tag, s) in enumerate(corpus.alone(core.THOROUGH).items()):
            st = list(settings(product))
            plan.add({"{}_{}".format(lang, tag): corpus.with_settings(
                s, **{lang: st[i % len(st)]})}, 1)
        if lang == "py":
            explore.explore_py(check, plan, FACETS)
        else:
            explore.explore_compiled(check, lang, plan, FACETS)
    for lang in ("py", "go", "cpp"):
        plan = explore.Plan()
        todo = list(names(lang))
        for res in core.pmap(accepted, [(lang, todo[i::64])
                                        for i in range(64)]):
            for w, s, ok, text in res:
                check.add(names_accepted=int(bool(ok)),
                          names_refused=int(not ok))
                if ok is None:
                    check.fail("{}: {}: {}".format(lang, w, text), w)
                elif ok:
                    plan.add({"{}_name_{}".format(
                        lang, w.replace("::", "__")): s}, 0)
                elif KEY[lang] not in text and lang not in text:
                    check.fail("{}: {} is refused for no reason: {}".format(
                        lang, w, text), w)
        if lang == "py":
            drv_py.KEEP = True
            explore.explore_py(check, plan, FACETS)
            drv_py.KEEP = False
        elif lang == "go":
            explore.explore_compiled(check, lang, plan, FACETS)
        else:
            explore.explore_compiled(check, lang, plan, FACETS, keep=True)
