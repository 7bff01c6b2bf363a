"""The annotations of generated Python hold together, and its examples pass.

Every schema of the corpus, and schemas with all settings, names and nestings of
types, is generated to Python.  All the calls within the generated modules have to
agree with the annotations, and all the examples in the docstrings are run.
"""
import collections
import datetime
import doctest
import importlib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys

from mc import core, corpus, explore, sut

LINE = re.compile(r"^([^/:]+)/([^:]+):(\d+): error: (.*)$")
MODULES = ("", ".parse", ".fromjsonable", ".tojsonable")


def todo():
    res = collections.OrderedDict(corpus.all_schemas(core.THOROUGH))
    res.update(explore.varied("py", core.THOROUGH))
    # nested containers of every type, in every settings
    for t in ("bool", "int", "float", "str", "path", "date", "time",
              "datetime", "tz", "dur"):
        leaf = corpus.LEAF[t]
        for n, sets in enumerate(
                [{}] + explore.PY_SETTINGS if t in ("path", "tz") else [{}]):
            inner = [leaf, corpus.arr(leaf), corpus.mp(leaf)]
            two = [f(x) for f in (corpus.arr, corpus.mp) for x in inner[1:]]
            props = [("v{}{}".format(i, "o" if o else ""),
                      corpus.prop(x, **({"optional": True} if o else {})))
                     for i, x in enumerate(inner + two) for o in (0, 1)]
            res["nest_{}_{}".format(t, n)] = corpus.with_settings(
                corpus.schema(props, [corpus.cls("Alpha", props)],
                              [corpus.embed("Emb", props)]), py=sets)
    refs = [{"type": x} for x in ("Alpha", "Emb")]
    for n, x in enumerate(refs):
        inner = [x, corpus.arr(x), corpus.mp(x), corpus.arr(corpus.arr(x)),
                 corpus.mp(corpus.arr(x)), corpus.arr(corpus.mp(x)),
                 corpus.mp(corpus.mp(x))]
        props = [("v{}{}".format(i, "o" if o else ""),
                  corpus.prop(y, **({"optional": True} if o else {})))
                 for i, y in enumerate(inner) for o in (0, 1)]
        res["nest_ref_{}".format(n)] = corpus.schema(
            props, [corpus.cls("Alpha", [("n", corpus.prop(corpus.LEAF["int"]))]),
                    corpus.cls("Beta", props)],
            [corpus.embed("Emb", [("n", corpus.prop(corpus.LEAF["int"]))]),
             corpus.embed("Other", props)])
    return res


class SameValue(doctest.OutputChecker):
    """Python 3.7 prints durations in another way than the examples do."""

    def check_output(self, want, got, optionflags):
        if super().check_output(want, got, optionflags):
            return True
        names = {"datetime": datetime}
        try:
            a, b = eval(want, names), eval(got, names)
        except Exception:  # pylint: disable=broad-except
            return False
        return type(a) is type(b) and a == b


def _gen(args):
    tag, schema, path = args
    s = json.loads(json.dumps(schema))
    s.setdefault("py", {})["module_name"] = path.name
    try:
        sut.generate("py", s, path)
    except sut.GenerationFailed as e:
        return tag, str(e), [], 0
    if str(path.parent) not in sys.path:
        sys.path.insert(0, str(path.parent))
    bad, n = [], 0
    for m in MODULES:
        try:
            mod = importlib.import_module(path.name + m)
        except BaseException as e:  # pylint: disable=broad-except
            return tag, "does not load: {!r}".format(e), [], 0
        for test in doctest.DocTestFinder(exclude_empty=False).find(mod):
            out = []
            r = doctest.DocTestRunner(SameValue(), verbose=False).run(
                test, out=out.append, clear_globs=False)
            n += r.attempted
            if r.failed:
                bad.append("{}: {}".format(
                    test.name, " ".join("".join(out).split())[:400]))
    for m in MODULES[::-1]:
        sys.modules.pop(path.name + m, None)
    return tag, None, bad, n


def placeholder(path, text):
    """Members of the empty shells made by parse.py are None on purpose."""
    return (path == "parse.py" and re.match(
        r'Argument "?\w+"? to "[\w.]+" has incompatible type "None"; expected',
        text) or text.startswith('Unused "type: ignore"'))


def _mypy(args):
    base, names = args
    env = dict(os.environ)
    for k in ("PYTHONPATH", "MYPYPATH"):
        env.pop(k, None)
    r = subprocess.run(
        ["mypy", "--strict", "--ignore-missing-imports", "--no-color-output",
         "--no-error-summary", "--config-file", "",
         "--cache-dir",
         str(base / "cache" / names[0])] + names,
        cwd=str(base), env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, universal_newlines=True)
    res = []
    for ln in r.stdout.splitlines():
        m = LINE.match(ln)
        if m:
            res.append((m.group(1), m.group(2), int(m.group(3)), m.group(4)))
        elif ": note: " not in ln:
            raise RuntimeError("mypy: " + ln)
    if r.returncode not in (0, 1):
        raise RuntimeError("mypy: " + r.stdout[-2000:])
    return res


def run(check):
    schemas = todo()
    base = core.scratch() / "typed"
    base.mkdir()
    name = collections.OrderedDict(
        (t, "p{}".format(i)) for i, t in enumerate(schemas))
    tag_of = {n: t for t, n in name.items()}
    alive = []
    for tag, err, bad, n in core.pmap(
            _gen, [(t, s, base / name[t]) for t, s in schemas.items()],
            chunk=4):
        check.add(schemas=1, states=1, transitions=1 + n, examples_run=n)
        if err is not None:
            check.fail("{}: {}".format(tag, err), schemas[tag])
            continue
        alive.append(name[tag])
        for b in bad:
            check.fail("{}: an example fails: {}".format(tag, b), schemas[tag])
    groups = [alive[i::core.JOBS] for i in range(core.JOBS)]
    for errors in core.pmap(_mypy, [(base, g) for g in groups if g]):
        for pkg, path, line, text in errors:
            if placeholder(path, text):
                check.add(placeholders=1)
                continue
            src = (base / pkg / path).read_text().splitlines()[line - 1]
            check.fail("{}: {}:{}: {}: {}".format(
                tag_of[pkg], path, line, text, src.strip()),
                schemas[tag_of[pkg]])
    check.add(traces_validated_against_impl=len(alive),
              modules_checked=len(alive) * len(MODULES))
