"""The contract of the command line."""
import copy
import itertools
import json
import os
import pathlib
import shutil
import subprocess
import sys

from mc import core, corpus, refschema, sut
from mc.checks import p13, p14

FILES = {
    "py": ["__init__.py", "parse.py", "fromjsonable.py", "tojsonable.py"],
    "go": ["types.go", "parse.go", "from_jsonable.go",
           "from_jsonable_test.go", "to_jsonable.go", "to_jsonable_test.go"],
    "cpp": ["types.h", "parse.h", "parse.cpp", "jsoncpp.h", "jsoncpp.cpp"]}
LANGS = list(FILES)


def good(text="defines a graph."):
    s = corpus.schema([("a", corpus.prop({"type": "integer"})),
                       ("link", corpus.prop({"type": "Kin"}))],
                      [corpus.cls("Kin", [("d", corpus.prop(
                          {"type": "date"}))])])
    s["description"] = text
    return s


def other():
    s = good("describes something else.")
    s["name"] = "Another"
    s["properties"]["more"] = corpus.prop(corpus.arr({"type": "duration"}))
    return s


def twin():
    """Like the good one in every length."""
    return json.loads(json.dumps(good("defines a braph.")).replace(
        "link", "kiln"))


def snapshot(d):
    """All the files below a directory with their contents."""
    d = pathlib.Path(d)
    if not d.exists():
        return None
    res = {}
    for p in sorted(d.rglob("*")):
        key = str(p.relative_to(d))
        if p.is_symlink():
            res[key] = ("link", os.readlink(str(p)))
        elif p.is_dir():
            res[key] = ("dir",)
        else:
            res[key] = ("file", p.read_bytes())
    return res


def files(snap):
    return {k: v for k, v in (snap or {}).items() if v[0] != "dir"}


_fresh = {}


def fresh(lang, schema):
    """What the generation into a new directory gives."""
    key = (lang, json.dumps(schema))
    if key not in _fresh:
        d = core.scratch() / "p15f-{}-{}".format(os.getpid(), len(_fresh))
        d.mkdir()
        (d / "s.json").write_text(json.dumps(schema), encoding="utf-8")
        code, _, err, exc = sut.cli(lang, d / "s.json", d / "out")
        snap = files(snapshot(d / "out"))
        shutil.rmtree(str(d))
        if exc is not None or code != 0:
            snap = {"failed": "{!r} {}".format(exc, err)}
        _fresh[key] = snap
    return _fresh[key]


# -- schemas ---------------------------------------------------------------

def schema_states(lang):
    """(name, bytes or None or "dir", whether code is to be generated,
    a text to be found in the diagnosis)."""
    def enc(s):
        return json.dumps(s).encode()
    s = good()
    yield "valid", enc(s), True, ""
    only = copy.deepcopy(s)
    for x in LANGS:
        if x != lang:
            del only[x]
    yield "settings of this language only", enc(only), True, ""
    none = copy.deepcopy(s)
    del none[lang]
    yield "no settings", enc(none), False, ""
    uni = good("defines a \u00e4\u4e16\U0001f600 graph.")
    yield "unicode", json.dumps(uni, ensure_ascii=False).encode(), True, ""
    yield "escaped unicode", enc(uni), True, ""
    bad = copy.deepcopy(s)
    bad["properties"]["a"]["type"] = "int"
    yield "invalid type", enc(bad), False, "#/properties/a"
    bad = copy.deepcopy(s)
    bad["unknown"] = 1
    yield "invalid structure", enc(bad), False, "#"
    bad = copy.deepcopy(s)
    bad["classes"].append(corpus.cls("K_in", []))
    bad["classes"].append(corpus.cls("KIn", []))
    yield "conflicting classes", enc(bad), False, "#/classes/2"
    bad = copy.deepcopy(s)
    bad["properties"]["b_c"] = corpus.prop({"type": "date"})
    bad["properties"]["{}".format("bC" if lang == "go" else "B_c")] = \
        corpus.prop({"type": "date"})
    yield "conflicting properties", enc(bad), False, "#/"
    yield "empty", b"", False, "s.json"
    yield "not JSON", b"{]", False, "s.json"
    yield "not an object", b"[]", False, "#"
    yield "null", b"null", False, "#"
    yield "not UTF-8", b'{"name": "\xff"}', False, ""
    yield "with a mark", b"\xef\xbb\xbf" + enc(s), False, "s.json"
    yield "missing", None, False, "s.json"
    yield "directory", "dir", False, "s.json"


def out_states(lang):
    def nothing(out):
        pass

    def empty(out):
        out.mkdir(parents=True)

    def others(out):
        out.mkdir(parents=True)
        (out / "README").write_text("mine")
        (out / "sub").mkdir()
        (out / "sub" / FILES[lang][0]).write_text("mine")

    def stale(out):
        out.mkdir(parents=True)
        for n in FILES[lang]:
            (out / n).write_text("stale " * 20000)

    def partial(out):
        out.mkdir(parents=True)
        (out / FILES[lang][-1]).write_text("")

    def linked(out):
        out.parent.mkdir(exist_ok=True, parents=True)
        (out.parent / "real").mkdir()
        out.symlink_to("real", target_is_directory=True)

    yield "absent", "out", nothing
    yield "absent with parents", "x/y/z", nothing
    yield "empty", "out", empty
    yield "other files", "out", others
    yield "stale files", "out", stale
    yield "partial", "out", partial
    yield "link", "out", linked
    yield "odd name", "o u t \u00e4", nothing


def states(item):
    lang, (sname, data, ok, text), i = item
    oname, rel, prepare = list(out_states(lang))[i]
    d = core.scratch() / "p15-{}".format(os.getpid())
    d.mkdir()
    try:
        sp, out = d / "s.json", d / rel
        if data == "dir":
            sp.mkdir()
        elif data is not None:
            sp.write_bytes(data)
        prepare(out)
        before = files(snapshot(d))
        code, stdout, err, exc = sut.cli(lang, sp, out)
        after = files(snapshot(d))
        gen = {str(out.relative_to(d)) + "/" + n for n in FILES[lang]}
        what = "{}, schema {}, directory {}".format(lang, sname, oname)
        if not ok:
            if exc is None and code in (0, None):
                return "{}: exit code {}".format(what, code)
            if after != before:
                return "{}: files changed although it failed: {}".format(
                    what, sorted(k for k in set(before) | set(after)
                                 if before.get(k) != after.get(k)))
            said = err + (str(exc) if exc is not None else "")
            if not said.strip() or text not in said:
                return "{}: {!r} not in the diagnosis {!r}".format(
                    what, text, said)
            if stdout.strip():
                return "{}: output {!r} although it failed".format(
                    what, stdout)
            return None
        if exc is not None or code != 0:
            return "{}: exit code {}, {!r} {}".format(what, code, exc, err)
        if err:
            return "{}: diagnosis {!r} although it succeeded".format(
                what, err)
        if "link" in oname:
            gen = {"real/" + n for n in FILES[lang]}
        if set(after) - set(before) - gen or gen - set(after):
            return "{}: files {} instead of {}".format(
                what, sorted(set(after)), sorted(gen))
        for k in before:
            if k not in gen and before[k] != after[k]:
                return "{}: {} changed".format(what, k)
        want = fresh(lang, json.loads(data.decode(),
                                      object_pairs_hook=corpus.OD))
        for n in FILES[lang]:
            k = [g for g in gen if g.endswith("/" + n)][0]
            if after[k] != want.get(n):
                return "{}: the contents of {} depend on the directory" \
                    .format(what, n)
        if str(out) not in stdout:
            return "{}: the directory is not in the output {!r}".format(
                what, stdout)
        return None
    finally:
        shutil.rmtree(str(d))


# -- faults while writing ---------------------------------------------------

def faults(item):
    lang, names, how = item
    d = core.scratch() / "p15-{}".format(os.getpid())
    (d / "out").mkdir(parents=True)
    try:
        (d / "s.json").write_text(json.dumps(good()))
        for n in names:
            p = d / "out" / n
            if how == "directory":
                p.mkdir()
            elif how == "full device":
                p.symlink_to("/dev/full")
            else:
                p.symlink_to(str(d / "missing" / "x"))
        code, stdout, err, exc = sut.cli(lang, d / "s.json", d / "out")
        if exc is None and code in (0, None):
            return "{}: {} is a {}, but the exit code is {}".format(
                lang, names, how, code)
        if stdout.strip():
            return "{}: {} is a {}, but the output is {!r}".format(
                lang, names, how, stdout)
        return None
    finally:
        shutil.rmtree(str(d))


def bad_out(item):
    lang, how = item
    d = core.scratch() / "p15-{}".format(os.getpid())
    d.mkdir()
    try:
        (d / "s.json").write_text(json.dumps(good()))
        (d / "file").write_text("mine")
        out = d / ("file" if how == "file" else "file/out")
        code, _, err, exc = sut.cli(lang, d / "s.json", out)
        if exc is None and code in (0, None):
            return "{}: the directory is a {}, but the exit code is {}" \
                .format(lang, how, code)
        if (d / "file").read_text() != "mine":
            return "{}: the file was changed".format(lang)
        return None
    finally:
        shutil.rmtree(str(d))


# -- histories ---------------------------------------------------------------

OPS = [(lang, which) for lang in LANGS for which in (
    "good", "other", "twin")] + [
    (lang, "bad") for lang in LANGS]


def history(prefix):
    """All the histories that start with the given operations."""
    bad = []
    n = 0
    d = core.scratch() / "p15h-{}".format(os.getpid())

    def apply(ops):
        nonlocal n
        n += 1
        if d.exists():
            shutil.rmtree(str(d))
        (d / "out").mkdir(parents=True)
        (d / "out" / "mine").write_text("mine")
        want = {"mine": ("file", b"mine")}
        for lang, which in ops:
            s = {"good": good, "other": other, "twin": twin,
                 "bad": good}[which]()
            if which == "bad":
                s["properties"]["link"]["type"] = "Nobody"
            (d / "s.json").write_text(json.dumps(s))
            code, _, err, exc = sut.cli(lang, d / "s.json", d / "out")
            if which == "bad":
                if exc is None and code in (0, None):
                    bad.append(("the invalid schema passed", ops))
                    return
            else:
                if exc is not None or code != 0:
                    bad.append(("failed: {!r} {}".format(exc, err), ops))
                    return
                want.update(fresh(lang, s))
        if files(snapshot(d / "out")) != want:
            got = files(snapshot(d / "out"))
            bad.append(("{} differ from those of a new directory".format(
                sorted(k for k in set(got) | set(want)
                       if got.get(k) != want.get(k))), ops))

    depth = 4 if core.THOROUGH else 3
    for more in range(0, depth - len(prefix) + 1):
        for rest in itertools.product(OPS, repeat=more):
            apply(list(prefix) + list(rest))
    if d.exists():
        shutil.rmtree(str(d))
    return bad, n


# -- errors in JSON ----------------------------------------------------------

def json_text():
    s = corpus.OD()
    for k in ("name", "description", "py"):
        s[k] = good()[k]
    s["properties"] = corpus.OD([("a", corpus.prop(
        {"type": "string", "pattern": "^\u00e4\\d$"}))])
    return json.dumps(s, indent=1, ensure_ascii=False).replace(
        '"is', '\t"is')


def json_edits():
    text = json_text()
    for i in range(len(text)):
        yield text[:i]
        yield text[:i] + text[i + 1:]
        for c in '"x,\n\\' + ("{}[]:0\t\u00e4\r\x00" if core.THOROUGH
                              else "{]:"):
            yield text[:i] + c + text[i + 1:]
    yield text
    yield text.replace("\n", "\r\n")
    for tail in ("x", "\n", "\n\n{", " ", "\ufeff", "}", ",", "null"):
        yield text + tail
    for s in ("{", '{"a": ' + "x" * 130, '{"a": ' + "x" * 110,
              '{"a":\n\t \tx', "{\"a\":1,}", "nul", "tru", "'a'",
              '{"a" 1}', '{"a":01}', '"\x01"', "-", "[1 2]"):
        yield s


def json_batch(texts):
    import mapry.parse
    out = []
    stats = {"json_errors": 0, "json_fine": 0}
    d = core.scratch() / "p15j-{}".format(os.getpid())
    d.mkdir(exist_ok=True)
    sp = d / "s.json"
    for text in texts:
        sp.write_bytes(text.encode("utf-8"))
        plain = text.replace("\r\n", "\n").replace("\r", "\n")
        try:
            got, error = mapry.parse.schema_from_json_file(sp), None
        except BaseException as e:  # pylint: disable=broad-except
            got, error = None, e
        try:
            s = json.loads(plain, object_pairs_hook=corpus.OD)
        except json.JSONDecodeError as e:
            stats["json_errors"] += 1
            if got is not None:
                out.append(("broken JSON accepted", text))
                continue
            said = str(error)
            if "line {} column {}".format(e.lineno, e.colno) not in said or \
                    str(sp) not in said:
                out.append(("expected line {} column {} of {}, got {!r}: {}"
                            .format(e.lineno, e.colno, sp,
                                    type(error).__name__, said), text))
                continue
            line = plain.split("\n")[e.lineno - 1]
            lines = said.split("\n")
            if len(line) <= 120:
                at = [i for i, x in enumerate(lines) if x.strip() == "^"
                      and i > 0 and lines[i - 1] == line]
                if not any(lines[i].index("^") == e.colno - 1 for i in at):
                    out.append(("the cursor is not at line {} column {}: {}"
                                .format(e.lineno, e.colno, said), text))
            continue
        stats["json_fine"] += 1
        want = refschema.places(s, True)[1]
        if bool(want) != (got is None):
            out.append(("accepted {}, although violated at {} ({})".format(
                got is not None, want, error), text))
    return out, stats


# -- processes ----------------------------------------------------------------

SCRIPT = "import sys, mapry.main; sys.exit(mapry.main.entry_point())"


def process(item):
    args, env, want, text = item
    d = core.scratch() / "p15p-{}".format(os.getpid())
    d.mkdir()
    try:
        s = good(text)
        (d / "s.json").write_text(json.dumps(s, ensure_ascii=False),
                                  encoding="utf-8")
        full = dict(os.environ, PYTHONPATH=str(core.REPO),
                    PYTHONDONTWRITEBYTECODE="1", **env)
        for k in ("LC_CTYPE", "LANG", "PYTHONUTF8", "PYTHONIOENCODING"):
            if k not in env:
                full.pop(k, None)
        r = subprocess.run([sys.executable, "-W", "ignore"] + args,
                           cwd=str(d), env=full, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        got = files(snapshot(d))
        got.pop("s.json")
        what = "{} with {}".format(" ".join(args[1:]), env)
        if want is None:
            if r.returncode == 0 or got or not r.stderr:
                return "{}: exit code {}, files {}, diagnosis {!r}".format(
                    what, r.returncode, sorted(got), r.stderr)
            return None
        if r.returncode != 0:
            return "{}: exit code {}: {!r}".format(what, r.returncode,
                                                   r.stderr)
        exp = {"out/" + k: v for k, v in fresh(want, s).items()}
        if got != exp:
            return "{}: {} differ".format(what, sorted(
                k for k in set(got) | set(exp) if got.get(k) != exp.get(k)))
        return None
    finally:
        shutil.rmtree(str(d))


def processes():
    for lang in LANGS:
        full = {"command": [lang], "schema": ["--schema", "s.json"],
                "outdir": ["--outdir", "out"]}
        for keep in itertools.product((False, True), repeat=3):
            args = [a for k, (_, v) in zip(keep, full.items()) if k
                    for a in v]
            ok = lang if all(keep) else None
            for how in (["-m", "mapry"], ["-c", SCRIPT]):
                if how[0] == "-m" or lang == "py":
                    yield how + args, {"LC_ALL": "C.UTF-8"}, ok, "is."
        yield ["-m", "mapry", lang, "--schema", "s.json", "--outdir", "out",
               "--more"], {}, None, "is."
        for env in ({"LC_ALL": "C"}, {"LC_ALL": "C", "PYTHONUTF8": "0",
                                      "PYTHONCOERCECLOCALE": "0"},
                    {"LC_ALL": "POSIX", "PYTHONIOENCODING": "ascii"},
                    {"LC_ALL": "C.UTF-8"}):
            yield ["-m", "mapry", lang, "--schema", "s.json", "--outdir",
                   "out"], env, lang, "is \u00e4\u4e16\U0001f600."
    yield ["-m", "mapry", "java", "--schema", "s.json", "--outdir",
           "out"], {}, None, "is."
    yield ["-m", "mapry"], {}, None, "is."


def run(check):
    assert p13 is not None and p14 is not None
    todo = [(lang, s, i) for lang in LANGS for s in schema_states(lang)
            for i in range(len(list(out_states(lang))))]
    for item, bad in zip(todo, core.pmap(states, todo, chunk=4)):
        if bad:
            check.fail(bad, [item[0], item[1][0], item[2]])
    check.add(schema_and_directory_states=len(todo), transitions=len(todo))

    todo = [(lang, [n], how) for lang in LANGS for n in FILES[lang]
            for how in ("directory", "full device", "dangling link")]
    for lang in LANGS:
        for a, b in itertools.combinations(FILES[lang], 2):
            todo.append((lang, [a, b], "full device"))
    for item, bad in zip(todo, core.pmap(faults, todo, chunk=4)):
        if bad:
            check.fail(bad, item)
    check.add(write_faults=len(todo), transitions=len(todo))
    todo = [(lang, how) for lang in LANGS for how in ("file", "in a file")]
    for item, bad in zip(todo, core.pmap(bad_out, todo)):
        if bad:
            check.fail(bad, item)
    check.add(write_faults=len(todo), transitions=len(todo))

    todo = [(a, b) for a in OPS for b in OPS]
    for bad, n in core.pmap(history, todo):
        check.add(histories=n, transitions=n)
        for text, ops in bad:
            check.fail(text, ops)

    todo = sorted(set(json_edits()))
    parts = [todo[i:i + 50] for i in range(0, len(todo), 50)]
    for bad, stats in core.pmap(json_batch, parts):
        check.add(**stats)
        for text, s in bad:
            check.fail(text, s)
    check.add(transitions=len(todo))

    todo = list(processes())
    for item, bad in zip(todo, core.pmap(process, todo)):
        if bad:
            check.fail(bad, item)
    check.add(processes=len(todo), transitions=len(todo))
    check.add(states=check.cov["transitions"],
              traces_validated_against_impl=check.cov["transitions"])
    check.sample({"history": [list(o) for o in OPS[:3]],
                  "outcome": "as generated into a new directory"})
