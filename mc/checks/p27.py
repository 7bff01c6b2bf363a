"""The tests which are generated together with Go code.

Every schema of the corpus is generated to Go with its tests.  All the tests have to
compile (type-checked by "go vet"), and all of those with examples are run.
"""
import collections
import itertools
import json
import re
import subprocess

from mc import core, corpus, drv_go

# (example, what it printed, what it expects)
KNOWN = {
    ("ExampleDurationFromString_invalid",
     "failed to match the duration pattern",
     "failed to match the duration pattern on: some wrong text"):
    "go-example-messages",
    ("ExampleDurationFromString_overflow", "overflow in nanoseconds",
     "overflows in nanoseconds: P300Y"): "go-example-messages"}


def todo():
    res = collections.OrderedDict(corpus.all_schemas(core.THOROUGH))
    words = ["fmt", "testing", "main", "demo2", "go_test", "some_test", "err",
             "time", "d", "strings", "regexp"]
    for w, t in itertools.product(words, ("leaf_dur", "empty", "idpat")):
        s = (corpus.leaf_schema(corpus.LEAF["dur"]) if t == "leaf_dur"
             else corpus.structures()[t])
        res["{}_{}".format(t, w)] = corpus.with_settings(s, go={"package": w})
    return res


def run(check):
    schemas = todo()
    gopath = core.scratch() / "gotest"
    src = gopath / "src" / "mc"
    src.mkdir(parents=True)
    pkg = collections.OrderedDict(
        (t, "p{}".format(i)) for i, t in enumerate(schemas))
    jobs = [(t, s, src / pkg[t]) for t, s in schemas.items()]
    alive = []
    for (t, s, _), err in zip(jobs, core.pmap(drv_go._gen, jobs, chunk=4)):
        check.add(schemas=1)
        if err is None:
            alive.append(t)
        elif t in corpus.all_schemas(core.THOROUGH):
            check.fail("{}: {}".format(t, err), s)
        else:
            check.add(refused_packages=1)
    env = drv_go.env(gopath)

    def go(*args):
        return subprocess.run(
            ["go"] + list(args), env=env, cwd=str(gopath),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            universal_newlines=True)

    paths = {t: "mc/" + pkg[t] for t in alive}
    broken = set()
    r = go("vet", "-buildtag", *paths.values())
    if r.returncode != 0:
        for t in alive:
            mine = [ln for ln in r.stdout.splitlines()
                    if re.search(r"mc/{}(/|:|\s|$|\])".format(pkg[t]), ln) and
                    not ln.startswith("#")]
            if mine:
                broken.add(t)
                check.fail("{}: the tests do not compile: {}".format(
                    t, "; ".join(mine)[:600]), schemas[t])
        if not broken:
            check.fail("the tests do not compile: " + r.stdout[-1500:])
    check.add(states=len(alive), traces_validated_against_impl=len(alive))
    # Empty test files are the same but for the name of the package.
    run_ = []
    for t in alive:
        text = "".join(p.read_text()
                       for p in sorted((src / pkg[t]).glob("*_test.go")))
        n = len(re.findall(r"^func (?:Example|Test)", text, re.M))
        check.add(transitions=1 + n)
        if n and t not in broken:
            run_.append(t)
    if run_:
        r = go("test", "-json", "-count=1", "-vet=off", "-timeout=120s",
               *[paths[t] for t in run_])
        check.add(packages_run=len(run_))
        done = collections.defaultdict(dict)
        said = collections.defaultdict(str)
        for line in r.stdout.splitlines():
            try:
                e = json.loads(line)
            except ValueError:
                continue
            at = (e.get("Package"), e.get("Test"))
            if e.get("Action") in ("pass", "fail", "skip"):
                done[at[0]][at[1]] = e["Action"]
            elif e.get("Action") == "output":
                said[at] += e["Output"]
        for t in run_:
            res = done[paths[t]]
            bad = [n for n, a in res.items() if a != "pass" and n]
            if None not in res or (res[None] != "pass" and not bad):
                check.fail("{}: the generated tests do not end: {}".format(
                    t, r.stdout[-800:]), schemas[t])
            for n in bad:
                text = said[paths[t], n]
                m = re.search(r"got:\n(.*)\nwant:\n(.*)\n", text)
                check.fail("{}: {} fails: {}".format(t, n, text[:600]),
                           schemas[t], key=KNOWN.get(
                               (n,) + (m.groups() if m else ())))
    check.sample("{} of {} packages have tests".format(len(run_), len(alive)))
