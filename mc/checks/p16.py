"""The generated code depends on the contents of the schema only."""
import collections
import copy
import hashlib
import itertools
import json
import os
import pathlib
import subprocess
import sys

from mc import core, corpus, sut
from mc.checks import p12, p13

OD = collections.OrderedDict
LANGS = ["py", "go", "cpp"]


def schemas():
    res = OD(corpus.all_schemas())
    many = ["Abc", "Dex", "Ghi", "Jkl", "Mno", "Pqr", "Stu"]
    res["p16_classes"] = p12.with_classes(many)
    res["p16_plurals"] = p12.with_plurals(many)
    res["p16_embeds"] = p12.with_embeds(many)
    res["p16_props"] = p12.with_props("class", [m.lower() for m in many])
    res["p16_rich"] = p13.rich()
    res["p16_rich"]["classes"][1]["name"] = "Spot"
    s = corpus.schema([("a", corpus.prop(
        {"type": "string", "pattern": "^\u00e4$"},
        description="is \u4e16\U0001f600."))])
    res["p16_unicode"] = s
    return res


def digests(code, out, err, exc, outdir, spath):
    if exc is not None:
        return {"exception": "{}: {}".format(type(exc).__name__, exc)}
    if code != 0:
        return {"failed": err.replace(str(spath), "S").strip()}
    return {p.name: hashlib.sha256(p.read_bytes()).hexdigest()
            for p in sorted(outdir.iterdir())}


def worker(jobs_path, out_path):
    """Generates code for the jobs in a file; runs in a process of its own."""
    with open(jobs_path) as f:
        jobs = json.load(f)
    res = []
    for lang, text, spath, outdir in jobs:
        spath, outdir = pathlib.Path(spath), pathlib.Path(outdir)
        spath.parent.mkdir(parents=True, exist_ok=True)
        spath.write_bytes(text.encode("utf-8"))
        res.append(digests(*sut.cli(lang, spath, outdir), outdir=outdir,
                           spath=spath))
    with open(out_path, "w") as f:
        json.dump(res, f)


CONFIGS = [
    # PYTHONHASHSEED, order, environment, working directory, directories
    ("0", "forward", {}, "a", "s/{}.json", "o/{}"),
    ("1", "backward", {"TZ": "Asia/Tokyo"}, "b", "{}.json", "{}"),
    ("2", "twice", {"LC_ALL": "C"}, "c", "x/y/{}/schema", "z/{}/w"),
    ("3", "by name", {"LC_ALL": "POSIX", "COLUMNS": "20"}, "d",
     "sp ace {}.json", "\u00e4{}"),
    ("4", "forward", {"HOME": "/nonexistent", "USER": "nobody"}, "e",
     "s/{}.json", "o/{}"),
    ("5", "backward", {"TZ": "America/New_York"}, "f", "s{}.json", "o/{}"),
    # all the schemas one after the other in the same file
    ("6", "forward", {}, "g", "same.json", "o/{}"),
]


def ordered(items, order):
    items = list(items)
    if order == "backward":
        return items[::-1]
    if order == "twice":
        return items + items
    if order == "by name":
        return sorted(items, key=lambda it: hashlib.sha256(
            it[0].encode()).digest())
    return items


def session(item):
    number, config, part = item
    seed, order, env, cwd, sfmt, ofmt = config
    base = core.scratch() / "p16" / "{}-{}".format(number, cwd)
    base.mkdir(parents=True)
    jobs, tags = [], []
    for i, (tag, lang, text) in enumerate(ordered(part, order)):
        name = "{}-{}".format(i, lang)
        jobs.append((lang, text, sfmt.format(name), ofmt.format(name)))
        tags.append((tag, lang))
    (base / "jobs.json").write_text(json.dumps(jobs))
    full = dict(os.environ, PYTHONHASHSEED=seed, **env)
    r = subprocess.run(
        [sys.executable, "-W", "ignore", "-m", "mc.checks.p16", "jobs.json",
         "res.json"], cwd=str(base), env=full, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError(r.stdout.decode(errors="replace")[-2000:])
    res = json.loads((base / "res.json").read_text())
    subprocess.run(["rm", "-rf", str(base)], check=True)
    return [(t, lang, d) for (t, lang), d in zip(tags, res)]


def reordered(s, order):
    """The schema with its sections and settings in another order."""
    keys = list(s)
    head = [k for k in ("name", "description") if k in keys]
    rest = [k for k in keys if k not in head]
    rest = rest[order:] + rest[:order]
    t = OD((k, s[k]) for k in head + rest)
    for lang in LANGS:
        if lang in t and order % 2:
            t[lang] = OD(reversed(list(t[lang].items())))
    if order % 2:
        for c in [t] + t.get("classes", []) + t.get("embeds", []):
            for p in c.get("properties", {}).values():
                for k in sorted(set(p) - {"type", "description"},
                                reverse=True):
                    p.move_to_end(k)
        for c in t.get("classes", []) + t.get("embeds", []):
            for k in sorted(c):
                c.move_to_end(k)
    return t


def texts(s):
    """Texts of the same schema."""
    yield "indented", json.dumps(s, indent=3, ensure_ascii=False)
    yield "compact", json.dumps(s, separators=(",", ":"))
    yield "windows", json.dumps(s, indent="\t").replace("\n", "\r\n")
    # every character of a string as an escape
    esc = []
    text = json.dumps(s)
    i, inside = 0, False
    while i < len(text):
        c = text[i]
        if inside and c == "\\":
            n = 6 if text[i + 1] == "u" else 2
            esc.append(text[i:i + n])
            i += n
            continue
        if c == '"':
            inside = not inside
            esc.append(c)
        else:
            esc.append("\\u%04x" % ord(c) if inside else c)
        i += 1
    yield "escaped", "".join(esc)
    for order in range(1, 6):
        yield "order {}".format(order), json.dumps(
            reordered(copy.deepcopy(s), order))


def run(check):
    every = schemas()
    plain = [(tag, lang, json.dumps(s)) for tag, s in every.items()
             for lang in LANGS]
    check.add(schemas=len(every))
    few = [t for i, t in enumerate(every) if core.THOROUGH or
           t.startswith("p16_") or i % 2 == 0]
    variants = []
    for tag in few:
        for name, text in texts(every[tag]):
            assert json.loads(text) == every[tag]
            variants += [("{}|{}".format(tag, name), lang, text)
                         for lang in LANGS]
    sessions = []
    n = 0
    for config in CONFIGS:
        for i in range(4):
            sessions.append((n, config, plain[i::4]))
            n += 1
    for i in range(8):
        sessions.append((n, CONFIGS[0], variants[i::8]))
        n += 1
    check.add(sessions=len(sessions))
    first = {}
    for item, res in zip(sessions, core.pmap(session, sessions)):
        for tag, lang, d in res:
            check.add(generations=1)
            key = (tag.split("|")[0], lang)
            if key not in first:
                first[key] = (d, item[1], tag)
                continue
            a, config, tag0 = first[key]
            if a != d:
                diff = sorted(k for k in set(a) | set(d)
                              if a.get(k) != d.get(k))
                check.fail("{} in {}: {} differ between {} of {} and {} of "
                           "{}".format(lang, tag, diff, config, tag0,
                                       item[1], tag),
                           {"schema": every[key[0]], "diff": diff})
    check.add(states=check.cov["generations"],
              transitions=check.cov["generations"],
              traces_validated_against_impl=check.cov["generations"])
    check.sample({"configuration": list(map(str, CONFIGS[1]))})
    assert itertools is not None


if __name__ == "__main__":
    worker(sys.argv[1], sys.argv[2])
