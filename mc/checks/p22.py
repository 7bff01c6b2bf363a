"""Free texts of the schema are data, never code.

Hostile texts are all the sequences of fragments which mean something to one
of the generated languages, up to a length.  As JSON names, patterns and
formats they are explored with documents; as descriptions they must leave
nothing but comments and docstrings different from a harmless description.
"""
import ast
import collections
import itertools
import os
import re
import subprocess

from mc import core, corpus, docs, drv_go, explore, ref, sut
from mc.checks.p12 import chunks, try_

INT = {"type": "integer"}
TOKENS = ['"', "'", "`", "\\", "{", "}", "{{", "{%", "%", "%s", "%d", "$",
          "#", "//", "/*", "*/", '"""', "'''", "\n", "\r", "\t", "\x0b",
          "\u2028", "\u00e9", "\U0001f600", " ", "??/", 'R"(', ')"', "\\n",
          "\\x41", "\\u0041", "<", "&", ",", ";", "1", "|", "+", "(", ")"]
# of those, the ones that are combined in C++, which compiles slowly
FEWER = ['"', "'", "\\", "{", "%s", "//", "*/", "\n", "\\x41", "\\u0041",
         "1", "\u00e9", "??/", 'R"(', ")"]
SPECIAL = "\\^$.|?*+()[]{}"
PLAIN = "word"


def texts(lang, length=2):
    out = collections.OrderedDict((t, None) for t in TOKENS)
    for n in range(2, length + 1):
        alphabet = TOKENS if core.THOROUGH or lang == "py" else FEWER
        for seq in itertools.product(alphabet, repeat=n):
            out["".join(seq)] = None
    return list(out)


def rx(text):
    return "^" + "".join("\\" + c if c in SPECIAL else c
                         for c in text) + "$"


def owned(owner, props):
    few = [("qq", corpus.prop(INT, optional=True))]
    return corpus.schema(
        (props if owner == "graph" else few) +
        ([("qemb", corpus.prop({"type": "Qemb"}))] if owner == "embed"
         else []),
        [corpus.cls("Qclass", props if owner == "class" else few)],
        [corpus.embed("Qemb", props if owner == "embed" else few)])


def json_names(owner, chunk):
    return owned(owner, [
        ("p{}".format(i), corpus.prop(INT, json=t))
        for i, t in enumerate(chunk)])


def patterns(owner, chunk):
    return owned(owner, [
        ("p{}".format(i), corpus.prop(
            {"type": "path" if i % 3 == 2 else "string", "pattern": rx(t)}))
        for i, t in enumerate(chunk)])


def id_patterns(_, chunk):
    return corpus.schema([], [
        corpus.cls("C{}".format(i), [("qq", corpus.prop(INT))],
                   id_pattern=rx(t)) for i, t in enumerate(chunk)])


def formats(owner, chunk):
    return owned(owner, [
        ("p{}".format(i), corpus.prop({"type": "date", "format": fmt(t, j)}))
        for i, (t, j) in enumerate(chunk)])


def fmt(text, i=0):
    t = text.replace("%", "%%")
    return ("%Y" + t + "%m", t + "%Y", "%Y" + t)[i]


def teach(all_texts):
    """Let the generator of documents know values for the texts."""
    for t in all_texts:
        bad = ["", t + "x", "x" + t, PLAIN]
        if len(t) > 1:
            bad += [t[:-1], t[1:]]
        docs.PATTERNS[rx(t)] = ([t], bad)
        docs.DATES[fmt(t)] = (
            ["2016" + t + "07"],
            ["2016" + x + "07" for x in bad] + ["2016" + t + "13"])
        docs.DATES[fmt(t, 1)] = ([t + "2016"], [x + "2016" for x in bad])
        docs.DATES[fmt(t, 2)] = (["2016" + t], ["2016" + x for x in bad])


def usable(args):
    """Texts which the language allows in formats."""
    lang, chunk = args
    out = []
    for t in chunk:
        ok, text = try_(lang, formats("graph", [t]))
        if ok is None:
            return text
        if ok:
            out.append(t)
    return out


OWNERS = ("graph", "class", "embed")


def behaviour(check, lang):
    all_ = texts(lang, 2)
    teach(all_)
    plan = explore.Plan()
    kw = {}
    singles = [t for t in TOKENS]
    rest = [t for t in all_ if t not in set(singles)]
    good = []
    placed = [(t, i) for t in all_ for i in (0, 1, 2)]
    for r, c in zip(core.pmap(usable, [(lang, c) for c in chunks(placed, 20)]),
                    chunks(placed, 20)):
        if isinstance(r, str):
            check.fail("{}: formats: {}".format(lang, r), c)
        else:
            good += r
    check.add(texts_usable_in_formats=len(good), texts=len(all_))
    for name, make, names in (
            ("json", json_names, rest), ("pattern", patterns, rest),
            ("format", formats, [t for t in good if t[0] in set(rest)])):
        ones = singles if name != "format" else [
            t for t in good if t[0] in set(singles)]
        for owner in OWNERS:
            for i, c in enumerate(chunks(ones)):
                plan.add({"{}_{}_{}_single{}".format(
                    lang, name, owner, i): make(owner, c)}, 1)
        for i, c in enumerate(chunks(names)):
            plan.add({"{}_{}_{}".format(lang, name, i):
                      make(OWNERS[i % 3], c)}, 1)
    for i, c in enumerate(chunks(all_ if lang == "py" or core.THOROUGH else
                                 singles, 20)):
        plan.add({"{}_id_{}".format(lang, i): id_patterns(None, c)}, 1)
    facets = ["accept", "value", "refs", "rt"]
    if lang == "py":
        explore.explore_py(check, plan, facets)
    else:
        explore.explore_compiled(check, lang, plan, facets)


# --- descriptions -----------------------------------------------------------

POSITIONS = 7


def described(seven):
    """A schema with seven descriptions."""
    d = ["gives " + t + "." for t in seven]
    p = lambda x, **kw: corpus.prop(INT, description=x, **kw)
    s = corpus.schema(
        [("a", p(d[3])), ("b", p(d[4], optional=True))],
        [corpus.cls("Qclass", [("a", p(d[4])), ("b", p(d[5]))])],
        [corpus.embed("Qemb", [("a", p(d[5])), ("b", p(d[6]))])])
    s["description"] = d[0]
    s["classes"][0]["description"] = d[1]
    s["embeds"][0]["description"] = d[2]
    return s, [d[0], d[1], d[2], d[3], d[4], d[4], d[5], d[5], d[6]]


class Bare(ast.NodeTransformer):
    """Removes the docstrings, and collects them."""

    def __init__(self):
        self.docs = []

    def generic_visit(self, node):
        super().generic_visit(node)
        body = getattr(node, "body", None)
        if isinstance(body, list) and isinstance(
                node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            rest = []
            for x in body:
                if isinstance(x, ast.Expr) and isinstance(
                        x.value, ast.Constant) and isinstance(
                            x.value.value, str):
                    self.docs.append(x.value.value)
                else:
                    rest.append(x)
            node.body = rest or [ast.Pass()]
        return node


def lines(text):
    """Lines of a text in whatever way they may be put down."""
    return [" ".join(x.split()) for x in text.splitlines() if x.strip()]


def bare_py(files):
    out, comments = {}, []
    for name, data in files.items():
        b = Bare()
        out[name] = ast.dump(b.visit(ast.parse(data)))
        comments += b.docs
        comments += [x for x in data.decode().split("\n")
                     if x.lstrip().startswith("#")]
    return out, "\n".join(comments)


def bare_cpp(files):
    out = {}
    for name, data in files.items():
        p = subprocess.run(
            ["g++", "-std=c++17", "-fpreprocessed", "-E", "-P", "-x", "c++",
             "-"], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise sut.Broken(p.stderr.decode()[:300])
        out[name] = p.stdout.split()
    return out, "\n".join(d.decode() for d in files.values())


GO = '''package main

import (
	"bufio"
	"encoding/json"
	"go/scanner"
	"go/token"
	"os"
)

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	enc := json.NewEncoder(out)
	for {
		var src string
		if dec.Decode(&src) != nil {
			return
		}
		var s scanner.Scanner
		fs := token.NewFileSet()
		errs := []string{}
		s.Init(fs.AddFile("x.go", fs.Base(), len(src)), []byte(src),
			func(_ token.Position, m string) { errs = append(errs, m) }, 0)
		toks := []string{}
		for {
			_, t, lit := s.Scan()
			if t == token.EOF {
				break
			}
			toks = append(toks, t.String()+" "+lit)
		}
		enc.Encode([]interface{}{errs, toks})
	}
}
'''
_scan = None


def scanner():
    d = core.scratch() / "goscan"
    d.mkdir(exist_ok=True)
    (d / "main.go").write_text(GO)
    p = subprocess.run(["go", "build", "-o", str(d / "scan"),
                        str(d / "main.go")], env=drv_go.env(d / "gopath"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError(p.stdout.decode())
    return d / "scan"


def bare_go(files):
    import json
    names = list(files)
    p = subprocess.run(
        [str(_scan)], stdout=subprocess.PIPE, check=True,
        input="\n".join(json.dumps(files[n].decode())
                        for n in names).encode())
    out = {}
    for n, line in zip(names, p.stdout.decode().splitlines()):
        errs, toks = json.loads(line)
        if errs:
            raise sut.Broken("{}: {}".format(n, errs[:3]))
        out[n] = toks
    return out, "\n".join(d.decode() for d in files.values())


BARE = {"py": bare_py, "go": bare_go, "cpp": bare_cpp}
_base = {}


def tree(lang, schema):
    import shutil
    d = core.scratch() / "p22" / "g{}".format(os.getpid())
    try:
        sut.generate(lang, schema, d)
    except sut.GenerationFailed as e:
        raise sut.Broken(str(e))
    out = collections.OrderedDict(
        (str(p.relative_to(d)), p.read_bytes())
        for p in sorted(d.glob("**/*")) if p.is_file())
    shutil.rmtree(str(d), ignore_errors=True)
    return out


def describe(args):
    lang, group = args
    bad, n = [], 0
    if lang not in _base:
        files = tree(lang, described([PLAIN] * POSITIONS)[0])
        _base[lang] = files, BARE[lang](files)[0]
    plain, want = _base[lang]
    for seven in group:
        s, all_ = described(seven)
        n += 1
        try:
            files = tree(lang, s)
            other = {k: v for k, v in files.items() if plain.get(k) != v}
            got, words = BARE[lang](other)
        except (sut.Broken, SyntaxError, ValueError) as e:
            bad.append((lang, seven, "broken by a description: {}".format(e)))
            continue
        if set(files) != set(plain):
            bad.append((lang, seven, "the files differ"))
        for k in got:
            if got[k] != want.get(k):
                bad.append((lang, seven, "a description is taken for code "
                            "in " + k))
        said = " ".join(" ".join(lines(words)).split("//"))
        said = re.sub(r"\s+", " ", said)
        for d in all_:
            for line in lines(d):
                if re.sub(r"\s+", " ", line.replace("//", " ")).strip() \
                        not in said:
                    bad.append((lang, seven, "the description {!r} is not in "
                                "the code".format(d)))
                    break
    return n, bad


def run(check):
    global _scan
    _scan = scanner()
    (core.scratch() / "p22").mkdir(exist_ok=True)
    # "\n" alone is refused in descriptions
    for lang in ("py", "go", "cpp"):
        all_ = [t for t in dict.fromkeys(
            TOKENS + ["".join(x) for x in itertools.product(
                TOKENS, repeat=2)]) if "\n" not in t]
        if core.THOROUGH:
            all_ += ["".join(x) for x in itertools.product(
                FEWER, repeat=3) if "\n" not in "".join(x)]
        step = 1 if core.THOROUGH else 3
        if len(all_) % step == 0:
            all_.append(PLAIN)
        todo = [[all_[(i + k * (len(all_) // POSITIONS)) % len(all_)]
                 for k in range(POSITIONS)]
                for i in range(0, len(all_), step)]
        for n, bad in core.pmap(describe, [(lang, c) for c in
                                           chunks(todo, 20)]):
            check.add(descriptions=n * POSITIONS, transitions=n)
            for l, seven, msg in bad:
                check.fail("{}: {!r}: {}".format(l, seven, msg), seven)
        behaviour(check, lang)
