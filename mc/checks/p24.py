"""Patterns mean the same in Python, Go and C++.

All the patterns composed of one atom in four places, and of two atoms out of a
list, are enumerated.  The generator of a language either refuses a pattern, which
it must not do with portable ones, or generates code in which every text out of an
alphabet is accepted if the pattern matches it as a whole, and rejected if the
pattern matches nowhere in it.
"""
import collections
import re
import warnings

from mc import core, corpus, drv_cpp, explore
from mc.checks.p12 import try_

warnings.simplefilter("ignore")
FACETS = ["accept", "value", "refs", "rt"]
LANGS = ["py", "go", "cpp"]

# Atoms which all the languages have and write the same.
PORTABLE = [
    "a", "b", "1", ".", "[ab]", "[^a]", "[a-c]", "[0-9]", "[A-Z]", r"\d",
    r"\w", r"\s", r"\D", r"\W", r"\S", r"[\d]", r"[\w.]", r"[a\-b]", "[a-]",
    "[-a]", r"[\]]", r"[\\]", r"[\^a]", "[a^]", "[.]", "[(]", r"\.", r"\\",
    r"\/", r"\-", r"\t", r"\n", r"\b", r"\x61", r"\{", r"\}", r"\[", r"\]",
    r"\(", r"\)", r"\|", r"\*", r"\+", r"\?", r"\^", r"\$", "/", "#", "'",
    '"', "`", "%", "&", "~", "@", "-", "_", " ", "<", "=", "!", ":", ",", ";",
    "a*", "a+", "a?", "a*?", "a+?", "a??", "a{2}", "a{1,2}", "a{1,}",
    "a{0,1}?", "a{0}", "(ab)*", "(?:ab)+", "(a|b)", "(a|)", "(|a)", "()",
    "(?:)", "(?:^a)", "(?:a$)", "a|b", "^a", "b$", "[^\\W]", "[\\D1]",
    "[*-.]", "[!--]", "[a-a]", "[\\x61-\\x63]", "[\\-a]", "(a|ab)(b|)",
    "(a*)*", "(?:a|b)*", "a{2}|b", "%s", "%d", "\u4e16"]
# Atoms which not all the languages have, or which they read differently.
OTHER = [
    "[]a]", "[^]a]", "[[]", "[[:alpha:]]", "[a[:alpha:]]", "[[.a.]]",
    "[[=a=]]", "[a&&b]", "[a||b]", "[a--b]", "[a~~b]", "[+--]", r"\_",
    r"\ ", r"\r", r"\f", r"\v", r"\a", r"[\a]", r"\B", r"\x7e", r"\u0061",
    r"[\u0061]", r"\U00000061", r"\N{DIGIT ONE}", r"\0", r"\07", r"\141",
    r"[\141]", r"[\7]", r"[\b]", r"\A", r"\Z", r"\"", r"\'", r"\#", r"\&",
    r"\~", r"\@", r"\%", r"\,", r"\:", r"\;", r"\<", r"\>", r"\=", r"\!",
    r"\`", "{", "}", "]", "a{", "a{x}", "a{1", "a{}", "a{,2}", "a{,}",
    "a{, 2}", "a*+", "a++", "a?+", "a{1,2}+", "(?P<n>a)", "(?P<\u00e4>a)",
    "(?P<n>a)(?P=n)", r"(a)\1", r"(a)\1b", "(?i:a)", "(?-i:a)", "(?s:.)",
    "(?m:^a$)", "(?x: a )", "(?a:\\w)", "(?is:a)", "(?i-s:a)", "(?=a)a",
    "(?!b)a", "(?<=a)b", "(?<!a)b", "(?#note)a", "(?>a)", "(a)?(?(1)b|c)",
    "(?=a)", "(?!a)", "$a", "a^", "{{", "\u00e4", "[\u00e4]", "[^\u00e4]",
    "[a-\u00e4]", "\u00e4+", "(?:\u00e4)+", "\U0001f600", r"\u00e4", r"\xe4",
    "\\\u00e4", "\t", "(?i)a", "(?x) a", "(?s).", "(?m)a", "(?a)a", "(?u)a",
    "a{1000}", "a{1001}", "(a{100}){10}", "(a{100}){11}", "(a{9}b{9}){99}",
    "((((((((((a))))))))))\\10", r"[\s\S]"]
PAIRED = ["a", "b", ".", "[ab]", "[^a]", r"\d", r"\w", r"\S", r"\.", r"\-",
          r"\b", "-", "a*", "b+", "a?", "a*?", "b{2}", "(a|b)", "(?:ab)?",
          "|", "^", "$", r"\\", "[.-]", r"[\]]", "[-a]"]
ALPHABET = "abcA1 -_.\\/\"'`{}[](),|*+?^$#~%&@<>=!:;\u00e4\n"
TEXTS = [""] + list(ALPHABET) + [
    x + y for x in "abA1 -\u00e4\n" for y in ALPHABET] + [
        "aab", "aba", "aaa", "abab", "abc", "aaaa", "aA1", "abb", "bb", "bbb",
        "\x07", "\u4e16", "\U0001f600", "\t", "\r", "\x0b", "\x0c", "a\t",
        "\u0663", "\x7f", "\x08", "a{x}", "a{}", "a{,2}", "a{,}", "a{, 2}",
        " a ", "\u2028", "%s", "%d", "{{", "a%s", "N", "Z", "Aa", "aZ",
        "a" * 1000, "a" * 1001, "\u00e4" * 2, "\u00e4\u4e16", "x61", "u0061"]


def patterns():
    """{pattern: whether it is portable}"""
    res = collections.OrderedDict()
    for atoms, portable in ((PORTABLE, True), (OTHER, False)):
        for x in atoms:
            for p in ("^{}$", "{}", "{}a", "a{}"):
                res.setdefault(p.format(x), portable)
    for x in PAIRED:
        for y in PAIRED:
            res.setdefault("^" + x + y + "$", True)
    if core.THOROUGH:
        for x in PORTABLE:
            for y in PORTABLE:
                res.setdefault("^" + x + y + "$", True)
        for x in PAIRED:
            for y in PAIRED:
                for z in PAIRED:
                    res.setdefault("^" + x + y + z + "$", True)
    for p in list(res):
        try:
            re.compile(p)
        except re.error:
            del res[p]
    return res


def bytes_of(text):
    return text.encode("utf-8").decode("latin-1")


def open_(lang, pattern, text):
    """Whether the documentation leaves the verdict on the text open."""
    rx = re.compile(pattern)
    full = rx.fullmatch(text) is not None
    if full != (rx.search(text) is not None):
        return True
    # A dollar also stands before a final new line in Python.
    if text.endswith("\n") and "$" in pattern[:-1]:
        return True
    # The languages differ in how the short-hands and dots take these texts.
    if text == "" and r"\B" in pattern:
        return True
    if set(text) & set("\r\x0b\x0c\x1c\u2028"):
        return bool(re.search(r"\.|\\[sSwWdDbB]|\[\^", pattern))
    if not text.isascii():
        rx = re.compile(pattern, re.ASCII if "(?u)" not in pattern else 0)
        if (rx.fullmatch(text) is not None) != full or (
                rx.search(text) is not None) != full:
            return True
    return False


def known(lang, pattern, text):
    """C++ matches bytes: a known finding."""
    if lang != "cpp" or text.isascii():
        return False
    full = re.fullmatch(pattern, text) is not None
    flags = re.ASCII if "(?u)" not in pattern else 0
    try:
        rx = re.compile(bytes_of(pattern), flags)
    except re.error:
        return True
    return ((rx.fullmatch(bytes_of(text)) is not None) != full or
            (rx.search(bytes_of(text)) is not None) != full)


def one(pattern, kind):
    if kind == "id":
        return corpus.schema([], [corpus.cls("Alpha", [],
                                             id_pattern=pattern)])
    return corpus.schema([("p0", corpus.prop({
        "type": kind, "pattern": pattern}))])


def refusals(args):
    """[(pattern, kind, verdict, report)]"""
    lang, chunk = args
    out = []
    for i, p in chunk:
        kind = KINDS[i % len(KINDS)]
        ok, text = try_(lang, one(p, kind))
        out.append((p, kind, ok, text))
    return out


KINDS = ["string", "path", "string", "id"]
PLACE = {"string": "properties/p0", "path": "properties/p0",
         "id": "classes/0/Alpha/id_pattern"}
PLACES = {"string": "#/p0", "path": "#/p0", "id": "#/classes/0"}


def verdicts(lang, pattern, kind):
    """(texts to accept, texts to reject)"""
    good, bad = [], []
    rx = re.compile(pattern)
    for t in TEXTS:
        if open_(lang, pattern, t) or known(lang, pattern, t):
            continue
        (good if rx.fullmatch(t) else bad).append(t)
    return good, bad


def chunk_schema(chunk, lang):
    """A schema with the patterns, and the documents with all the texts."""
    props, classes, docs = [], [], []
    for i, (p, kind) in enumerate(chunk):
        good, bad = verdicts(lang, p, kind)
        if kind == "id":
            name = "Cls_" + "abcdefghijklmnopqrstuvwxyz"[i]
            classes.append(corpus.cls(name, [], plural=name + "_s",
                                      id_pattern=p))
            key = (name + "_s").lower()
            wrap = lambda ts: {t: {} for t in ts}
        else:
            key = "p_{}".format(i)
            props.append((key, corpus.prop(
                corpus.arr({"type": kind, "pattern": p}), optional=True)))
            wrap = lambda ts: list(ts)
        mixed = [x for y in zip(good, bad) for x in y]
        n = len(mixed) // 2
        docs.append({key: wrap(good)})
        docs.append({key: wrap(mixed + good[n:] + bad[n:])})
    return corpus.schema(props, classes), docs


def chunks(args):
    lang, chunk = args
    return chunk_schema(chunk, lang)


def bytes_finding(check):
    """Patterns and texts out of which the known finding has been made."""
    for pattern, text in (("^.$", "\u00e4"), ("^[^a]$", "\u4e16")):
        s = corpus.schema([("p0", corpus.prop({
            "type": "string", "pattern": pattern}))])
        b = drv_cpp.Bundle({"bytes": s})
        if "bytes" in b.broken:
            check.fail("cpp: {!r}: {}".format(pattern, b.broken["bytes"]), s)
            continue
        a, = b.run("bytes", [{"op": "rt", "doc": {"p0": text}, "ref": "#",
                              "cap": 0}])
        if a.get("errors"):
            check.fail("cpp: {!r} is rejected under {!r}".format(
                text, pattern), {"p0": text}, key="cpp-pattern-bytes")


def run(check):
    bytes_finding(check)
    todo = patterns()
    check.add(patterns=len(todo), texts=len(TEXTS))
    check.sample(list(todo)[::199])
    for lang in LANGS:
        some = list(enumerate(todo))
        if lang == "cpp" and not core.THOROUGH:
            # the pairs are compiled in thorough
            some = [x for x in some if x[0] < 4 * len(PORTABLE + OTHER)
                    or x[0] % 4 == 0]
        accepted = []
        for res in core.pmap(refusals, [(lang, some[i::32])
                                        for i in range(32)]):
            for p, kind, ok, text in res:
                if ok is None:
                    check.fail("{}: {!r}: {}".format(lang, p, text), p)
                elif ok:
                    check.add(patterns_accepted=1)
                    accepted.append((p, kind))
                else:
                    check.add(patterns_refused=1)
                    if todo[p]:
                        check.fail("{}: the pattern {!r} of {} is refused for "
                                   "no reason: {}".format(lang, p, kind, text),
                                   p)
                    elif PLACES[kind] not in text and PLACE[kind] not in text:
                        check.fail("{}: the refusal of the pattern {!r} of {} "
                                   "names no place: {}".format(
                                       lang, p, kind, text), p)
        # What only some of the languages have goes into schemas of its own,
        # since a pattern which breaks the code breaks the code of the others.
        plain = [x for x in accepted if todo[x[0]]]
        other = [x for x in accepted if not todo[x[0]]]
        groups = [plain[i:i + 20] for i in range(0, len(plain), 20)]
        groups += [other[i:i + 20] for i in range(0, len(other), 20)]
        plan = explore.Plan()
        for i, (s, docs) in enumerate(core.pmap(
                chunks, [(lang, g) for g in groups])):
            plan.add({"{}_patterns_{}".format(lang, i): s}, docs)
        if lang == "py":
            explore.explore_py(check, plan, FACETS)
        else:
            explore.explore_compiled(check, lang, plan, FACETS)
