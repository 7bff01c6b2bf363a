"""Date/time formats: all short sequences of directives and separators."""
import collections
import itertools
import re

from mc import core, corpus, drv_cpp, drv_go, drv_py, explore, ref, sut

DATE = ["%Y", "%y", "%m", "%b", "%B", "%d", "%e", "%a", "%A", "%%"]
TIME = ["%H", "%I", "%l", "%M", "%S", "%p", "%P", "%%"]
SEPS = ["-", "", "\n", " ", "/", ".", ":", ", ", "T", "'", "\"", "h", "_", "\\",
        "{}", "%%"]
# literals which mean something to Go
TEMPTING = ["1", "2", "15", "0", "05", "2006", "Jan", "Mon", "MST", "pm",
            "Z07", "-07", "x", "_", "3", "06", "Z", ".0", "002"]
DATES = [(2016, 7, 23), (1999, 12, 31), (2000, 2, 29), (2068, 1, 1),
         (1970, 10, 5), (2001, 5, 9)]
TIMES = [(0, 0, 0), (12, 0, 59), (10, 59, 1), (22, 30, 7), (23, 59, 59),
         (1, 2, 3), (13, 5, 8), (9, 45, 10)]


def text_of(fmt, date, time):
    """Text of a moment, None if it depends on the platform."""
    y, mo, d = date
    h, mi, s = time
    h12 = h % 12 or 12
    wd = ref.weekday(y, mo, d)
    table = {"%Y": "%04d" % y, "%y": "%02d" % (y % 100), "%m": "%02d" % mo,
             "%b": ref.MONTHS[mo - 1][:3], "%B": ref.MONTHS[mo - 1],
             "%d": "%02d" % d, "%e": "%2d" % d, "%a": ref.DAYS[wd][:3],
             "%A": ref.DAYS[wd], "%H": "%02d" % h, "%I": "%02d" % h12,
             "%l": "%d" % h12, "%M": "%02d" % mi, "%S": "%02d" % s,
             "%p": "PM" if h >= 12 else "AM", "%P": "pm" if h >= 12 else "am",
             "%%": "%"}
    toks = ref.tokens(fmt)
    if "%l" in toks and h12 < 10:
        return None
    return "".join(table.get(t, t) for t in toks)


def meaningful(fmt):
    """Whether a text in the format determines what is written back."""
    toks = ref.tokens(fmt)
    has = set(toks)
    if not has & set(DATE + TIME) - {"%%"}:
        return False
    if has & {"%a", "%A"} and not (
            has & {"%Y", "%y"} and has & {"%m", "%b", "%B"} and
            has & {"%d", "%e"}):
        return False
    if has & {"%p", "%P"} and not has & {"%I", "%l"}:
        return False
    if has & {"%I", "%l"} and not has & {"%p", "%P"} and "%H" in has:
        return False
    # a blank-padded day next to a blank or a digit is ambiguous to parse
    for a, b in zip(toks, toks[1:]):
        if b == "%e" and (a.isspace() or a[0] == "%" and a != "%%"):
            return False
        # so is a day or an hour of one digit next to a digit
        if a in ("%e", "%l") and (b.isdigit() or b[0] == "%" and b != "%%"):
            return False
    return True


def formats(thorough):
    out = collections.OrderedDict()

    def give(kind, fmt):
        if meaningful(fmt):
            out.setdefault((kind, fmt))

    for kind, alphabet in (("date", DATE), ("time", TIME)):
        for n in (1, 2):
            for seq in itertools.permutations(alphabet, n):
                for sep in SEPS:
                    give(kind, sep.join(seq))
        for seq in itertools.permutations(alphabet, 3):
            for sep in (("-", "", " ", "/") if thorough else ("-",)):
                give(kind, sep.join(seq))
        for lit in TEMPTING:
            for a in alphabet:
                give(kind, lit + a)
                give(kind, a + lit)
                if thorough:
                    for b in alphabet:
                        give(kind, a + lit + b)
    for a, b in itertools.product(
            ["%Y-%m-%d", "%d.%m.%y", "%B %d, %Y", "%a, %d %b %Y",
             "%A %e. %B %Y"],
            ["%H:%M:%S", "%I:%M:%S %p", "%H%M%S", "%l:%M%P", "%I.%M %P"]):
        for sep in SEPS:
            give("datetime", a + sep + b)
            give("datetime", b + sep + a)
    for d, t in itertools.product(DATE, TIME):
        for sep in ("T", " ") if thorough else ("T",):
            give("datetime", d + sep + t)
            give("datetime", t + sep + d)
    # longest texts per character of the format
    give("date", "%A" + "%B" * 1 + "%Y%d%m")
    return list(out)


def chunk_schema(chunk, lib="ctime"):
    return corpus.schema(
        [("p{}".format(i), corpus.prop({"type": kind, "format": fmt}))
         for i, (kind, fmt) in enumerate(chunk)],
        settings={"cpp": {"datetime_library": lib}})


def refused(lang, schema):
    """Properties which the language refuses, by its command line."""
    base = core.scratch() / "p17"
    base.mkdir(exist_ok=True)
    import json
    import os
    sp = base / "s{}.json".format(os.getpid())
    sp.write_text(json.dumps(schema))
    code, _, err, exc = sut.cli(lang, sp, base / "out{}".format(os.getpid()))
    if exc is not None:
        raise sut.Broken("{}: {!r}".format(lang, exc))
    names = re.findall(r"#/(p[0-9]+)(?:/format)?: ", err)
    if (code != 0) != bool(names):
        raise sut.Broken("{}: exit code {} with the errors {}".format(
            lang, code, err[:500]))
    return set(names)


def may_refuse(lang, fmt):
    """Whether there may be a reason that a language can not do a format."""
    toks = ref.tokens(fmt)
    if lang == "py":
        same = [{"%e": "%d", "%l": "%I", "%P": "%p"}.get(t, t) for t in toks
                if t[0] == "%" and t != "%%"]
        return len(same) != len(set(same))
    if lang == "go":
        return any(t[0] != "%" and t not in "-/: T'\"{}\n" for t in toks) or \
            any(a in ("%a", "%b") and b == "%P" for a, b in zip(toks, toks[1:]))
    return False


def overdone(lang, chunk, gone):
    """Formats which are refused without a reason."""
    return [chunk[int(n[1:])] for n in sorted(gone)
            if not may_refuse(lang, chunk[int(n[1:])][1])]


def moments(thorough):
    if thorough:
        return list(itertools.product(DATES, TIMES))
    return [(d, TIMES[i % len(TIMES)]) for i, d in enumerate(DATES)] + [
        (DATES[i % len(DATES)], t) for i, t in enumerate(TIMES)]


def too_long(label, fmt, text):
    """Whether tm_to_string of C++ runs out of memory, a known finding."""
    return label == "cpp-ctime" and len(text.encode()) >= 4 * len(fmt.encode())


def requests(label, chunk, live, thorough):
    """(document, {property: fields})."""
    out = []
    for date, time in moments(thorough):
        doc, want = {}, {}
        for i, (kind, fmt) in enumerate(chunk):
            name = "p{}".format(i)
            if name not in live:
                continue
            text = text_of(fmt, date, time)
            fields = None
            if text is not None:
                try:
                    fields = ref.parse_time(fmt, text)
                except ref.Unspecified:
                    fields = None
            if not isinstance(fields, dict) or too_long(label, fmt, text):
                # a moment which every format can express
                text = text_of(fmt, (2001, 10, 12), (10, 11, 12))
                fields = ref.parse_time(fmt, text)
                if too_long(label, fmt, text):
                    continue
            fields = dict(fields)
            toks = ref.tokens(fmt)
            if not set(toks) & {"%p", "%P"} and set(toks) & {"%I", "%l"}:
                fields.pop("H", None)
            doc[name] = text
            assert not too_long(label, fmt, text)
            want[name] = fields
        out.append((doc, want))
    return out


# C library and date.h of the sandbox lack some directives.
def unsupported(lang, kind, fmt):
    toks = set(ref.tokens(fmt))
    if lang == "cpp-ctime":
        return "%P" in toks
    if lang == "cpp-date.h":
        # its dates are complete ones
        return bool(toks & {"%l", "%P"}) or kind != "time" and not (
            toks & {"%Y", "%y"} and toks & {"%m", "%b", "%B"} and
            toks & {"%d", "%e"})
    return False


def date_h_key(label, fmt):
    """date.h reads blank-padded days and 12-hour clocks differently."""
    if label == "cpp-date.h" and set(ref.tokens(fmt)) & {"%e", "%I", "%p"}:
        return "cpp-date-h-directives"
    return None


def judge(t, lang, chunk, doc, want, a):
    t.n["states"] += len(doc)
    t.n["transitions"] += 3
    t.n["traces_validated_against_impl"] += 1
    by = {"p{}".format(i): kf for i, kf in enumerate(chunk)}
    if a.get("panic"):
        t.fail(lang, "format", "raised {}".format(a["panic"]), doc)
        return
    bad = {e.split("/")[1] if "/" in e else e for e in a["errors"]}
    for name in sorted(bad):
        t.fail(lang, "format", "{} of the format {!r}: {!r} was rejected"
               .format(by[name][0], by[name][1], doc.get(name)), [
                   by[name], doc.get(name)],
               key=date_h_key(lang, by[name][1]))
    if a["errors"]:
        return
    if a.get("dumppanic"):
        t.fail(lang, "format", a["dumppanic"], doc)
        return
    props = a["dump"]["props"]
    for name, fields in want.items():
        got = props[name]
        got = got.get(by[name][0], got.get("datetime")) if isinstance(
            got, dict) else None
        if got is None or any(got.get(k) != v for k, v in fields.items()):
            t.fail(lang, "format", "{} of the format {!r}: {!r} is {} instead"
                   " of {}".format(by[name][0], by[name][1], doc[name],
                                   props[name], fields), [
                                       by[name], doc[name]],
                   key=date_h_key(lang, by[name][1]))
            return
    j = a.get("json")
    if not isinstance(j, dict):
        t.fail(lang, "format", "not serialized: {}".format(
            a.get("serpanic") or a.get("sererr")), doc)
        return
    for name in want:
        if j.get(name) != doc[name]:
            t.fail(lang, "format", "{} of the format {!r}: {!r} is "
                   "serialized as {!r}".format(
                       by[name][0], by[name][1], doc[name], j.get(name)),
                   [by[name], doc[name]],
                   key=date_h_key(lang, by[name][1]))
    t.n["round_trips"] += len(want)


def _py(args):
    n, chunk, thorough = args
    t = explore.Tally()
    schema = chunk_schema(chunk)
    gone = refused("py", schema)
    for kind, fmt in overdone("py", chunk, gone):
        t.fail("py", "format", "the format {!r} of a {} is refused".format(
            fmt, kind), [kind, fmt])
    t.n["formats_refused"] += len(gone)
    live = [k for k in schema["properties"] if k not in gone]
    for k in gone:
        del schema["properties"][k]
    try:
        p = drv_py.Package(schema, "fmt{}".format(n))
    except drv_py.Broken as e:
        t.fail("py", "load", str(e), None)
        return t
    t.n["formats"] += len(live)
    for doc, want in requests("py", chunk, live, thorough):
        a, g = explore._outcome_py(p, doc, "#", explore.BIG)
        if g is not None and not a["errors"]:
            try:
                a["json"] = p.serialize(g)
            except Exception as e:  # pylint: disable=broad-except
                a["serpanic"] = repr(e)
        judge(t, "py", chunk, doc, want, a)
    p.unload()
    return t


_bundle = None


def _compiled(args):
    lang, tag, chunk, live, thorough = args
    t = explore.Tally()
    if tag in _bundle.broken:
        t.fail(lang, "load", _bundle.broken[tag], None)
        return t
    t.n["formats"] += len(live)
    todo = requests(lang, chunk, live, thorough)
    for (doc, want), a in zip(todo, _bundle.run(tag, [
            {"op": "rt", "doc": d, "ref": "#", "cap": 0} for d, _ in todo],
                                                timeout=200)):
        judge(t, lang, chunk, doc, want, a)
    return t


def prepare(args):
    lang, lib, chunk = args
    schema = chunk_schema(chunk, lib)
    gone = refused(lang, schema)
    label = lang if lang != "cpp" else "cpp-" + lib
    skip = {"p{}".format(i) for i, (kind, f) in enumerate(chunk)
            if unsupported(label, kind, f)}
    for k in gone | skip:
        del schema["properties"][k]
    return (schema, len(gone), len(skip), list(schema["properties"]),
            overdone(lang, chunk, gone))


def long_texts(check):
    """Texts longer than four times the format, in C++ with a small memory."""
    cases = [("datetime", "%A%B%d%Y", (2020, 9, 9)),
             ("date", "%B%d%Y", (2020, 9, 12)), ("date", "%B", (2020, 9, 12)),
             ("date", "%A%B%e%Y", (2021, 12, 16))]
    bundle = drv_cpp.Bundle(collections.OrderedDict(
        ("long{}".format(i), corpus.schema([("p", corpus.prop(
            {"type": k, "format": f}))])) for i, (k, f, _) in enumerate(cases)))
    for i, (kind, fmt, date) in enumerate(cases):
        tag = "long{}".format(i)
        text = text_of(fmt, date, (0, 0, 0))
        if tag in bundle.broken:
            check.fail(bundle.broken[tag], [kind, fmt])
            continue
        try:
            a = bundle.run(tag, [{"op": "rt", "doc": {"p": text}, "ref": "#",
                                  "cap": 0}], timeout=60, memory=1 << 29)[0]
        except sut.Broken as e:
            a = {"serpanic": str(e)}
        check.add(states=1, transitions=3, traces_validated_against_impl=1)
        if a.get("json") != {"p": text}:
            check.fail("cpp-ctime: {} of the format {!r}: {!r} is serialized "
                       "as {}".format(kind, fmt, text, a.get("json", a)),
                       [kind, fmt, text],
                       "cpp-long-date-text" if too_long(
                           "cpp-ctime", fmt, text) and "bad_alloc" in str(
                               a.get("serpanic")) else None)


def run(check):
    global _bundle
    long_texts(check)
    todo = formats(core.THOROUGH)
    check.add(distinct_formats=len(todo))
    check.sample([f for _, f in todo[::len(todo) // 8]])
    chunks = [todo[i:i + 60] for i in range(0, len(todo), 60)]
    th = core.THOROUGH
    explore.merge(check, core.pmap(
        _py, [(n, c, th) for n, c in enumerate(chunks)]))
    for lang, lib, drv in (("go", "ctime", drv_go), ("cpp", "ctime", drv_cpp),
                           ("cpp", "date.h", drv_cpp)):

        label = lang if lang != "cpp" else "cpp-" + lib
        use = chunks
        if label == "cpp-date.h":
            # the templates of date.h take long to compile
            some = [(k, f) for k, f in todo
                    if not unsupported(label, k, f)]
            use = []
            for dirty in (False, True):
                part = [kf for kf in some if dirty == bool(
                    date_h_key(label, kf[1]))]
                part = part[::1 if th else 50 if dirty else 6]
                use += [part[i:i + 15] for i in range(0, len(part), 15)]
        ready = core.pmap(prepare, [(lang, lib, c) for c in use])
        for r in ready:
            for kind, fmt in r[4]:
                check.fail("{}: the format {!r} of a {} is refused".format(
                    label, fmt, kind), [kind, fmt])
        check.add(formats_refused=sum(r[1] for r in ready),
                  formats_not_supported=sum(r[2] for r in ready))
        tags = ["fmt{}".format(i) for i in range(len(use))]
        _bundle = drv.Bundle(collections.OrderedDict(
            (tg, r[0]) for tg, r in zip(tags, ready)))
        explore.merge(check, core.pmap(_compiled, [
            (label, tg, c, r[3], th)
            for tg, c, r in zip(tags, use, ready)]))
