"""Instances which are made by hand, not parsed.

Python: all the subsets of the optional arguments of every constructor, in three
styles of calls, with parsed values and with all the values which are false in
conditions; graphs rebuilt by hand; annotations against a list of probes.  C++:
every structure default-initialized over two patterns of garbage.
"""
import collections
import datetime
import itertools
import pathlib
import typing

from mc import core, corpus, docs, drv_cpp, explore, ref
from mc.checks.p08 import SETTINGS

UNSET = object()


def items():
    """{tag: schema} for Python."""
    res = collections.OrderedDict(corpus.all_schemas(core.THOROUGH))
    st = corpus.structures()
    lf = {"leaf_" + t: corpus.leaf_schema(l, wide=True)
          for t, l in corpus.LEAF.items() if t in (
              "path", "path_pat", "tz", "datetime", "dur", "date", "time")}
    for t, s in itertools.chain(lf.items(), st.items()):
        for p, z in itertools.product(("str", "pathlib.Path"),
                                      ("str", "pytz.timezone")):
            if t in lf or core.THOROUGH:
                res["{}_{}_{}".format(t, p, z)] = corpus.with_settings(
                    s, py={"path_as": p, "timezone_as": z})
    return res


# --- values and annotations -------------------------------------------------

def fits(m, types, t, v):
    """Whether a value is one of the type as documented for Python."""
    kind = t["type"]
    if kind in m.classes or kind in m.embeds:
        return isinstance(v, getattr(types, ref.ucamel(kind)))
    if kind == "boolean":
        return isinstance(v, bool)
    if kind == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if kind == "float":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind == "string":
        return isinstance(v, str)
    if kind == "path":
        return isinstance(v, str if m.mapping["py"]["path_as"] == "str"
                          else pathlib.Path)
    if kind == "time_zone":
        return isinstance(v, str if m.mapping["py"]["timezone_as"] == "str"
                          else datetime.tzinfo)
    if kind == "date":
        return (isinstance(v, datetime.date) and
                not isinstance(v, datetime.datetime))
    if kind in ("datetime", "time"):
        return isinstance(v, getattr(datetime, kind))
    if kind == "duration":
        return isinstance(v, datetime.timedelta)
    if kind == "array":
        return isinstance(v, list) and all(
            fits(m, types, t["values"], x) for x in v)
    return isinstance(v, dict) and all(
        isinstance(k, str) and fits(m, types, t["values"], x)
        for k, x in v.items())


def conforms(v, hint):
    """Whether a type checker takes a value for an annotation."""
    if hint is typing.Any:
        return True
    if hint is type(None):
        return v is None
    origin, args = typing.get_origin(hint), typing.get_args(hint)
    if origin is typing.Union:
        return any(conforms(v, a) for a in args)
    if origin is None:
        if hint is float:
            return isinstance(v, (int, float)) and not isinstance(v, bool)
        if hint is int:
            return isinstance(v, int) and not isinstance(v, bool)
        if hint is datetime.date:
            # a datetime is a date to type checkers, not to users
            return (isinstance(v, datetime.date) and
                    not isinstance(v, datetime.datetime))
        return isinstance(v, hint)
    if not isinstance(v, origin):
        return False
    if not args:
        return True
    if isinstance(v, dict) or hasattr(v, "keys"):
        return all(conforms(k, args[0]) and conforms(x, args[1])
                   for k, x in v.items())
    return all(conforms(x, args[0]) for x in v)


def falsy(m, t):
    """Values of the type which count as false, or are otherwise special."""
    kind = t["type"]
    if kind == "boolean":
        return [False, True]
    if kind == "integer":
        return [0, 1]
    if kind == "float":
        return [0.0, 0, -0.0, float("nan")]
    if kind == "string":
        return ["", "x"]
    if kind == "path":
        return [""] if m.mapping["py"]["path_as"] == "str" else [
            pathlib.Path("")]
    if kind == "time_zone":
        return [""] if m.mapping["py"]["timezone_as"] == "str" else [
            datetime.timezone.utc]
    if kind == "time":
        return [datetime.time(0, 0, 0)]
    if kind == "date":
        return [datetime.date(1, 1, 1)]
    if kind == "datetime":
        return [datetime.datetime(1, 1, 1)]
    if kind == "duration":
        return [datetime.timedelta(0)]
    if kind == "array":
        return [[]] + [[x] for x in falsy(m, t["values"])[:1]]
    if kind == "map":
        return [{}, collections.OrderedDict()] + [
            {"": x} for x in falsy(m, t["values"])[:1]]
    return []


PROBES = [True, 0, 0.5, "x", pathlib.Path("x"), datetime.date(2000, 1, 1),
          datetime.datetime(2000, 1, 1), datetime.time(0),
          datetime.timedelta(0), datetime.timezone.utc, None, object()]


def probes(m, types, made):
    res = list(PROBES)
    res += [x for xs in made.values() for x in xs[:1]]
    return res + [[x] for x in res] + [{"k": x} for x in res] + [
        [], {}, [[0]], [{"k": "x"}], {"k": [0.5]}, {"k": {"l": True}}, {1: 0}]


# --- Python -----------------------------------------------------------------

class Made:
    """Instances of the composites of a package, made by constructors."""

    def __init__(self, p, t, tag):
        self.p, self.t, self.tag, self.m = p, t, tag, p.model

    def cls(self, comp):
        return getattr(self.p.types, ref.ucamel(comp.name))

    def params(self, comp):
        """(names of required, names of optional arguments, registries)"""
        req = [q.name.lower() for q in comp.props if not q.optional]
        opt = [q.name.lower() for q in comp.props if q.optional]
        regs = []
        if comp.name in self.m.classes:
            req = ["id"] + req
        elif comp is self.m.graph:
            regs = [c.plural.lower() for c in self.m.classes.values()]
        return req, opt, regs

    def calls(self, comp, values, full=True):
        """Construct with every subset of optional arguments, every style."""
        req, opt, regs = self.params(comp)
        rest = opt + regs
        if len(rest) <= 6 and full:
            subsets = list(itertools.product((False, True), repeat=len(rest)))
        else:
            subsets = [tuple(i in (a, b) for i in range(len(rest)))
                       for a in range(len(rest) + 1) for b in range(a + 1)]
            subsets += [tuple(not x for x in s) for s in subsets]
        for chosen in collections.OrderedDict.fromkeys(subsets):
            given = collections.OrderedDict(
                (n, values[n]) for n, y in zip(rest, chosen) if y)
            must = collections.OrderedDict((n, values[n]) for n in req)
            yield given, (list(must.values()), dict(given))
            yield given, ([], dict(must, **given))
            yield given, (list(must.values()) + [
                given.get(n) for n in rest], {})

    def check(self, comp, values, full=True):
        t = self.t
        if any(n not in values for n in self.params(comp)[0]):
            return
        req, opt, regs = self.params(comp)
        values = dict(values)
        for n in regs:
            values.setdefault(n, collections.OrderedDict())
        for n in opt:
            if n not in values:
                values[n] = object()
        kind = self.cls(comp)
        fresh = []
        for given, (args, kw) in self.calls(comp, values, full):
            t.n["transitions"] += 1
            try:
                x = kind(*args, **kw)
            except Exception as e:  # pylint: disable=broad-except
                t.fail(self.tag, "construct", "{}(*{!r}, **{!r}) raises "
                       "{!r}".format(comp.name, args, kw, e), None)
                return
            want = set(req) | set(opt) | set(regs)
            if set(vars(x)) != want:
                t.fail(self.tag, "construct", "{} has the attributes {}, "
                       "not {}".format(comp.name, sorted(vars(x)),
                                       sorted(want)), None)
                return
            for n in req + opt + regs:
                got = getattr(x, n)
                if n in given or n in req:
                    good = got is values[n]
                elif n in regs:
                    good = (isinstance(got, collections.OrderedDict) and
                            not got and all(got is not f for f in fresh))
                    fresh.append(got)
                else:
                    good = got is None
                if not good:
                    t.fail(self.tag, "construct", "{}.{} is {!r} after the "
                           "call with *{!r}, **{!r}".format(
                               comp.name, n, got, args, kw), None)
                    return

    # rebuild a parsed graph
    def rebuild(self, g):
        m = self.m
        new = {c.name: collections.OrderedDict() for c in m.classes.values()}
        for c in m.classes.values():
            for id_, inst in getattr(g, c.plural.lower()).items():
                req = self.params(c)[0]
                new[c.name][id_] = self.cls(c)(
                    **dict({n: None for n in req}, id=inst.id))
        for c in m.classes.values():
            for id_, inst in getattr(g, c.plural.lower()).items():
                for q in c.props:
                    n = q.name.lower()
                    setattr(new[c.name][id_], n, self.copy(
                        q.type, getattr(inst, n), new))
        kw = {q.name.lower(): self.copy(
            q.type, getattr(g, q.name.lower()), new) for q in m.graph.props}
        regs = {c.plural.lower(): new[c.name] for c in m.classes.values()}
        yield self.cls(m.graph)(**dict(kw, **regs))
        kw = {n: v for n, v in kw.items() if v is not None}
        h = self.cls(m.graph)(**kw)
        for n, r in regs.items():
            getattr(h, n).update(r)
        yield h

    def copy(self, typ, v, new):
        if v is None:
            return None
        kind = typ["type"]
        if kind in self.m.classes:
            return new[kind][v.id]
        if kind in self.m.embeds:
            e = self.m.embeds[kind]
            kw = {q.name.lower(): self.copy(
                q.type, getattr(v, q.name.lower()), new) for q in e.props}
            return self.cls(e)(**kw)
        if kind == "array":
            return [self.copy(typ["values"], x, new) for x in v]
        if kind == "map":
            return {k: self.copy(typ["values"], x, new)
                    for k, x in v.items()}
        return v


def _hints(t, tag, p, made, seen):
    m = p.model
    for comp in m.composites():
        init = made.cls(comp).__init__
        req, opt, regs = made.params(comp)
        if not req + opt + regs:
            continue
        try:
            hints = typing.get_type_hints(init, vars(p.types))
        except Exception as e:  # pylint: disable=broad-except
            t.fail(tag, "hints", "the annotations of {} do not resolve: {!r}"
                   .format(comp.name, e), None)
            continue
        ret = hints.pop("return", None)
        if set(hints) != set(req + opt + regs) or ret not in (
                None, type(None)):
            t.fail(tag, "hints", "{} annotates {}".format(
                comp.name, sorted(hints)), None)
            continue
        types = {q.name.lower(): q for q in comp.props}
        for n, hint in hints.items():
            if n in regs:
                c = [c for c in m.classes.values()
                     if c.plural.lower() == n][0]
                kind = {"type": "map", "values": {"type": c.name}}
                opt_ = True
            elif n == "id" and comp.name in m.classes:
                kind, opt_ = {"type": "string"}, False
            else:
                kind, opt_ = types[n].type, types[n].optional
            for v in probes(m, p.types, seen) + falsy(m, kind):
                t.n["states"] += 1
                t.n["traces_validated_against_impl"] += 1
                want = opt_ if v is None else fits(m, p.types, kind, v)
                if conforms(v, hint) != want:
                    t.fail(tag, "hints", "{}.{} is annotated {}, which {} "
                           "{!r}".format(comp.name, n, hint, "lacks" if want
                                         else "includes", v), None)
                    break


def _py(args):
    from mc import drv_py
    tag, schema, k = args
    t = explore.Tally()
    # typing shares the generic types, with what their names resolved to
    for clean in getattr(typing, "_cleanups", ()):
        clean()
    try:
        p = drv_py.Package(schema, tag)
    except drv_py.Broken as e:
        t.fail(tag, "load", str(e), None)
        return t
    t.n["schemas"] += 1
    try:
        _py_package(t, tag, p, schema, k)
    finally:
        p.unload()
    return t


def _py_package(t, tag, p, schema, k):
    m = p.model
    made = Made(p, t, tag)
    it = ref.Interp(m, "py")
    seen = collections.OrderedDict((c.name, []) for c in m.composites())
    for doc in docs.Docs(m, k).documents():
        try:
            r = it.parse(doc)
        except ref.Unspecified:
            continue
        if r.errors:
            continue
        try:
            errors = p.errors()
            g = p.from_(doc, "#", errors)
            if g is None or not errors.empty():
                raise ValueError("errors")
            text = p.serialize(g)
            dump = p.dump(g)
        except Exception:  # pylint: disable=broad-except
            t.n["left_to_other_properties"] += 1
            continue
        t.n["states"] += 1
        t.n["traces_validated_against_impl"] += 1
        for x in _instances(m, g, p):
            seen[x[0].name].append(x[1])
            for q in x[0].props:
                v = getattr(x[1], q.name.lower())
                if not (v is None and q.optional) and not fits(
                        m, p.types, q.type, v):
                    t.fail(tag, "type", "{}.{} is {!r} after parsing".format(
                        x[0].name, q.name, v), doc)
            made.check(x[0], {n: v for n, v in vars(x[1]).items()
                              if v is not None}, full=False)
        try:
            for h in made.rebuild(g):
                t.n["transitions"] += 3
                if p.dump(h) != dump:
                    t.fail(tag, "rebuilt", "a graph made by hand is {!r}"
                           .format(p.dump(h)), doc)
                got = p.serialize(h)
                if got != text:
                    t.fail(tag, "rebuilt", "a graph made by hand is "
                           "serialized to {!r}, not {!r}".format(got, text),
                           doc)
        except Exception as e:  # pylint: disable=broad-except
            t.fail(tag, "rebuilt", "a graph made by hand raises {!r}".format(
                e), doc)
        if t.nbad > 10:
            return
    for comp in m.composites():
        req, opt, regs = made.params(comp)
        alts = {q.name.lower(): falsy(m, q.type) or [object()]
                for q in comp.props}
        alts["id"] = ["", "x"]
        for n in regs:
            alts[n] = [collections.OrderedDict(), {}]
        for i in range(max([len(v) for v in alts.values()])):
            t.n["states"] += 1
            t.n["traces_validated_against_impl"] += 1
            made.check(comp, {n: v[i % len(v)] for n, v in alts.items()
                              if n in req + opt + regs})
    _hints(t, tag, p, made, seen)


def _instances(m, g, p):
    """[(composite, instance)] of a graph, each instance once."""
    out = [(m.graph, g)]

    def walk(typ, v):
        if v is None:
            return
        kind = typ["type"]
        if kind in m.embeds:
            e = m.embeds[kind]
            out.append((e, v))
            for q in e.props:
                walk(q.type, getattr(v, q.name.lower()))
        elif kind == "array":
            for x in v:
                walk(typ["values"], x)
        elif kind == "map":
            for x in v.values():
                walk(typ["values"], x)

    for c in m.classes.values():
        for inst in getattr(g, c.plural.lower()).values():
            out.append((c, inst))
    for c, x in list(out):
        for q in c.props:
            walk(q.type, getattr(x, q.name.lower()))
    return out


# --- C++ --------------------------------------------------------------------

HEAD = r'''
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>
static bool fresh(bool x) { unsigned char c; std::memcpy(&c, &x, 1); return c == 0; }
static bool fresh(int64_t x) { return x == 0; }
static bool fresh(double x) { return x == 0.0; }
static bool fresh(const std::string& x) { return x.empty(); }
static bool fresh(const tm& x) {
  return !x.tm_sec && !x.tm_min && !x.tm_hour && !x.tm_mday && !x.tm_mon &&
    !x.tm_year && !x.tm_wday && !x.tm_yday && !x.tm_isdst; }
template<typename R, typename P>
static bool fresh(const std::chrono::duration<R, P>& x) { return x.count() == 0; }
template<typename C, typename D>
static bool fresh(const std::chrono::time_point<C, D>& x) { return x.time_since_epoch().count() == 0; }
template<typename T>
static auto fresh(const T& x) -> decltype(x.to_duration().count() == 0) { return x.to_duration().count() == 0; }
template<typename T>
static auto fresh(const T& x) -> decltype(x.root_directory(), x.empty()) { return x.empty(); }
template<typename T> static bool fresh(T* x) { return x == nullptr; }
template<typename T> static bool fresh(const std::vector<T>& x) { return x.empty(); }
template<typename K, typename T> static bool fresh(const std::map<K, T>& x) { return x.empty(); }
template<typename T> static auto fresh(const T& x) -> decltype(x.value(), !x) { return !x; }
template<typename T> struct Made {
  void* mem; T* p;
  explicit Made(int c) : mem(::operator new(sizeof(T))) { std::memset(mem, c, sizeof(T)); p = new (mem) T; }
  ~Made() { p->~T(); ::operator delete(mem); }
};
static void say(const char* where, bool good) { std::printf("%s %d\n", where, good ? 1 : 0); }
'''


def _probe(m, ns, tag, i):
    """C++ functions which look at default-initialized structures."""
    out = ["static void probe{}() {{ for (int c : {{0xAB, 0x01, 0xFF}}) {{"
           .format(i)]

    def fields(comp, expr, where):
        lines = []
        for q in comp.props:
            e = "{}.{}".format(expr, q.name.lower())
            w = "{} {}".format(where, q.name)
            if q.optional or q.type["type"] not in m.embeds:
                lines.append("say({}, fresh({}));".format(
                    drv_cpp.cstr(w), e))
            else:
                lines += fields(m.embeds[q.type["type"]], e, w)
        return lines

    for comp in m.composites():
        out.append("{{ Made<{}::{}> x(c);".format(ns, ref.ucamel(comp.name)))
        out += fields(comp, "(*x.p)", "{} {}".format(tag, comp.name))
        if comp.name in m.classes:
            out.append("say({}, fresh((*x.p).id));".format(
                drv_cpp.cstr("{} {} id".format(tag, comp.name))))
        if comp is m.graph:
            for c in m.classes.values():
                out.append("say({}, fresh((*x.p).{}));".format(
                    drv_cpp.cstr("{} {} {}".format(tag, comp.name, c.plural)),
                    c.plural.lower()))
        out.append("}")
    return "\n".join(out) + "}}\n"


def _cpp(args):
    group, n = args
    t = explore.Tally()
    d = core.scratch() / "fresh{}".format(n)
    d.mkdir()
    body, calls, boost = [HEAD], [], False
    for i, (tag, s) in enumerate(group):
        s = collections.OrderedDict(s)
        s["cpp"] = collections.OrderedDict(s["cpp"])
        s["cpp"]["namespace"] = "mc::s{}".format(i)
        err = drv_cpp._gen((tag, s, d / "s{}".format(i)))
        if err is not None:
            t.fail(tag, "load", err, None)
            continue
        t.n["schemas"] += 1
        boost = boost or s["cpp"]["path_as"].startswith("boost")
        m = ref.Model(s)
        body.append('#include "s{}/types.h"'.format(i))
        body.append(_probe(m, "mc::s{}".format(i), tag, i))
        calls.append("probe{}();".format(i))
    body.append("int main() {{ {} }}".format("\n".join(calls)))
    src = d / "main.cpp"
    src.write_text("\n".join(body))
    flags = [f for f in drv_cpp.flags() if "auto-var-init" not in f]
    exe = d / "main"
    rc, out = drv_cpp.cxx(
        [str(src), "-o", str(exe), "-fno-lifetime-dse", "-I" + str(d)] +
        flags + drv_cpp.include_flags() +
        (["-lboost_filesystem", "-lboost_system"] if boost else []))
    if rc != 0:
        if len(group) > 1:
            for j, one in enumerate(group):
                t.bad += _cpp(([one], "{}_{}".format(n, j))).bad
            if t.bad:
                return t
        t.fail(group[0][0], "compile", "; ".join(
            ln for ln in out.splitlines() if "error" in ln)[:600], None)
        return t
    import subprocess
    r = subprocess.run([str(exe)], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    if r.returncode != 0:
        t.fail(group[0][0], "default", "exit code {}: {}".format(
            r.returncode, r.stdout[-300:]), None)
        return t
    models = {tag: ref.Model(s) for tag, s in group}
    said = collections.OrderedDict()
    for line in r.stdout.decode("utf-8").splitlines():
        where, good = line.rsplit(" ", 1)
        said[where] = said.get(where, True) and good == "1"
        t.n["transitions"] += 1
    for where, good in said.items():
        t.n["states"] += 1
        t.n["traces_validated_against_impl"] += 1
        if not good:
            tag, comp, path = where.split(" ", 2)
            t.fail(tag, "default", "{}.{} is not determined in a new "
                   "structure".format(comp, path.replace(" ", ".")), None,
                   key="cpp-duration-uninitialized" if _duration(
                       models[tag], comp, path.split(" ")) else None)
    return t


def _duration(m, comp, path):
    comps = {c.name: c for c in m.composites()}
    here, typ = comps[comp], None
    for n in path:
        q = [q for q in here.props if q.name == n]
        if not q or q[0].optional:
            return False
        typ = q[0].type
        here = m.embeds.get(typ["type"])
    return typ["type"] == "duration"


def run(check):
    known = explore.known_keys(check)
    todo = [(t, s, 1) for t, s in items().items()]
    explore.merge(check, core.pmap(_py, todo))
    cpp = []
    for i, (t, s) in enumerate(corpus.all_schemas(core.THOROUGH).items()):
        for j, st in enumerate(SETTINGS):
            if core.THOROUGH or j == i * 5 % len(SETTINGS):
                cpp.append(("{}_{}".format(t, j),
                            corpus.with_settings(s, cpp=st)))
    size = 20
    tallies = core.pmap(_cpp, [(cpp[i::-(-len(cpp) // size)], i)
                               for i in range(-(-len(cpp) // size))])
    for t in tallies:
        listed = [b for b in t.bad if b[5] in known]
        t.bad = [b for b in t.bad if b[5] not in known]
        for b in listed:
            t.hits[b[5]] += 1
    explore.merge(check, tallies)
    check.assumptions.append(
        "hand-made instances have values of the documented types")
