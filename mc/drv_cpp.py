"""Builds generated C++ code into one driver and runs documents."""
import collections
import json
import os
import pathlib
import resource
import subprocess

from mc import core, ref, sut

Broken = sut.Broken
INC = core.VERIF / "mc" / "cpp"
# fill what is not initialized with a pattern, stop at undefined behaviour
SANITIZE = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
            "-ftrivial-auto-var-init=pattern"]
PCH = """#include "driver.h"
#include <cmath>
#include <cstdint>
#include <filesystem>
#include <iomanip>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <regex>
#include <stdexcept>
#include <utility>
"""


def flags(sanitize=False):
    return ["-std=c++17", "-O0", "-w", "-I" + str(INC)] + (
        SANITIZE if sanitize else ["-ftrivial-auto-var-init=zero"])


def include_flags():
    deps = core.REPO / "test_dependencies" / "cpp"
    return ["-I" + str(deps / "date-2.4.1" / "include"),
            "-I" + str(deps / "optional" / "include"),
            "-DUSE_OS_TZDB=1"]


def cxx(args, timeout=800):
    r = subprocess.run(["g++"] + args, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True,
                       timeout=timeout)
    return r.returncode, r.stdout


def cstr(text):
    out = ['"']
    for b in text.encode("utf-8"):
        out.append(chr(b) if 32 <= b < 127 and b not in (34, 92, 63)
                   else "\\%03o" % b)
    return "".join(out) + '"'


class Adapter:
    """Writes the C++ code between the driver and one generated graph."""

    def __init__(self, model, ns, name, subs=False):
        self.m = model
        self.subs = subs
        self.ns = ns
        self.name = name
        self.uid = 0
        self.lib = model.mapping["cpp"]["datetime_library"]

    def put(self, t, e):
        """Statements which append the value of the expression to ``o``."""
        kind = t["type"]
        self.uid += 1
        u = self.uid
        if kind in self.m.classes:
            cls = self.m.classes[kind]
            return ('{{ auto* p{u} = {e}; if (!p{u}) o += "null"; else {{ '
                    'o += "{{\\"ref\\":[\\"{k}\\","; mcd::quote(o, p{u}->id);'
                    ' o += "]"; auto i{u} = g.{r}.find(p{u}->id); '
                    'if (i{u} == g.{r}.end() || i{u}->second.get() != p{u}) '
                    'o += ",\\"foreign\\":true"; o += "}}"; }} }}').format(
                        u=u, e=e, k=kind, r=cls.plural.lower())
        if kind in self.m.embeds:
            return ('o += "{{\\"embed\\":"; put_{}(o, g, {}); o += "}}";'
                    .format(kind, e))
        if kind in ("array", "map"):
            key = "" if kind == "array" else (
                'mcd::quote(o, x{u}.first); o += ":";'.format(u=u))
            item = "x{}".format(u) + ("" if kind == "array" else ".second")
            return ('{{ o += "{{\\"{tag}\\":{a}"; bool f{u} = true; '
                    'for (const auto& x{u} : {e}) {{ if (!f{u}) o += ","; '
                    'f{u} = false; {key} {inner} }} o += "{b}}}"; }}').format(
                        tag="list" if kind == "array" else "map", u=u, e=e,
                        a="[" if kind == "array" else "{",
                        b="]" if kind == "array" else "}", key=key,
                        inner=self.put(t["values"], item))
        if kind == "path":
            return ('o += "{{\\"path\\":"; mcd::quote(o, ({}).string()); '
                    'o += "}}";'.format(e))
        if kind == "time_zone":
            if self.lib == "ctime":
                return ('o += "{{\\"tz\\":"; mcd::quote(o, {}); o += "}}";'
                        .format(e))
            return ('o += "{{\\"tz\\":"; mcd::quote(o, ({})->name()); '
                    'o += "}}";'.format(e))
        if kind in ("date", "datetime", "time") and self.lib == "date.h":
            if kind == "date":
                return ('{{ const date::year_month_day d({e}); mcd::fields(o,'
                        ' int(d.year()), unsigned(d.month()), '
                        'unsigned(d.day()), 0, 0, 0); }}').format(e=e)
            if kind == "datetime":
                return ('{{ const auto v = {e}; const auto f = '
                        'date::floor<date::days>(v); '
                        'const date::year_month_day d(f); '
                        'const auto s = std::chrono::duration_cast<'
                        'std::chrono::seconds>(v - f).count(); '
                        'mcd::fields(o, int(d.year()), unsigned(d.month()), '
                        'unsigned(d.day()), s / 3600, s / 60 % 60, s % 60); }}'
                        ).format(e=e)
            return ('{{ const auto v = {e}; const auto s = '
                    'std::chrono::duration_cast<std::chrono::seconds>('
                    'v.to_duration()).count(); mcd::fields(o, 1970, 1, 1, '
                    's / 3600, s / 60 % 60, s % 60); }}').format(e=e)
        return "mcd::put(o, {});".format(e)

    def comp(self, comp):
        out = ['inline void put_{}(std::string& o, const {}& g, const {}& x)'
               ' {{'.format(comp.name, ref.ucamel(self.m.name),
                            ref.ucamel(comp.name)), 'o += "{";']
        for i, p in enumerate(comp.props):
            e = "x." + p.name.lower()
            out.append("o += {};".format(
                cstr(("," if i else "") + json.dumps(p.name) + ":")))
            if p.optional:
                out.append('if (!{e}) o += "null"; else {{ {inner} }}'.format(
                    e=e, inner=self.put(p.type, "(*{})".format(e))))
            else:
                out.append(self.put(p.type, e))
        out.append('o += "}"; }')
        return "\n".join(out)

    def sub(self):
        """Code which calls the functions of classes and embeds."""
        out = ['''  void sub(const std::string& cls, const Json::Value& value,
           const std::string& ref, size_t cap, std::string& o) override {''']
        for c in self.m.composites():
            if c.kind == "graph":
                continue
            out.append('''if (cls == "{name}") {{
  {typ} x;
  parse::Errors e(cap);
  std::string thrown;
  struct Any {{
    const Json::Value& v; const std::string& r; {typ}* x; parse::Errors* e;
    const {graph}& g;
    operator const Json::Value&() const {{ return v; }}
    operator const std::string&() const {{ return r; }}
    operator {typ}*() const {{ return x; }}
    operator parse::Errors*() const {{ return e; }}
    {regs}
  }} any{{value, ref, &x, &e, g}};
  try {{
    mcd::call(&jsoncpp::{var}_from, any);
  }} catch (const std::exception& y) {{
    thrown = std::string("exception: ") + y.what();
  }}
  o += "\\"errors\\":[";
  bool first = true;
  for (const auto& y : e.get()) {{
    if (!first) o += ',';
    first = false;
    mcd::quote(o, y.ref);
  }}
  o += "]";
  if (!thrown.empty()) {{
    o += ",\\"panic\\":";
    mcd::quote(o, thrown);
  }} else if (e.empty()) {{
    o += ",\\"val\\":";
    put_{name}(o, g, x);
    std::string json;
    try {{
      mcd::write(json, jsoncpp::serialize_{var}(x));
      o += ",\\"json\\":" + json;
    }} catch (const std::exception& y) {{
      o += ",\\"serpanic\\":";
      mcd::quote(o, std::string("exception: ") + y.what());
    }}
  }}
  return;
}}'''.format(name=c.name, typ=ref.ucamel(c.name), var=c.name.lower(),
              graph=ref.ucamel(self.m.name), regs="\n".join(
                  "operator const std::map<std::string, std::unique_ptr<{}>>&"
                  "() const {{ return g.{}; }}".format(
                      ref.ucamel(d.name), d.plural.lower())
                  for d in self.m.classes.values())))
        out.append("}")
        return "\n".join(out)

    def text(self):
        m = self.m
        var, typ = m.name.lower(), ref.ucamel(m.name)
        out = ["namespace {} {{ namespace mcdrv {{".format(self.ns)]
        embeds = list(m.embeds.values())
        for c in embeds:
            out.append("void put_{}(std::string&, const {}&, const {}&);"
                       .format(c.name, typ, ref.ucamel(c.name)))
        for c in m.composites():
            out.append(self.comp(c))
        regs, misid = [], []
        for i, c in enumerate(m.classes.values()):
            regs.append(
                'o += {k}; {{ bool f = true; for (const auto& kv : g.{r}) {{ '
                'if (!f) o += ","; f = false; mcd::quote(o, kv.first); '
                'if (!kv.second) {{ o += ":null"; continue; }} '
                'o += ":{{\\"id\\":"; mcd::quote(o, kv.second->id); '
                'o += ",\\"props\\":"; put_{n}(o, g, *kv.second); o += "}}"; '
                '}} }} o += "}}";'.format(
                    k=cstr(("," if i else "") + json.dumps(c.name) + ":{"),
                    r=c.plural.lower(), n=c.name))
            misid.append('if (cls == "{n}") g.{r}.at(id)->id = to;'.format(
                n=c.name, r=c.plural.lower()))
        out.append('''struct S : public mcd::Sut {{
  {typ} g;
  void parse(const Json::Value& doc, const std::string& ref, size_t cap,
             std::vector<mcd::Trace>* errs, std::string* thrown) override {{
    parse::Errors e(cap);
    try {{
      jsoncpp::{var}_from(doc, ref, &g, &e);
    }} catch (const std::exception& x) {{
      *thrown = std::string("exception: ") + x.what();
    }}
    for (const auto& x : e.get()) errs->push_back({{x.ref, x.message}});
  }}
  void dump(std::string& o) override {{
    o += "{{\\"props\\":";
    put_{name}(o, g, g);
    o += ",\\"reg\\":{{";
    {regs}
    o += "}}}}";
  }}
  Json::Value serialize() override {{
    return jsoncpp::serialize_{var}(g);
  }}
  void misid(const std::string& cls, const std::string& id,
             const std::string& to) override {{ {misid} }}
  std::string errors(const Json::Value& args) override {{
    return mcd::trace_errors<parse::Errors>(args); }}
{sub}
}};
static mcd::Reg reg_("{pkg}", []() -> mcd::Sut* {{ return new S(); }});
}} }}'''.format(typ=typ, var=var, name=m.name, regs="\n".join(regs),
                misid=" ".join(misid), pkg=self.name,
                sub=self.sub() if self.subs else ""))
        return "\n".join(out) + "\n"


def _gen(args):
    tag, schema, outdir = args
    try:
        sut.generate("cpp", schema, outdir)
        return None
    except sut.GenerationFailed as e:
        return str(e)


def _compile(args):
    src, obj, extra = args
    return cxx(["-c", str(src), "-o", str(obj)] + extra)


class Bundle:
    """All the given schemas linked into one program."""

    def __init__(self, schemas, group=7, keep=False, subs=False,
                 sanitize=False):
        # keep: use the namespaces of the schemas, which have to differ
        self.sanitize = sanitize
        self.dir = core.new_dir("cpp")
        self.broken = collections.OrderedDict()
        self.pkg = {t: "m{}".format(i) for i, t in enumerate(schemas)}
        self.models = {}
        jobs = []
        libs = set()
        for t, s in schemas.items():
            s = collections.OrderedDict(s)
            s["cpp"] = collections.OrderedDict(s["cpp"])
            if not keep:
                s["cpp"]["namespace"] = "mc::" + self.pkg[t]
            libs.add(s["cpp"]["datetime_library"])
            libs.add(s["cpp"]["path_as"])
            self.models[t] = ref.Model(s)
            jobs.append((t, s, self.dir / self.pkg[t]))
        for (t, _, _), err in zip(jobs, core.pmap(_gen, jobs, chunk=4)):
            if err is not None:
                self.broken[t] = err
        alive = [t for t in schemas if t not in self.broken]
        for t in alive:
            d = self.dir / self.pkg[t]
            (d / "all.cpp").write_text(
                '#include "parse.cpp"\n#include "jsoncpp.cpp"\n' +
                Adapter(self.models[t], schemas[t]["cpp"]["namespace"] if keep
                        else "mc::" + self.pkg[t], self.pkg[t],
                        subs).text())
        pch = self.dir / "pch"
        pch.mkdir()
        (pch / "all.h").write_text(PCH)
        extra = flags(sanitize)
        if "date.h" in libs:
            extra += include_flags()
        rc, out = cxx(["-x", "c++-header", str(pch / "all.h"), "-o",
                       str(pch / "all.h.gch")] + extra)
        if rc != 0:
            raise Broken(out[-3000:])
        extra += ["-include", str(pch / "all.h")]
        objs = []
        todo = []
        groups = [alive[i::max(1, -(-len(alive) // group))]
                  for i in range(max(1, -(-len(alive) // group)))]
        for i, g in enumerate(groups):
            src = self.dir / "u{}.cpp".format(i)
            src.write_text("".join('#include "{}/all.cpp"\n'.format(
                self.pkg[t]) for t in g))
            todo.append((src, self.dir / "u{}.o".format(i), extra))
        main = self.dir / "main.cpp"
        main.write_text((INC / "main.cpp.txt").read_text())
        todo.append((main, self.dir / "main.o", extra))
        for (src, obj, _), g, (rc, out) in zip(
                todo, groups + [None], core.pmap(_compile, todo)):
            if rc == 0:
                objs.append(str(obj))
                continue
            if g is None:
                raise Broken(out[-3000:])
            # Single out the schemas whose code does not compile.
            single = [(self.dir / self.pkg[t] / "all.cpp",
                       self.dir / (self.pkg[t] + ".o"), extra) for t in g]
            for t, (_, o1, _), (rc1, out1) in zip(
                    g, single, core.pmap(_compile, single)):
                if rc1 == 0:
                    objs.append(str(o1))
                else:
                    self.broken[t] = "does not compile: " + "; ".join(
                        ln for ln in out1.splitlines()
                        if "error" in ln)[:600]
        self.exe = self.dir / "driver"
        link = []
        if "date.h" in libs:
            tz = core.REPO / "test_dependencies/cpp/date-2.4.1/src/tz.cpp"
            rc, out = cxx(["-c", str(tz), "-o", str(self.dir / "tz.o"), "-w",
                           "-std=c++17", "-O0"] + include_flags())
            if rc != 0:
                raise Broken(out[-3000:])
            link += [str(self.dir / "tz.o"), "-lpthread"]
        if "boost::filesystem::path" in libs:
            link += ["-lboost_filesystem", "-lboost_system"]
        rc, out = cxx(objs + link + ["-o", str(self.exe)] + flags(sanitize))
        if rc != 0:
            raise Broken(out[-3000:])

    @staticmethod
    def skip(_):
        """Whether a value can not be handed to this driver."""
        return False

    def run(self, tag, requests, timeout=600, memory=4 << 30):
        def limit():
            if not self.sanitize:  # which reserves terabytes
                resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

        data = "".join(json.dumps(r, ensure_ascii=False) + "\n"
                       for r in requests)
        e = dict(os.environ)
        e.update(TZ="UTC", LC_ALL="C.UTF-8")
        if self.sanitize:
            e.update(MALLOC_PERTURB_="165", ASAN_OPTIONS=(
                "detect_leaks=0:max_malloc_fill_size=1000000:"
                "malloc_fill_byte=165:allocator_may_return_null=0:"
                "detect_stack_use_after_return=1"),
                UBSAN_OPTIONS="print_stacktrace=1")
        r = subprocess.run([str(self.exe), self.pkg[tag]],
                           input=data.encode("utf-8"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=limit)
        if r.returncode != 0:
            raise Broken("driver died on {} ({}): {}".format(
                tag, r.returncode,
                r.stderr.decode("utf-8", "replace")[-1500:]))
        out = [json.loads(ln) for ln in r.stdout.split(b"\n") if ln]
        if len(out) != len(requests):
            raise Broken("driver answered {} of {}".format(
                len(out), len(requests)))
        return out


def self_contained(args):
    """Compile the generated files each on its own, with no other include."""
    tag, schema = args
    out = core.scratch() / "alone{}".format(os.getpid()) / tag.replace(
        "::", "_")
    err = _gen((tag, schema, out))
    if err is not None:
        return tag, [err]
    bad = []
    for name in ("types.h", "parse.h", "jsoncpp.h", "parse.cpp",
                 "jsoncpp.cpp"):
        if name == "types.h" or name.endswith(".cpp"):
            rc, text = cxx(["-fsyntax-only", "-x", "c++", str(out / name)] +
                           flags() + include_flags())
            if rc != 0 and name == "types.h" and "std::map" in (
                    out / name).read_text() and cxx([
                        "-fsyntax-only", "-include", "string", "-x", "c++",
                        str(out / name)] + flags() + include_flags())[0] == 0:
                bad.append("cpp-header-string")
            elif rc != 0:
                bad.append("{} alone does not compile: {}".format(
                    name, "; ".join(ln for ln in text.splitlines()
                                    if "error" in ln)[:400]))
    return tag, bad
