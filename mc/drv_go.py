"""Builds generated Go packages into one driver and runs documents."""
import collections
import json
import os
import pathlib
import shutil
import subprocess

from mc import core, ref, sut


Broken = sut.Broken


def env(gopath):
    cache = core.scratch() / "gocache"
    if not cache.exists():
        src = pathlib.Path("/opt/vp/cache/go-build")
        if src.exists():
            shutil.copytree(str(src), str(cache))
        else:
            cache.mkdir()
    e = dict(os.environ)
    for k in ("GOROOT", "GOENV"):
        e.pop(k, None)
    e.update(GO111MODULE="off", GOFLAGS="-trimpath", GOPROXY="off",
             GOSUMDB="off", GOTOOLCHAIN="local", GOTELEMETRY="off",
             GOPATH=str(gopath), GOCACHE=str(cache), TZ="UTC",
             GOTMPDIR=str(core.scratch()), CGO_ENABLED="0",
             HOME=str(core.scratch()), LC_ALL="C.UTF-8")
    return e


def _gen(args):
    tag, schema, outdir = args
    try:
        sut.generate("go", schema, outdir)
        return None
    except sut.GenerationFailed as e:
        return str(e)


class Bundle:
    """All the given schemas as packages of one Go program."""

    def __init__(self, schemas, subs=False):
        # subs: also drive the functions of single classes and embeds
        self.schemas = schemas
        self.subs = subs
        self.broken = collections.OrderedDict()
        self.gopath = core.new_dir("go")
        src = self.gopath / "src" / "mc"
        src.mkdir(parents=True)
        self.pkg = {tag: "p{}".format(i) for i, tag in enumerate(schemas)}
        self.models = {t: ref.Model(s) for t, s in schemas.items()}
        jobs = [(t, s, src / self.pkg[t]) for t, s in schemas.items()]
        for (t, _, _), err in zip(jobs, core.pmap(_gen, jobs, chunk=4)):
            if err is not None:
                self.broken[t] = err
            else:
                for p in (src / self.pkg[t]).glob("*_test.go"):
                    p.unlink()
        self.env = env(self.gopath)
        alive = [t for t in schemas if t not in self.broken]
        text = self._compile(["mc/" + self.pkg[t] for t in alive])
        if text:
            for t in alive:
                mine = [ln for ln in text.splitlines()
                        if "mc/{}/".format(self.pkg[t]) in ln or
                        ln.strip() == "# mc/" + self.pkg[t]]
                if mine:
                    self.broken[t] = "does not compile: " + "; ".join(
                        mine)[:600]
            if not self.broken:
                raise Broken(text[-2000:])
        alive = [t for t in schemas if t not in self.broken]
        (src / "main").mkdir()
        (src / "main" / "driver.go").write_text(
            (core.VERIF / "mc" / "go" / "driver.go.txt").read_text())
        (src / "main" / "packages.go").write_text(self._glue(alive))
        self.exe = self.gopath / "driver"
        r = subprocess.run(["go", "build", "-o", str(self.exe), "mc/main"],
                           env=self.env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True,
                           cwd=str(self.gopath))
        if r.returncode != 0:
            # An API that the driver cannot call is a defect of what was
            # generated; blame the packages that the compiler names.
            raise Broken(r.stdout[-3000:])

    @staticmethod
    def skip(_):
        """Whether a value can not be handed to this driver."""
        return False

    def _compile(self, pkgs):
        if not pkgs:
            return ""
        r = subprocess.run(["go", "build"] + pkgs, env=self.env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, cwd=str(self.gopath))
        return "" if r.returncode == 0 else r.stdout

    def _glue(self, alive):
        out = ["package main", "", "import ("]
        out += ['\t{0} "mc/{0}"'.format(self.pkg[t]) for t in alive]
        out += [")", "", "var packages = map[string]*pkg{"]
        for t in alive:
            p = self.pkg[t]
            g = ref.ucamel(self.models[t].name)
            out.append('''"{p}": {{
newGraph: func() interface{{}} {{ return &{p}.{g}{{}} }},
newErrors: func(n uint64) interface{{}} {{ return {p}.NewErrors(n) }},
parse: func(v interface{{}}, ref string, g interface{{}}, e interface{{}}) {{
{p}.{g}FromJSONable(v, ref, g.(*{p}.{g}), e.(*{p}.Errors)) }},
values: func(e interface{{}}) [][2]string {{
res := [][2]string{{}}
for _, v := range e.(*{p}.Errors).Values() {{
res = append(res, [2]string{{v.Ref, v.Message}}) }}
return res }},
state: func(e interface{{}}) (bool, bool) {{
return e.(*{p}.Errors).Full(), e.(*{p}.Errors).Empty() }},
add: func(e interface{{}}, ref, msg string) {{
e.(*{p}.Errors).Add(ref, msg) }},
ser: func(g interface{{}}) (interface{{}}, error) {{
return {p}.{g}ToJSONable(g.(*{p}.{g})) }},
{subs}}},'''.format(p=p, g=g, subs=self._subs(t) if self.subs else ""))
        out.append("}")
        return "\n".join(out) + "\n"

    def _subs(self, t):
        m, p = self.models[t], self.pkg[t]
        comps = [c for c in m.composites() if c.kind != "graph"]
        return "".join(
            "{}: map[string]interface{{}}{{\n{}}},\n".format(field, "".join(
                '"{}": {}.{}{},\n'.format(c.name, p, ref.ucamel(c.name),
                                          suffix) for c in comps))
            for field, suffix in (("subs", "FromJSONable"),
                                  ("sers", "ToJSONable")))

    def run(self, tag, requests, timeout=600):
        m = self.models[tag]
        meta = {"comps": {ref.ucamel(c.name): {
            "name": c.name,
            "props": [[p.name, ref.ucamel(p.name)] for p in c.props]}
            for c in m.composites()},
            "classes": [{"type": ref.ucamel(c.name), "name": c.name,
                         "registry": ref.ucamel(c.plural)}
                        for c in m.classes.values()]}
        data = json.dumps(meta) + "\n" + "".join(
            json.dumps(r, ensure_ascii=False) + "\n" for r in requests)
        r = subprocess.run([str(self.exe), self.pkg[tag]],
                           input=data.encode("utf-8"), env=self.env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
        if r.returncode != 0:
            raise Broken("driver died on {}: {}".format(
                tag, r.stderr.decode("utf-8", "replace")[-1500:]))
        out = [json.loads(ln) for ln in r.stdout.splitlines() if ln]
        if len(out) != len(requests):
            raise Broken("driver answered {} of {}".format(
                len(out), len(requests)))
        return out
