"""Loads generated Python packages and drives them."""
import collections
import datetime
import importlib
import itertools
import pathlib
import sys

from mc import core, ref, sut

_count = itertools.count()


Broken = sut.Broken
# use the module names of the schemas instead of made-up ones
KEEP = False


class Package:
    def __init__(self, schema, tag="", probe=True, module=None):
        self.model = ref.Model(schema)
        settings = schema["py"]
        n = next(_count)
        self.module_name = "mc{}_{}_{}".format(
            _pid(), n, "".join(ch for ch in tag if ch.isalnum() or ch == "_"))
        s = collections.OrderedDict(schema)
        s["py"] = collections.OrderedDict(settings)
        if module is None and KEEP:
            module = settings["module_name"]
        if module is not None:
            self.module_name = module
        s["py"]["module_name"] = self.module_name
        base = core.scratch() / "py{}".format(_pid())
        if module is not None:
            base = base / "own{}".format(n)
        base.mkdir(parents=True, exist_ok=True)
        self.base = base
        self.own = module is not None
        if str(base) not in sys.path:
            sys.path.insert(0, str(base))
        self.dir = base.joinpath(*self.module_name.split("."))
        try:
            sut.generate("py", s, self.dir)
        except sut.GenerationFailed as e:
            raise Broken(str(e))
        if not probe:
            return
        importlib.invalidate_caches()
        try:
            self.types = importlib.import_module(self.module_name)
            self.parse = importlib.import_module(self.module_name + ".parse")
            self.fromj = importlib.import_module(
                self.module_name + ".fromjsonable")
            self.toj = importlib.import_module(
                self.module_name + ".tojsonable")
            var = self.model.name.lower()
            self.from_ = getattr(self.fromj, var + "_from")
            self.serialize = getattr(self.toj, "serialize_" + var)
        except BaseException as e:  # pylint: disable=broad-except
            self.unload()
            raise Broken("generated Python code does not load: {}: {}".format(
                type(e).__name__, e))

    def errors(self, cap=10**6):
        return self.parse.Errors(cap=cap)

    # dumping
    def dump(self, graph):
        out = {"props": self._props(self.model.graph, graph), "reg": {}}
        self.instances = {}
        for cls in self.model.classes.values():
            reg = getattr(graph, cls.plural.lower())
            out["reg"][cls.name] = collections.OrderedDict()
            self.instances[cls.name] = reg
        for cls in self.model.classes.values():
            for id_, inst in self.instances[cls.name].items():
                want = getattr(self.types, ref.ucamel(cls.name))
                if type(inst) is not want:
                    raise TypeError("{!r} is not a {}".format(inst, want))
                out["reg"][cls.name][id_] = {
                    "id": inst.id, "props": self._props(cls, inst)}
        for cls in self.model.classes.values():
            out["reg"][cls.name] = out["reg"][cls.name]
        out["props"] = self._props(self.model.graph, graph)
        return out

    def _props(self, comp, obj):
        if not hasattr(self, "instances"):
            self.instances = {}
        return collections.OrderedDict(
            (p.name, self._value(p.type, getattr(obj, p.name.lower())))
            for p in comp.props)

    def _value(self, t, v):
        if v is None:
            return None
        kind = t["type"]
        if kind in self.model.classes:
            reg = self.instances.get(kind)
            if reg is None:
                return {"ref": [kind, v.id]}
            if v.id not in reg or reg[v.id] is not v:
                return {"ref": [kind, v.id], "foreign": True}
            return {"ref": [kind, v.id]}
        if kind in self.model.embeds:
            want = getattr(self.types, ref.ucamel(kind))
            if type(v) is not want:
                raise TypeError("{!r} is not a {}".format(v, want))
            return {"embed": self._props(self.model.embeds[kind], v)}
        if kind == "array":
            if not isinstance(v, list):
                raise TypeError("{!r} is not a list".format(v))
            return {"list": [self._value(t["values"], x) for x in v]}
        if kind == "map":
            if not isinstance(v, dict):
                raise TypeError("{!r} is not a dict".format(v))
            return {"map": collections.OrderedDict(
                (k, self._value(t["values"], x)) for k, x in v.items())}
        if kind == "path":
            if self.model.mapping["py"]["path_as"] == "pathlib.Path":
                if not isinstance(v, pathlib.Path):
                    raise TypeError("{!r} is not a pathlib.Path".format(v))
                return {"path": str(v)}
            return {"path": v}
        if kind == "datetime":
            return {"datetime": {"Y": v.year, "m": v.month, "d": v.day,
                                 "H": v.hour, "M": v.minute, "S": v.second}}
        if kind == "date":
            if isinstance(v, datetime.datetime):
                raise TypeError("{!r} is not a date".format(v))
            return {"date": {"Y": v.year, "m": v.month, "d": v.day}}
        if kind == "time":
            return {"time": {"H": v.hour, "M": v.minute, "S": v.second}}
        if kind == "time_zone":
            if self.model.mapping["py"]["timezone_as"] == "str":
                return {"tz": v}
            return {"tz": v.zone}
        if kind == "duration":
            return {"ns": ((v.days * 86400 + v.seconds) * 10**6 +
                           v.microseconds) * 1000}
        return v

    def unload(self):
        root = self.module_name
        if self.own:
            root = root.split(".")[0]
            sys.path.remove(str(self.base))
        for name in list(sys.modules):
            if name == root or name.startswith(root + "."):
                del sys.modules[name]


def _pid():
    import os
    return os.getpid()
