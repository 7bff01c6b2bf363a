"""A reference validator of schemas, written from the documentation.

``places`` gives the violated places of a schema as paths.  It shares no code
with mapry.
"""
import re

PRIMITIVE = {"boolean", "integer", "float", "string", "path", "date", "time",
             "datetime", "time_zone", "duration"}
AGGREGATED = {"array", "map"}
CAPITAL = re.compile(r"[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\Z")
PROPERTY = re.compile(r"[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\Z")
MAX_FLOAT = 2 ** 1024 - 2 ** 971
VERB = re.compile(r"[a-z][^\n]*\.\Z")
DATE = set("aAbBdemyYzZ%")
TIME = set("HIlMPpSzZ%")
PLURALS = {"criterion": "criteria", "minimum": "minima",
           "maximum": "maxima", "matrix": "matrices", "life": "lives",
           "focus": "foci"}


def plural(name):
    *head, last = name.split("_")
    if last.lower() in PLURALS and last[1:] == last[1:].lower():
        p = PLURALS[last.lower()]
        last = (p[0].upper() if last[0].isupper() else p[0]) + p[1:]
    elif re.search(r"[aeiou]y$", last):
        last += "s"
    elif last.endswith("y"):
        last = last[:-1] + "ies"
    elif last.endswith("x") or last.endswith("s"):
        last += "es"
    else:
        last += "s"
    return "_".join(head + [last])


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def is_str(v):
    return isinstance(v, str)


def is_bool(v):
    return isinstance(v, bool)


def match(rx):
    return lambda v: is_str(v) and rx.match(v) is not None


def one_of(*vals):
    return lambda v: is_str(v) and v in vals


INDENTION = match(re.compile(r"[ \t]*\Z"))
SETTINGS = {
    "cpp": ({"namespace": match(re.compile(
        r"[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*\Z")),
             "path_as": one_of("std::filesystem::path",
                               "boost::filesystem::path"),
             "optional_as": one_of("boost::optional", "std::optional",
                                   "std::experimental::optional"),
             "datetime_library": one_of("ctime", "date.h")},
            {"indention": INDENTION}),
    "go": ({"package": match(re.compile(r"[a-zA-Z][a-zA-Z0-9_]*\Z"))}, {}),
    "py": ({"module_name": match(re.compile(
        r"[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*\Z")),
            "path_as": one_of("str", "pathlib.Path"),
            "timezone_as": one_of("str", "pytz.timezone")},
           {"indention": INDENTION})}


def structure(s):
    """Places at which the structure of a schema is wrong."""
    if not isinstance(s, dict):
        return [()]
    res = obj(s, (), {"name": match(CAPITAL), "description": match(VERB)},
              {k: None for k in ("cpp", "go", "py", "classes", "embeds",
                                 "properties")})
    for lang, (must, may) in SETTINGS.items():
        if lang in s:
            res += obj(s[lang], (lang,), must, may)
    for what in ("classes", "embeds"):
        if what not in s:
            continue
        if not isinstance(s[what], list):
            res.append((what,))
            continue
        for i, c in enumerate(s[what]):
            at = (what, i)
            res += obj(c, at, {"name": match(CAPITAL),
                               "description": match(VERB)},
                       dict({"properties": None}, **(
                           {"plural": match(CAPITAL), "id_pattern": is_str}
                           if what == "classes" else {})))
            if isinstance(c, dict):
                res += props_structure(c, at)
    return res + props_structure(s, ())


def obj(v, at, must, may):
    if not isinstance(v, dict):
        return [at]
    res = []
    for k in must:
        if k not in v:
            res.append(at)
    for k, x in v.items():
        if k not in must and k not in may:
            res.append(at)
            continue
        ok = must.get(k) or may.get(k)
        if ok is not None and not ok(x):
            res.append(at + (k,))
    return res


def props_structure(owner, at):
    if "properties" not in owner:
        return []
    at += ("properties",)
    props = owner["properties"]
    if not isinstance(props, dict):
        return [at]
    res = []
    for name, p in props.items():
        if not isinstance(p, dict):
            res.append(at + (name,))
            continue
        for k, ok in (("description", is_str), ("type", is_str),
                      ("json", is_str), ("optional", is_bool)):
            if k in p:
                if not ok(p[k]):
                    res.append(at + (name, k))
            elif k in ("description", "type"):
                res.append(at + (name,))
    return res


def regex(p):
    try:
        re.compile(p)
        return True
    except Exception:  # pylint: disable=broad-except
        return False


def type_places(t, at, names, top, ordered):
    """The first violated place of a type definition, as a list."""
    if not isinstance(t, dict):
        return [at]
    keys = list(t)
    if top and ordered and keys[:2] != ["type", "description"]:
        return [at]
    if "type" not in t:
        return [at]
    kind = t["type"]
    if not is_str(kind) or kind not in PRIMITIVE | AGGREGATED | names:
        return [at]
    may = {"type": is_str, "description": is_str}
    if top:
        may.update({"json": is_str, "optional": is_bool})
    if kind in ("integer", "float"):
        num = is_int if kind == "integer" else is_num
        may.update({"minimum": num, "maximum": num,
                    "exclusive_minimum": is_bool,
                    "exclusive_maximum": is_bool})
    if kind in ("string", "path"):
        may["pattern"] = is_str
    if kind in ("date", "time", "datetime"):
        may["format"] = is_str
    size = (lambda v: is_int(v) and v >= 0)
    if kind == "array":
        may.update({"minimum_size": size, "maximum_size": size})
    if kind in AGGREGATED:
        may["values"] = lambda v: isinstance(v, dict)
        if "values" not in t:
            return [at]
    for k, v in t.items():
        if kind in names and not top and k == "description":
            continue
        if k not in may or not may[k](v):
            return [at]
    if kind == "float" and not all(
            abs(t[k]) <= MAX_FLOAT for k in ("minimum", "maximum") if k in t):
        return [at]
    if "minimum" in t and "maximum" in t:
        lo, hi = t["minimum"], t["maximum"]
        x = t.get("exclusive_minimum") or t.get("exclusive_maximum")
        if lo > hi or (x and lo == hi):
            return [at]
    if "pattern" in t and not regex(t["pattern"]):
        return [at]
    if "format" in t:
        allowed = {"date": DATE, "time": TIME,
                   "datetime": DATE | TIME}[kind]
        left = t["format"]
        if left == "" and kind != "datetime":
            return [at]
        while left:
            if left[0] != "%":
                left = left[1:]
                continue
            if len(left) < 2 or left[1] not in allowed:
                return [at]
            left = left[2:]
    if kind == "array" and t.get("minimum_size", 0) > t.get(
            "maximum_size", float("inf")):
        return [at]
    if kind in AGGREGATED:
        return type_places(t["values"], at, names, False, ordered)
    return []


def places(s, ordered):
    """Violated places, each a set of paths any of which may be reported."""
    res = structure(s)
    if res:
        return True, [{p} for p in res]
    res = []
    if ordered and list(s)[:2] != ["name", "description"]:
        keys = list(s)
        if keys[0] != "name":
            res.append({()})
        if keys[1] != "description":
            res.append({()})
    owners = [(s, ())]
    seen = {s["name"]}
    names = set()
    for what in ("classes", "embeds"):
        for i, c in enumerate(s.get(what, [])):
            if c["name"] in seen:
                res.append({(what, i)})
            seen.add(c["name"])
            names.add(c["name"])
            owners.append((c, (what, i)))
            if what == "classes":
                if "id_pattern" in c and not regex(c["id_pattern"]):
                    res.append({(what, i, "id_pattern")})
                if "id" in c.get("properties", {}):
                    res.append({(what, i, "id")})
    names.discard(s["name"])
    registries = {}
    for i, c in enumerate(s.get("classes", [])):
        p = c.get("plural", plural(c["name"])).lower()
        if p in registries and registries[p][0] != c["name"]:
            res.append({("classes", i), registries[p][1]})
        registries.setdefault(p, (c["name"], ("classes", i)))
    for owner, at in owners:
        used = {}
        for n, p in owner.get("properties", {}).items():
            place = at + (n,)
            if not PROPERTY.match(n):
                res.append({place})
            for x in type_places(p, place, names, True, ordered):
                res.append({x})
            j = p.get("json", n)
            if at == () and (j in registries or n in registries):
                res.append({place} | {registries[k][1] for k in (j, n)
                                      if k in registries})
            if j in used:
                res.append({place, used[j]})
            used.setdefault(j, place)
    return False, res
