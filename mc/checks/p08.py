import itertools
import json
import re

from mc import core, corpus, drv_cpp, explore

SETTINGS = [
    {"path_as": p, "optional_as": o, "datetime_library": d}
    for p, o, d in itertools.product(
        ["std::filesystem::path", "boost::filesystem::path"],
        ["std::optional", "std::experimental::optional", "boost::optional"],
        ["ctime", "date.h"])]


def standalone(check):
    """Every file compiles on its own: it includes all that it needs."""
    todo = dict(corpus.alone(core.THOROUGH))
    todo.update((t, s) for t, s in corpus.structures().items()
                if core.THOROUGH or t in (
                    "empty", "only_class", "only_opt", "idpat", "size_1_2",
                    "empty_embed", "deep_mix", "rec_embed_map"))
    items = []
    for i, (tag, s) in enumerate(todo.items()):
        for j, st in enumerate(SETTINGS):
            if core.THOROUGH or j == i * 5 % len(SETTINGS):
                items.append(("{}_{}".format(tag, j),
                              corpus.with_settings(s, cpp=st)))
    for (_, s), (tag, bad) in zip(items, core.pmap(
            drv_cpp.self_contained, items)):
        check.add(standalone=1)
        for what in bad:
            # only maps use strings in the header
            kinds = set(re.findall(r'"type": "([a-z_]+)"', json.dumps(s)))
            listed = (what == "cpp-header-string" and "map" in kinds and
                      not {"string", "path"} & kinds and not s.get("classes"))
            check.fail("{}: {}".format(tag, what), s,
                       key=what if listed else None)


def run(check):
    standalone(check)
    explore.explore_compiled(check, "cpp", explore.default_plan("cpp"), ["accept", "value"])
