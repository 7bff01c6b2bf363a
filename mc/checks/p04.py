"""References among instances, in all the languages."""
from mc import core, corpus, explore


def run(check):
    plan = explore.Plan(links=True)
    schemas = corpus.topologies()
    schemas["deep_ref"] = corpus.structures()["deep_ref"]
    schemas["idpat"] = corpus.structures()["idpat"]
    schemas["plural"] = corpus.structures()["plural"]
    plan.add(schemas, 4 if core.THOROUGH else 2)
    explore.explore_py(check, plan, ["accept", "value", "rt"])
    explore.explore_compiled(check, "go", plan, ["accept", "value", "rt"])
    explore.explore_compiled(check, "cpp", plan, ["accept", "value", "rt"])
