from mc import explore


def run(check):
    explore.explore_py(check, explore.default_plan("py"), ["accept", "value"])
