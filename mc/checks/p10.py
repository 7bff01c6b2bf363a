from mc import explore


def run(check):
    explore.explore_compiled(check, "cpp", explore.default_plan("cpp"), ["value", "rt"])
