from mc import explore


def run(check):
    explore.explore_compiled(check, "go", explore.default_plan("go"), ["value", "rt"])
