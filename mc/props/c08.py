"""The registry against an abstract first-wins registry, on its closed state graph."""
import core

ASSUMPTIONS = ["the behaviour of an operation depends only on the registry it is given (states are registries)",
               "names are only compared for equality; two or three conflicting contents per name stand for all"]


def check(tier, t0):
    return core.run_static("C08", tier, t0, ASSUMPTIONS)
