"""Every schema value up to a depth against the OpenAPI object it stands for."""
import core

ASSUMPTIONS = ["serialization is structural: deeper nestings behave as the enumerated ones",
               "texts are opaque to the library (the enumerated texts include empty, quoted and keyword-like ones)"]


def check(tier, t0):
    return core.run_static("C19", tier, t0, ASSUMPTIONS)
