"""Every combination of document parts against the OpenAPI object it stands for."""
import core

ASSUMPTIONS = ["texts are opaque to the library (the enumerated texts include empty, quoted and keyword-like ones)",
               "lists longer than the enumerated ones behave as those"]


def check(tier, t0):
    return core.run_static("C20", tier, t0, ASSUMPTIONS)
