"""Context parameters against an abstract model of schemas."""
import core

ASSUMPTIONS = ["parameter texts are opaque to the library: two distinct texts stand for all"]


def check(tier, t0):
    return core.run_static("C14", tier, t0, ASSUMPTIONS)
