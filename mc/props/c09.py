"""Verification against an independently computed set of dangling references."""
import core

ASSUMPTIONS = ["names and schemas beyond the enumerated depth behave as the enumerated ones (traversal is structural)"]


def check(tier, t0):
    return core.run_static("C09", tier, t0, ASSUMPTIONS)
