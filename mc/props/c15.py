"""Merging and adding properties against an abstract model of objects."""
import core

ASSUMPTIONS = ["property names are only compared: three names stand for all"]


def check(tier, t0):
    return core.run_static("C15", tier, t0, ASSUMPTIONS)
