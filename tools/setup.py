#!/usr/bin/env python3
"""Builds the dependencies of the checks once (each check can also do it by itself)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc"))
import core  # noqa: E402

case = core.Case("setup", "", "vsupport::observe::<u8>(o);")
core.build_and_run("setup", [case], prelude="", deps=("serde_repr",))
core.build_and_run("setup", [case], prelude="", deps=("serde_repr", "http", "chrono", "uuid"), tag="-all")
print("ready")
