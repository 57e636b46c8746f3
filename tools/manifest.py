#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "explicit-state enumeration of programs, each run on the real derive/runtime and compared with a reference model"
T = {
    "C01": (GEN + "; values serde writes are validated against the schema", "all structs up to 3 fields over the type palette and up to 2-3 simultaneous attribute deviations"),
    "C02": (GEN + "; values serde writes are validated against the schema", "all enums up to 3 variants in five tagging modes, variant styles and contents, attribute deviations"),
    "C03": (GEN + "; oracle: key sets serde writes", "all field attribute combinations up to 3 fields in five containers"),
    "C04": (GEN + "; oracle: names serde writes", "all identifier shapes up to a length x rename rules x rename forms x positions"),
    "C05": (GEN, "all skip assignments up to 3-4 fields and 3 variants"),
    "C06": (GEN + ", in several feature configurations", "all built-in types in all containers to nesting depth 2-3"),
    "C07": ("closed state graph of the real registry under all mention histories, plus program enumeration against a reference model", "history length unbounded over the operation set"),
    "C08": ("closed state graph of the real registry explored breadth-first against an abstract first-wins registry", "history length unbounded over the operation set; all permutations of up to 4-5 operations"),
    "C09": ("exhaustive enumeration of registries against an independent dangling-reference oracle", "3 entries, nesting 4-5"),
    "C10": (GEN + " over all type graphs", "all digraphs up to 3 types x edge kinds x starting points"),
    "C11": (GEN, "all placements of inline requests x wrappers x kinds of types and containers"),
    "C12": (GEN + "; oracle: acceptance of null against what serde writes", "all positions, wrappers and nullable placements, closed mention histories"),
    "C13": (GEN, "all placements of up to 3 annotations on containers, variants and fields"),
    "C14": ("exhaustive enumeration of schemas x parameter sets against an abstract model", "all schema shapes of depth 2 x all parameter subsets, repeated application"),
    "C15": ("exhaustive enumeration of operation sequences on objects against an abstract model", "all pairs of objects over 3 property names, sequences of additions and merges"),
    "C16": ("explicit-state enumeration of API-macro programs run on the real macro against a reference document", "all path shapes, method sets, operation properties and callback placements up to the stated bounds"),
    "C17": ("explicit-state enumeration of API-macro programs run on the real macro against a reference document", "all parameter, body and response forms and their combinations up to the stated bounds"),
    "C18": ("explicit-state enumeration of API-macro programs run on the real macro against a reference document", "all section orders and subsets, tags, servers, security schemes and requirements up to the stated bounds"),
    "C19": ("exhaustive enumeration of schema values against an abstract model", "nesting 3, all option subsets"),
    "C20": ("exhaustive enumeration of document values against an abstract model", "all combinations of operation, path and document parts"),
    "C21": ("exhaustive enumeration of attribute x place programs, acceptance decided by the real compiler", "all attributes x places, pairs, orders and groupings"),
    "C22": (GEN + "; bounds decided by the real compiler", "all generic parameter forms x uses x instantiations"),
    "C23": ("explicit-state enumeration of schema-macro programs run on the real macro against a reference schema", "all schema expressions to nesting depth 3, all property subsets and orders"),
    "C24": (GEN + "; every document built repeatedly in one process and in a second one", "all orders of up to 4-5 members, sizes up to 100-256"),
    "C25": (GEN + "; acceptance under deny(warnings) decided by the real compiler", "all places x kinds of declarations, every identifier of the library's source as a name of the user's, all expression positions"),
    "C26": ("exhaustive enumeration of wrong macro entries x positions, rejection decided by the real compiler", "a vocabulary of wrong entries at every position of the grammar, at every place among valid entries"),
    "C27": (GEN, "the palette of types described by hand x containers x type constructors x annotations, all pairs"),
    "C28": (GEN, "every kind of type x sites x attributes without effect on serialization x placements, all pairs"),
}


def main():
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "mc", "props")) if f.startswith("c") and f.endswith(".py"))
    checks = []
    for p in have:
        tech, note = T[p]
        checks.append({"property": p, "quick_cmd": "python3 mc/check.py %s quick" % p,
                       "thorough_cmd": "python3 mc/check.py %s thorough" % p,
                       "technique": "bounded exhaustive model checking: " + tech, "level": "model_checking",
                       "level_note": "bounds: %s; larger inputs are not covered" % note})
    na = [{"property": p, "reason": "the check is not built yet"} for p in sorted(T) if p not in have]
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
