#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text, the properties, findings and planted bugs."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXT = r"""# Model checking Rexagon/opg

## What kind of system this is

`opg` turns Rust types (a derive macro, `opg_derive`) and API descriptions (`describe_api!`,
`describe_type!`) into OpenAPI 3.0.3 documents (`opg::models`). There are no threads, no I/O and no crash
points. What varies is the *program* a user writes (types, attributes, macro bodies), the *history* of
operations on the component registry (`Components`) and the *values* of the public model types. So the spaces
explored are

* **programs**: every type declaration / macro body over a grammar up to a bound, compiled with the real
  derive and macros and run; (C01-C07, C10-C13, C16-C18, C21-C28)
* **histories**: the closed graph of registry states reachable under an operation set, on the real
  `Components` (so history length is unbounded, the vocabulary is bounded); (C07, C08, C10)
* **values**: every schema / document value up to a depth, through the real code; (C09, C14, C15, C19, C20)

The deciding step is always exhaustive enumeration of a stated bounded space, on the real code. Nothing is
sampled; `VERIF_SEED` is not used. Nothing inspects source text: a check sees only generated documents, JSON
written by serde, returned values, and (C21, C22, C25, C26) whether the compiler accepts a program. So refactorings of
the library are invisible to it, as long as the public interface stays. (C25 reads identifiers from the
library's source, only to choose the names it gives to the user's items: the verdict is on what the programs do.)

No hooks in /repo were needed (`hooks` in MANIFEST.json is empty).

## Machinery

| file | role |
|---|---|
| `mc/model.py` | the reference model: types (`Decl`, `Field`, `Variant`, built-ins, wrappers), the schema each denotes, the registry entries each causes, sample values for each; plus the renderer to Rust source |
| `mc/derive.py` | program spaces for the derive: palette of types, batching of many declarations per compiled program, the comparison of the generated document with the model and of serde's JSON with the generated document (`mc/validate.py`, an independent JSON validator for the OpenAPI schema subset) |
| `mc/shapes.py` | every struct and enum of small size (all tagging modes, all variant styles, up to 2 members and 2-3 variants) and marks (nullable, inline, annotations) at each of their sites; used by C11, C12, C13 |
| `mc/api.py` | the same for `describe_api!` bodies |
| `mc/core.py` | sharding into crates with a path dependency on /repo, parallel `rustc`, bisection of a compile failure down to the single program, replay files, evidence, known findings |
| `harness/rt` | Rust harnesses for histories and values: an abstract schema type `S` with its own interpretation, graph exploration |
| `mc/props/cNN.py` | one module per property: its space, its oracle |

Two oracles are used for each program. (a) The reference model predicts the complete document, compared
exactly. (b) The program serializes sample values of the type with serde, and every JSON value written must be
accepted by the schema actually generated; for C03/C04/C05 the key and tag names are compared with what serde
writes. (b) does not depend on the reference model at all and keeps the model honest: the model is bound to
the implementation by comparing every one of its traces (`traces_validated_against_impl` in the evidence is
the number of model states for which the real output was compared).

A compile failure of a program that should compile is itself a violation (of the property whose program it
is); it is bisected to the failing program, and re-tried against a program known to compile so that an
environment fault (exit 2) is not reported as a violation.

A violation writes `work/replay/<id>/…` (the Rust program or history, expected and actual) and prints
`VIOLATION property=<id> replay=<path>`.

## Properties

%(props)s

## Outside the claims

The following are read as outside the properties, because neither the documentation nor the shape of the code
promises them; the spaces leave them out.

* Plain `Serialize` with an integer `#[repr]`: opg documents the *numbers*, which is right with `serde_repr`
  (the documented use), and cannot be told apart from it by a derive.
* Recursion whose cycle passes through no shared component (everything `inline`): has no finite schema (C10
  requires at least one shared component).
* Raw identifiers (`r#type`) as path segments or parameter names in `describe_api!`: not accepted by the grammar.
* Generic types as unnamed path segments (`Vec<u8>`); `bearer_format` on Basic.
* `example_with` expressions outside the grammar subset that `syn` is built with here.
* User items which shadow the standard prelude (`Option`, `Vec`, `String`, `vec!`, ...), lower-case constants and
  unit structs (they turn any local binding of a macro into a pattern), and a renamed `opg` crate (C25).
* Expressions of `example_with` are evaluated inside the generated function and share its local names
  (`cx`, `properties`, `required`).
* Texts of operations in `describe_api!` are taken by reference (`&T`).
* `camelCase` on identifiers with a non-ASCII first letter: serde's own derive panics on them.

## Genuine defects found

Recorded in `known_findings.json`, keyed by the input that fails. Fixed (one `fix:` commit each): %(nfixed)d.

%(fixed)s

Recorded, not repaired (each would need a redesign, or contradict an existing test):

%(findings)s

## False alarms met and what was done

* C06: a generated wrapper used a named lifetime (`&'a T`) that some programs did not declare: fault of the
  generator, corrected.
* C03, C19, C20: first wordings were too strong (C19/C20 "empty collections are omitted" - lists of
  alternatives, enumeration values, `info`, `components` and `responses` stay); wording and oracle corrected.
* C04: camelCase with a non-ASCII first letter made serde itself panic; excluded from the space (see above).
* C21: some programs were predicted to be rejected which are meaningful (attributes in a second `#[opg]`
  group); expectation corrected.

## Planted bugs

`tools/seed.py` validates a planted bug in a scratch copy (builds, passes the stable tests, the demo passes
without and fails with it) and stores it under `seeded/`. Caught: exit 1 with this property's VIOLATION line.

%(seeded)s
"""

NOTES = {
"C01": ("every struct of up to 3 fields (named / tuple / newtype / transparent) over the palette (about 40 types: scalars, wrappers, containers, shared, inline, nullable and enum types), times up to 2-3 simultaneous attribute deviations per field and container (rename, skip*, default, tag, transparent, explicit types, inline, nullable, optional); size sweeps for field counts",
        "the complete predicted document; and every value serde writes for 1-4 sample values per type is validated against the generated schema"),
"C02": ("every enum of up to 3 variants x 5 representations x variant styles (unit, newtype of each palette type, tuple, struct, empty) x attribute deviations; serde_repr enums over all integer reprs, explicit, computed, negative and implicit discriminants",
        "the complete predicted document; every value serde writes is validated, and an alternative per serialized variant is demanded"),
"C03": ("every combination of presence-affecting attributes on up to 3 fields in five containers (struct and struct variants of each tagging); every combination of presence, explicit type, nullable, inline, annotations and rename on one field",
        "keys actually written by serde over all toggles of conditional skipping: documented = union of keys, required = intersection (minus optional)"),
"C04": ("all identifiers up to 4 (5 thorough) characters over an alphabet of letter cases, digit, underscore and non-ASCII letters, x all rename rules x rename forms x positions (field, variant, field of variant, container); raw identifiers; explicit renames over a vocabulary including renames onto itself, rule images and swapped neighbours; explicit names and tags from all words over an alphabet of blanks, punctuation and letters",
        "names serde writes for the same item"),
"C05": ("all assignments of skip attributes to up to 3-4 fields / 3 variants in every representation, hidden types having no schema at all",
        "complete document equals that of the program with the members deleted; serde's JSON is accepted"),
"C06": ("every built-in in every container to nesting 2 (3 thorough), array lengths 0..40, tuple arities, feature configurations (chrono, uuid on and off); mentions under all parameters (inline, nullable, annotations)",
        "table of JSON types and formats written from serde's data model; serde's JSON of samples is accepted; registry stays empty"),
"C07": ("closed state graph of the real registry under mentions of an interdependent family of types in every order; plus every palette type in every position; chains, fans and trees of types; types of all pairs of easily confused names in either order; mentions of wrapped types under all parameters",
        "each component equals the schema of its type alone; every $ref in the document resolves; verify_schemas agrees"),
"C08": ("closed state graph (breadth-first, real `Components` values as states) over mention / add / security operations with conflicting contents; all permutations of 4-5 non-conflicting operations; all pairs of type names from a set of words",
        "an abstract first-wins map, per transition"),
"C09": ("registries of up to 3 entries x schemas of nesting 4-5, every constructor at every position of a reference",
        "independently computed set of referred and registered names"),
"C10": ("every directed graph of up to 3 types up to isomorphism x edge kinds (Option<Box>, Vec, map, Box, Arc, tuple, nullable, inline...) x node kinds x starting type and order",
        "termination (a stack overflow or time limit is a violation), references resolve, components equal the model's and do not depend on the start"),
"C11": ("inline requests at container, variant, field (all subsets) x wrappers x kinds of inner types x containers, several mentions side by side; the request at each site of every small shape",
        "model's registry and embedded form"),
"C12": ("all types that can be null behind all wrappers to depth 3, all nullable placements, in every kind of position; closed mention histories; the mark at each site of every small shape",
        "null is accepted by the schema exactly when serde can write null or the user asked"),
"C13": ("all placements of up to 3 annotations (description, format, example, example_with) on container, variants, fields x kinds x types; texts with quotes, newlines, braces; doc comments; all annotations at each site of every small shape, also at hidden members",
        "predicted document; shared component compared with the unannotated one"),
"C14": ("all schema shapes of depth 2 x all subsets of parameters, repeated and combined application; the same handed on through wrappers and on built-in types",
        "abstract schema type with its own meaning of the parameters"),
"C15": ("all pairs of objects over the property vocabulary x required subsets (also names required but not declared, on one side) x additional schemas; sequences of additions and merges",
        "abstract disjoint union; target compared after refusal"),
"C16": ("paths of up to 3-4 segments over literals, types and named parameters; all method sets and orders; operation properties in every order; callbacks at all placements; size sweeps",
        "reference OpenAPI document"),
"C17": ("all parameter, body and response forms, property subsets and orders, all status codes 100..599, types over the palette",
        "reference OpenAPI document incl. components and reason phrases (IANA table)"),
"C18": ("all subsets and orders of sections, tags, servers, schemes; security requirement alternatives x combinations x roles",
        "reference OpenAPI document"),
"C19": ("every schema value of nesting 3 over all constructors with all option subsets; string vocabulary (numbers, booleans, null and dates as text, YAML markers, blanks, control and non-ASCII characters) at every text position; all lists of required names, enum values and alternatives up to length 4 with repeats",
        "abstract schema type printing OpenAPI JSON; injectivity over the whole space; YAML compared with JSON"),
"C20": ("every part of a document (info, tag, server, parameter, body, response, operation, path item, callback, security scheme, components) with all option subsets, and wholes built from them",
        "JSON a reader is entitled to, part by part; YAML compared with JSON"),
"C21": ("every opg attribute in every place with right and wrong values, duplicates, unknown names, pairs in all orders and groupings; undescribable types",
        "the compiler must reject / accept; accepted programs must yield the same document in each order"),
"C22": ("every generic parameter form x use (plain, container, skipped, phantom, associated) x instantiation, in all container kinds",
        "compiles without a schema bound for parameters not serialized, refuses for those serialized; document of substituted type"),
"C23": ("all schema expressions to nesting 3, all property subsets and orders, required markers, texts and expressions",
        "reference schema"),
"C24": ("all orders of up to 4 (5) fields, variants, elements, tags, servers, paths, parameters, codes, methods, schemes, with one member made optional, hidden or renamed; size sweeps to 100 (256) members; explicit numbers of repr enums in every order; every small shape with its marks; every palette type in every container",
        "bytes equal over 3 repetitions and 2 processes; order of the reference model"),
"C25": ("every kind of declaration x 26 places it can be written in; every identifier of the library's source (and a vocabulary) as the name of a user's type, member, variant, function, module, macro, constant, associated function, local variable; variants and members named like the standard prelude; every expression form at every expression position of `describe_api!`, 19 surroundings",
        "the compiler accepts the program under deny(warnings); the document equals that of the plain program"),
"C26": ("about 400 wrong entries x every position of both macro grammars (also within callbacks) x every place among valid entries, with and without trailing comma; the valid entries alone as a control",
        "the compiler reports an error for each wrong program (compiled together, then again without those already rejected, since errors come in phases; finally one by one), and accepts each control"),
"C27": ("the shared types of the palette implemented by hand (only the required methods; and with own copies of the defaults) in every container, type constructor to nesting 2, annotation, and all pairs; generic, recursive, mutually recursive implementations, trait objects; names computed at run time and names no Rust type can have",
        "the reference model's document of the derived type of the same name and schema"),
"C28": ("40 types of every kind, bare and with attributes that matter; at each of their sites each attribute of serde that does not concern serialization (joined, apart, in all three attribute styles) and about 60 foreign ones (all words of serde and opg under another name, odd shapes, doc, cfg, lints, tools); several texts for each textual attribute; all pairs of serde's at any two sites of seven types (thorough: of all, with foreign ones)",
        "the reference model, which does not know these attributes; values serde writes are accepted; functions the attributes name do not exist"),
}


def times(p):
    try:
        return json.load(open(os.path.join(V, "tools", "costs.json")))[p]
    except (OSError, KeyError):
        return None


def main():
    props = []
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l)
        sp, orc = NOTES[d["id"]]
        c = times(d["id"])
        props.append("### %s %s\n\n* enumerated: %s\n* oracle: %s%s\n" % (
            d["id"], d["title"], sp, orc,
            "\n* cost (8 cores): quick %s, thorough %s" % (c[0], c[1]) if c else ""))
    k = json.load(open(os.path.join(V, "known_findings.json")))
    seeded = ["| id | property | needs | caught |", "|---|---|---|---|"]
    try:
        status = json.load(open(os.path.join(V, "tools", "caught.json")))
    except OSError:
        status = {}
    sd = os.path.join(V, "seeded")
    for i in sorted(os.listdir(sd)):
        mt = json.load(open(os.path.join(sd, i, "meta.json")))
        seeded.append("| %s | %s | %s | %s |" % (i, mt["property"], mt["needs"].replace("|", "/"), status.get(i, "?")))
    open(os.path.join(V, "DESIGN.md"), "w").write(TEXT % dict(
        props="\n".join(props), nfixed=len(k["fixed"]), fixed="\n".join("* " + f for f in k["fixed"]),
        findings="\n".join("* %s `%s`: %s" % (f["property"], f["id"], f["what"]) for f in k["findings"]),
        seeded="\n".join(seeded)))


main()
