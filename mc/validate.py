"""Does a schema (with its components) accept a JSON value?

Closed-world reading: an object key that the schema does not name is only accepted
under `additionalProperties`; `oneOf` needs at least one alternative (tuples repeat
alternatives, so exactly-one would be meaningless); `allOf` of objects is read on the
union of their keys."""

PREFIX = "#/components/schemas/"


class Dangling(Exception):
    pass


def alternatives(s, comps, seen=()):
    """Flat schemas (no $ref / oneOf / allOf on top) whose union is s."""
    if "$ref" in s:
        n = s["$ref"]
        if not n.startswith(PREFIX) or n[len(PREFIX):] not in comps:
            raise Dangling(n)
        n = n[len(PREFIX):]
        if n in seen:
            return []
        return alternatives(comps[n], comps, seen + (n,))
    for k in ("oneOf", "anyOf"):
        if k in s:
            return [a for x in s[k] for a in alternatives(x, comps, seen)]
    if "allOf" in s:
        acc = [None]
        for x in s["allOf"]:
            acc = [merge(a, b) for a in acc for b in alternatives(x, comps, seen)]
        return [a or {} for a in acc]
    return [s]


def merge(a, b):
    if a is None:
        return b
    if not a or not b:
        # anything goes, so keys the other side does not name are fine as well
        r = a or b
        return dict(r, additionalProperties=r.get("additionalProperties", {})) if r.get("type") == "object" else r
    if a.get("type") != b.get("type"):
        return {"never": True}
    out = dict(a)
    if a.get("type") == "object":
        out["properties"] = dict(a.get("properties", {}), **b.get("properties", {}))
        out["required"] = list(a.get("required", [])) + list(b.get("required", []))
        if "additionalProperties" in b:
            out["additionalProperties"] = b["additionalProperties"]
    out["nullable"] = a.get("nullable", False) and b.get("nullable", False)
    return out


def accepts(s, v, comps):
    return any(flat(a, v, comps) for a in alternatives(s, comps))


def flat(s, v, comps):
    if s.get("never"):
        return False
    if v is None:
        return not s or bool(s.get("nullable"))
    t = s.get("type")
    if t is None:
        return not s or set(s) <= {"description"}
    if t == "string":
        if s.get("format") == "null" and s.get("nullable"):
            return False
        return isinstance(v, str) and ("enum" not in s or v in s["enum"])
    if t == "boolean":
        return isinstance(v, bool)
    if t == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "array":
        return isinstance(v, list) and all(accepts(s["items"], x, comps) for x in v)
    if t == "object":
        if not isinstance(v, dict):
            return False
        props = s.get("properties", {})
        for k in s.get("required", []):
            if k not in v:
                return False
        for k, x in v.items():
            if k in props:
                if not accepts(props[k], x, comps):
                    return False
            elif "additionalProperties" in s:
                if not accepts(s["additionalProperties"], x, comps):
                    return False
            else:
                return False
        return True
    return False


def refs(s):
    """All $ref targets in a JSON document, skipping nothing."""
    if isinstance(s, dict):
        for k, v in s.items():
            if k == "$ref" and isinstance(v, str):
                yield v
            else:
                yield from refs(v)
    elif isinstance(s, list):
        for x in s:
            yield from refs(x)
