"""A plain-data model of Recap types ("nodes"), independent of recap's own classes.

A node is a dict: {"k": kind, "logical", "alias", "doc", "x": extras, ...kind attributes}.
References are nodes of kind "ref" whose "alias" names the target.
"""
from __future__ import annotations

import copy

from recap import types as T

I63 = 9_223_372_036_854_775_807
G31 = 2_147_483_648


def node(k, logical=None, alias=None, doc=None, x=None, **attrs):
    return {"k": k, "logical": logical, "alias": alias, "doc": doc, "x": dict(x or {}), **attrs}


def null(**k):
    return node("null", **k)


def boolean(**k):
    return node("bool", **k)


def integer(bits, signed=True, **k):
    return node("int", bits=bits, signed=signed, **k)


def flt(bits, **k):
    return node("float", bits=bits, **k)


def string(bytes=None, variable=True, **k):
    return node("string", bytes=bytes, variable=variable, **k)


def byts(bytes=None, variable=True, **k):
    return node("bytes", bytes=bytes, variable=variable, **k)


def lst(values, length=None, variable=True, **k):
    return node("list", values=values, length=length, variable=variable, **k)


def mp(keys, values, **k):
    return node("map", keys=keys, values=values, **k)


def struct(fields, **k):
    return node("struct", fields=list(fields), **k)


def enum(symbols, **k):
    return node("enum", symbols=list(symbols), **k)


def union(types, **k):
    return node("union", types=list(types), **k)


def ref(alias, **k):
    return node("ref", alias=alias, **k)


# The documented built-in aliases, written down independently of recap/types.py.
BUILTINS = {
    **{f"int{b}": integer(b, True) for b in (8, 16, 32, 64)},
    **{f"uint{b}": integer(b, False) for b in (8, 16, 32, 64)},
    **{f"float{b}": flt(b) for b in (16, 32, 64)},
    "string32": string(G31),
    "string64": string(I63),
    "bytes32": byts(G31),
    "bytes64": byts(I63),
    "uuid": string(36, False, logical="build.recap.UUID"),
    "decimal128": byts(16, False, logical="build.recap.Decimal", x={"precision": 28, "scale": 14}),
    "decimal256": byts(32, False, logical="build.recap.Decimal", x={"precision": 56, "scale": 28}),
    "duration64": integer(64, logical="build.recap.Duration", x={"unit": "millisecond"}),
    "interval128": byts(16, False, logical="build.recap.Interval", x={"unit": "millisecond"}),
    "time32": integer(32, logical="build.recap.Time", x={"unit": "second"}),
    "time64": integer(64, logical="build.recap.Time", x={"unit": "second"}),
    "timestamp64": integer(64, logical="build.recap.Timestamp", x={"unit": "millisecond", "timezone": "UTC"}),
    "date32": integer(32, logical="build.recap.Date", x={"unit": "day"}),
    "date64": integer(64, logical="build.recap.Date", x={"unit": "day"}),
}

KIND_ATTRS = {
    "null": (),
    "bool": (),
    "int": ("bits", "signed"),
    "float": ("bits",),
    "string": ("bytes", "variable"),
    "bytes": ("bytes", "variable"),
    "list": ("length", "variable"),
    "map": (),
    "struct": (),
    "enum": ("symbols",),
    "union": (),
    "ref": (),
}
CHILD = {"list": ("values",), "map": ("keys", "values"), "struct": ("fields",), "union": ("types",)}


def children(n):
    for a in CHILD.get(n["k"], ()):
        v = n[a]
        if isinstance(v, list):
            yield from v
        else:
            yield v


def walk(n):
    yield n
    for c in children(n):
        yield from walk(c)


def map_children(n, f):
    if n["k"] == "rec":
        return n
    n = dict(n, x=dict(n["x"]))
    for a in CHILD.get(n["k"], ()):
        v = n[a]
        n[a] = [f(c) for c in v] if isinstance(v, list) else f(v)
    return n


class NotAType(Exception):
    pass


# Class -> kind. The classes are recap's public API.
KINDS = [
    (T.ProxyType, "ref"),
    (T.NullType, "null"),
    (T.BoolType, "bool"),
    (T.IntType, "int"),
    (T.FloatType, "float"),
    (T.StringType, "string"),
    (T.BytesType, "bytes"),
    (T.ListType, "list"),
    (T.MapType, "map"),
    (T.StructType, "struct"),
    (T.EnumType, "enum"),
    (T.UnionType, "union"),
]


def kind_of(t):
    for c, k in KINDS:
        if isinstance(t, c):
            return k
    raise NotAType(f"{t!r} is not a Recap type")


def snap(t):
    """RecapType -> node, references left as references."""
    k = kind_of(t)
    n = node(k, t.logical, t.alias, t.doc, copy.deepcopy(t.extra_attrs))
    if k == "int":
        n.update(bits=t.bits, signed=t.signed)
    elif k == "float":
        n.update(bits=t.bits)
    elif k in ("string", "bytes"):
        n.update(bytes=t.bytes_, variable=t.variable)
    elif k == "list":
        n.update(values=snap(t.values), length=t.length, variable=t.variable)
    elif k == "map":
        n.update(keys=snap(t.keys), values=snap(t.values))
    elif k == "struct":
        n.update(fields=[snap(f) for f in t.fields])
    elif k == "enum":
        n.update(symbols=list(t.symbols))
    elif k == "union":
        n.update(types=[snap(f) for f in t.types])
    return n


def snap_resolved(t, depth=8, seen=(), keep_alias=False):
    """RecapType -> node, with every reference replaced by what it resolves to. A
    reference met again while it is being expanded becomes {"k": "rec", "alias"}."""
    k = kind_of(t)
    if k == "ref":
        own = t.alias not in BUILTINS
        if t.alias in seen or own and depth <= 0:
            return {"k": "rec", "alias": t.alias}
        r = t.resolve()
        n = snap_resolved(r, depth - own, seen + (t.alias,), keep_alias)
        if n["k"] != "rec":
            n = dict(n)
            if keep_alias and t.alias not in BUILTINS:
                n["alias"] = t.alias
            if t.doc is not None and n.get("doc") is None:
                n["doc"] = t.doc
            if t.logical is not None:
                n["logical"] = t.logical
        return n
    if t.alias is not None and (t.alias in seen or depth <= 0):
        return {"k": "rec", "alias": t.alias}
    depth -= bool(t.alias)
    n = node(k, t.logical, t.alias, t.doc, copy.deepcopy(t.extra_attrs))
    seen2 = seen + ((t.alias,) if t.alias else ())
    f = lambda c: snap_resolved(c, depth, seen2, keep_alias)
    if k == "int":
        n.update(bits=t.bits, signed=t.signed)
    elif k == "float":
        n.update(bits=t.bits)
    elif k in ("string", "bytes"):
        n.update(bytes=t.bytes_, variable=t.variable)
    elif k == "list":
        n.update(values=f(t.values), length=t.length, variable=t.variable)
    elif k == "map":
        n.update(keys=f(t.keys), values=f(t.values))
    elif k == "struct":
        n.update(fields=[f(c) for c in t.fields])
    elif k == "enum":
        n.update(symbols=list(t.symbols))
    elif k == "union":
        n.update(types=[f(c) for c in t.types])
    return n


def bare(n):
    """What a registry keeps of a definition."""
    n = copy.deepcopy(n)
    n["alias"] = n["doc"] = None
    n["x"].pop("default", None)
    return n


def apply_ref(target, r):
    """What a reference with attributes denotes, given its (bare) target."""
    n = copy.deepcopy(target)
    n["alias"] = None
    n["doc"] = None
    n["x"].pop("default", None)
    for a, v in r["x"].items():
        if a in n and a not in ("k", "x"):
            n[a] = v
        else:
            n["x"][a] = v
    if r["doc"] is not None:
        n["doc"] = r["doc"]
    if r["logical"] is not None:
        n["logical"] = r["logical"]
    return n


def expand_builtins(n):
    if n["k"] == "ref" and n["alias"] in BUILTINS:
        return apply_ref(BUILTINS[n["alias"]], n)
    return map_children(n, expand_builtins)


def is_plain_null(n):
    return n["k"] == "null" and n["logical"] is None and n["doc"] is None and not n["x"] and n["alias"] is None


def normal(n):
    """Normal form for C01: built-ins expanded; in optional unions null comes first and a
    doc that only the single member has is on the union."""
    n = expand_builtins(n)

    def f(n):
        n = map_children(n, f)
        if n["k"] == "union" and "default" in n["x"]:
            nulls = [t for t in n["types"] if is_plain_null(t)]
            rest = [t for t in n["types"] if not is_plain_null(t)]
            if nulls:
                n["types"] = nulls[:1] + rest
                if len(rest) == 1 and n["doc"] is None and rest[0].get("doc") is not None:
                    n["doc"] = rest[0]["doc"]
                    n["types"] = nulls[:1] + [dict(rest[0], doc=None)]
        return n

    return f(n)


def same(a, b):
    """Equality that tells True from 1 and 1 from 1.0."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}/{k}: {'missing' if k not in b else 'unexpected'} ({a.get(k)!r} vs {b.get(k)!r})"
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} elements"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if same(a, b) else f"{path}: {a!r} vs {b!r}"


def build(n, registry=None):
    """node -> RecapType object, through the constructors. Aliased types are registered
    so that references resolve."""
    registry = registry if registry is not None else T.RecapTypeRegistry()
    kw = copy.deepcopy(n["x"])
    for a in ("logical", "doc"):
        if n[a] is not None:
            kw[a] = n[a]
    k = n["k"]
    if k == "ref":
        return T.ProxyType(n["alias"], registry, **kw)
    if n["alias"] is not None:
        kw["alias"] = n["alias"]
    f = lambda c: build(c, registry)
    if k == "null":
        t = T.NullType(**kw)
    elif k == "bool":
        t = T.BoolType(**kw)
    elif k == "int":
        t = T.IntType(n["bits"], n["signed"], **kw)
    elif k == "float":
        t = T.FloatType(n["bits"], **kw)
    elif k == "string":
        t = T.StringType(n["bytes"], n["variable"], **kw)
    elif k == "bytes":
        t = T.BytesType(n["bytes"], n["variable"], **kw)
    elif k == "list":
        t = T.ListType(f(n["values"]), n["length"], n["variable"], **kw)
    elif k == "map":
        t = T.MapType(f(n["keys"]), f(n["values"]), **kw)
    elif k == "struct":
        t = T.StructType([f(c) for c in n["fields"]], **kw)
    elif k == "enum":
        t = T.EnumType(list(n["symbols"]), **kw)
    elif k == "union":
        t = T.UnionType([f(c) for c in n["types"]], **kw)
    else:
        raise AssertionError(k)
    if n["alias"] is not None:
        registry.register_alias(t)
    return t


def definition(n, rng=None, noise=0.0):
    """node -> a definition (JSON-like data). With an rng, shorthand forms and explicit
    defaults are chosen at random."""
    k = n["k"]
    coin = lambda p=0.5: rng is not None and rng.random() < p
    d = {"type": n["alias"] if k == "ref" else k}
    if n["alias"] is not None and k != "ref":
        d["alias"] = n["alias"]
    elif k != "ref" and coin(noise):
        d["alias"] = None
    for a in ("logical", "doc"):
        if n[a] is not None or coin(noise):
            d[a] = n[a]
    d.update(copy.deepcopy(n["x"]))
    f = lambda c: definition(c, rng, noise)
    if k == "int":
        d["bits"] = n["bits"]
        if not n["signed"] or rng is None or coin():
            d["signed"] = n["signed"]
    elif k == "float":
        d["bits"] = n["bits"]
    elif k in ("string", "bytes"):
        if n["bytes"] is not None or rng is None or coin():
            d["bytes"] = n["bytes"]
        if not n["variable"] or rng is None or coin():
            d["variable"] = n["variable"]
    elif k == "list":
        d["values"] = f(n["values"])
        if n["length"] is not None or rng is None or coin():
            d["length"] = n["length"]
        if not n["variable"] or rng is None or coin():
            d["variable"] = n["variable"]
    elif k == "map":
        d["keys"], d["values"] = f(n["keys"]), f(n["values"])
    elif k == "struct":
        if n["fields"] or not coin():
            d["fields"] = [f(c) for c in n["fields"]]
    elif k == "enum":
        d["symbols"] = list(n["symbols"])
    elif k == "union":
        ts = [f(c) for c in n["types"]]
        if coin(0.3):
            d["type"] = ts
        else:
            d["types"] = ts
        if rng is not None and rng.random() < 0.5:
            o = optional_sugar(n, rng, noise)
            if o is not None:
                d = o
    if rng is not None:
        if coin(0.2):
            items = list(d.items())
            rng.shuffle(items)
            d = dict(items)
        if coin(noise * 0.5) and "optional" not in d:
            d["optional"] = False
        if len(d) == 1 and coin():
            return d["type"]
        if d["type"] == "union" and set(d) == {"type", "types"} and coin():
            return d["types"]
    return d


def optional_sugar(n, rng, noise):
    """The 'optional': true form of a union node, when it means exactly the same."""
    if n["k"] != "union" or "default" not in n["x"] or not n["types"] or not is_plain_null(n["types"][0]):
        return None
    rest = n["types"][1:]
    if any(is_plain_null(t) for t in rest) or not rest:
        return None
    if "name" in n["x"] and n["x"]["name"] is None:
        return None
    sub = {k: v for k, v in n["x"].items() if k not in ("name", "default")}
    outer = {}
    if "name" in n["x"]:
        outer["name"] = n["x"]["name"]
    if n["x"]["default"] is not None or rng.random() < 0.5:
        outer["default"] = n["x"]["default"]
    outer["optional"] = True
    if len(rest) == 1 and not sub and n["doc"] is None and n["logical"] is None and n["alias"] is None:
        m = rest[0]
        if m["k"] != "union" and not ({"default", "name", "optional"} & m["x"].keys()):
            d = definition(m, None)
            # shorthand inside is fine as well, but the member itself must be a dict
            return {**copy.deepcopy(d), **outer}
    d = {"type": "union", "types": [definition(t, rng, noise) for t in rest], **copy.deepcopy(sub)}
    for a in ("logical", "doc", "alias"):
        if n[a] is not None:
            d[a] = n[a]
    if rng.random() < 0.3:
        d["types"].insert(rng.choice([0, 0]), "null")
    return {**d, **outer}


# ---------------------------------------------------------------------------
# Reference reader of definitions


class Refused(Exception):
    pass


import re

FQN = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*(\.[a-zA-Z_][a-zA-Z0-9_]*)+")


def parse_ref(d, aliases=None):
    """definition -> node, or Refused. `aliases` collects the names defined so far."""
    aliases = aliases if aliases is not None else {}
    if isinstance(d, list):
        d = {"type": "union", "types": d}
    elif isinstance(d, str):
        d = {"type": d}
    elif not isinstance(d, dict):
        raise Refused("not a definition")
    d = dict(d)
    if d.get("type") is None:
        raise Refused("no type")
    if d.pop("optional", False):
        name = d.pop("name", None)
        default = d.pop("default", None)
        if d["type"] != "union":
            d = {"type": "union", "types": ["null", d]}
        if "types" not in d:
            raise Refused("union without types")
        if "null" not in d["types"]:
            d["types"] = ["null"] + d["types"]
        if name is not None:
            d["name"] = name
        d["default"] = default
    t = d.pop("type")
    if isinstance(t, list):
        d["types"] = t
        t = "union"
    if not isinstance(t, str):
        raise Refused("bad type")
    common = dict(logical=d.pop("logical", None), doc=d.pop("doc", None))
    if t in KIND_ATTRS and t != "ref":
        alias = d.pop("alias", None)

        def number(v, lo, hi):
            if isinstance(v, str) or isinstance(v, (list, dict)) or v is None:
                raise Refused("not a number")
            if v < lo or v > hi:
                raise Refused("out of range")
            return v

        if t in ("null", "bool"):
            n = node(t, alias=alias, x=d, **common)
        elif t in ("int", "float"):
            if "bits" not in d:
                raise Refused("no bits")
            bits = number(d.pop("bits"), 1, 2**31 - 1)
            n = integer(bits, d.pop("signed", True), alias=alias, **common) if t == "int" else flt(bits, alias=alias, **common)
            n["x"] = d
        elif t in ("string", "bytes"):
            b, v = d.pop("bytes", None), d.pop("variable", True)
            if not v and b is None:
                raise Refused("fixed without length")
            if b is not None:
                number(b, 1, I63)
            n = node(t, alias=alias, bytes=b, variable=v, x=d, **common)
        elif t == "list":
            if "values" not in d:
                raise Refused("no values")
            vs = parse_ref(d.pop("values"), aliases)
            b, v = d.pop("length", None), d.pop("variable", True)
            if not v and b is None:
                raise Refused("fixed without length")
            if b is not None:
                number(b, 1, I63)
            n = lst(vs, b, v, alias=alias, x=d, **common)
        elif t == "map":
            if "keys" not in d or "values" not in d:
                raise Refused("no keys/values")
            ks = parse_ref(d.pop("keys"), aliases)
            vs = parse_ref(d.pop("values"), aliases)
            n = mp(ks, vs, alias=alias, x=d, **common)
        elif t == "struct":
            n = struct([parse_ref(f, aliases) for f in d.pop("fields", [])], alias=alias, x=d, **common)
        elif t == "enum":
            if "symbols" not in d:
                raise Refused("no symbols")
            n = enum(d.pop("symbols"), alias=alias, x=d, **common)
        else:
            if "types" not in d:
                raise Refused("no types")
            n = union([parse_ref(f, aliases) for f in d.pop("types")], alias=alias, x=d, **common)
        if alias is not None:
            if alias in BUILTINS or alias in aliases:
                raise Refused("alias used")
            if not FQN.fullmatch(alias):
                raise Refused("alias not qualified")
            aliases[alias] = n
        return n
    if "alias" in d:
        raise Refused("alias on reference")
    return ref(t, x=d, **common)


def expand(n, defs, depth=8, seen=(), keep_alias=False):
    """The model's counterpart of snap_resolved(): references replaced by what they denote.
    `defs` maps alias -> definition node."""
    if n["k"] == "ref":
        a = n["alias"]
        own = a not in BUILTINS
        if a in seen or own and depth <= 0:
            return {"k": "rec", "alias": a}
        if a not in defs and a not in BUILTINS:
            raise Refused("dangling " + a)
        target = apply_ref(defs[a] if a in defs else BUILTINS[a], dict(n, doc=None, logical=None))
        m = expand(target, defs, depth - own, seen + (a,), keep_alias)
        if m["k"] != "rec":
            m = dict(m)
            if keep_alias and a not in BUILTINS:
                m["alias"] = a
            if n["doc"] is not None and m.get("doc") is None:
                m["doc"] = n["doc"]
            if n["logical"] is not None:
                m["logical"] = n["logical"]
        return m
    if n.get("alias") and (n["alias"] in seen or depth <= 0):
        return {"k": "rec", "alias": n["alias"]}
    seen2 = seen + ((n["alias"],) if n["alias"] else ())
    depth -= bool(n["alias"])
    return map_children(n, lambda c: expand(c, defs, depth, seen2, keep_alias))
