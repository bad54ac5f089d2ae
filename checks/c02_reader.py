"""C02: from_dict accepts exactly the well-formed definitions."""
import copy, itertools
from recap import types as T
from rv import model as M
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C02", "exploration"
RULE = ("seeded random definitions (shorthand chosen at random), half of them with one injected defect or boundary value at a random depth, plus an "
        "enumeration of every numeric attribute x boundary value x nesting position; accept/refuse and every attribute compared with an independent "
        "reference reader; non-trivial = distinct definition")
ASSUMPTIONS = ["references to names that are not defined are accepted by the reader and refused on resolution"]


def nodes_of(d, path=()):
    """Positions of sub-definitions that are dicts."""
    if isinstance(d, list):
        for i, x in enumerate(d):
            yield from nodes_of(x, path + (i,))
    elif isinstance(d, dict):
        yield path
        t = d.get("type")
        if isinstance(t, list):
            for i, x in enumerate(t):
                yield from nodes_of(x, path + ("type", i))
        for k in ("values", "keys"):
            if k in d and t in ("list", "map"):
                yield from nodes_of(d[k], path + (k,))
        for k, tt in (("fields", "struct"), ("types", "union")):
            if k in d and t == tt:
                for i, x in enumerate(d[k]):
                    yield from nodes_of(x, path + (k, i))


def at(d, path):
    for p in path:
        d = d[p]
    return d


def mutate(g, d):
    r = g.r
    paths = list(nodes_of(d))
    if not paths:
        return d
    n = at(d, r.choice(paths))
    t = n.get("type")
    c = r.randint(0, 9)
    if c == 0:
        keys = [k for k in ("type", "bits", "values", "keys", "symbols", "types", "fields", "bytes", "length") if k in n]
        if keys:
            n.pop(r.choice(keys))
    elif c == 1 and t in ("int", "float"):
        n["bits"] = r.choice([0, -1, 1, 2**31 - 1, 2**31, 2**31 + 1, r.choice(g.ints)])
    elif c in (1, 2) and t in ("string", "bytes"):
        n["bytes"] = r.choice([0, -1, 1, M.I63, M.I63 + 1, r.choice(g.ints)])
    elif c in (1, 2) and t == "list":
        n["length"] = r.choice([0, -1, 1, M.I63, M.I63 + 1, r.choice(g.ints)])
    elif c == 3 and t in ("string", "bytes", "list"):
        n["variable"] = False
        if g.coin():
            n.pop("bytes", None)
            n.pop("length", None)
    elif c == 4:
        n["alias"] = r.choice(["foo", "int32", "a.b", "a..b", ".a.b", "a.b.", "a.1b", "1a.b", "a b.c", "a.b\n", "é.b", "a-b.c", "_._", "A1.B2.C3", "uuid", "", "string", "build.recap.X"])
    elif c == 5:
        # reuse an alias of another node
        als = [at(d, p).get("alias") for p in paths]
        als = [a for a in als if a]
        n["alias"] = r.choice(als) if als else "dup.x"
        at(d, r.choice(paths)).setdefault("alias", n["alias"])
    elif c == 6:
        n["type"] = r.choice([None, 5, True, {}, [], "foo.bar", "int", "map", "list", "enum", "union", "struct", {"type": "int", "bits": 8}])
    elif c == 7:
        n["optional"] = r.choice([True, False])
    elif c == 8 and t in ("int", "float"):
        n["bits"] = r.choice(["32", None, [8]])
    else:
        n["signed" if t == "int" else "extra"] = g.coin()
    return d


# Inputs whose meaning the documentation leaves open; the monitor skips them.
def ambiguous(d):
    if isinstance(d, list):
        return any(ambiguous(x) for x in d)
    if not isinstance(d, dict):
        return False
    t = d.get("type")
    if isinstance(t, list) and ("types" in d or d.get("optional")):
        return True
    if d.get("optional") and t == "union":
        ts = d.get("types")
        if not isinstance(ts, list):
            return True
    if isinstance(t, dict) and not t:
        pass
    for k in ("values", "keys"):
        if k in d and ambiguous(d[k]):
            return True
    for k in ("fields", "types", "type"):
        if isinstance(d.get(k), list) and ambiguous(d[k]):
            return True
    # attributes of another kind of type are extra attributes; ones that hold structure are open
    for k in ("bits", "bytes", "length", "signed", "variable"):
        if k in d and isinstance(d[k], (list, dict)) :
            return k not in ("bits",)
    kinds = {"list": {"values"}, "map": {"keys", "values"}, "struct": {"fields"}, "enum": {"symbols"}, "union": {"types"}}
    if isinstance(t, str):
        own = kinds.get(t, set())
        for k in ("values", "keys", "fields", "types", "symbols"):
            if k in d and k not in own:
                return True
    if "optional" in d and not isinstance(d["optional"], bool):
        return True
    return False


def judge(ck, d, family):
    if ambiguous(d):
        ck.event("skipped: meaning left open")
        return
    ck.case(sample=d, family=family)
    try:
        want = M.parse_ref(copy.deepcopy(d))
        why = None
    except M.Refused as e:
        want, why = None, str(e)
    got = outcome(T.from_dict, copy.deepcopy(d))
    if want is None:
        ck.event("refusals expected")
        ck.event("refusal: " + why)
        ck.expect(not got.ok, "accepted a malformed definition", f"{why}: {d!r} -> {got}", d)
    else:
        ck.event("acceptances expected")
        if ck.expect(got.ok, "refused a well-formed definition", f"{got}: {d!r}", d):
            s = M.snap(got.value)
            ck.expect(M.same(want, s), "read as another type", f"{M.diff(want, s)}: {d!r}", d)


def positions(x):
    c = lambda: copy.deepcopy(x)
    yield c()
    yield [c()]
    yield {"type": ["null", c()]}
    yield {"type": "union", "types": ["null", c()], "default": None}
    yield {"type": "list", "values": c()}
    yield {"type": "map", "keys": "string32", "values": c()}
    yield {"type": "map", "keys": c(), "values": "int8"}
    yield {"type": "struct", "fields": ["bool", c()]}
    yield {"type": "struct", "fields": [{"type": "list", "values": {"type": "struct", "fields": [{"type": "map", "keys": "string", "values": [c()]}]}}]}
    if isinstance(c(), dict):
        yield {**c(), "optional": True}
        yield {**c(), "optional": True, "name": "n", "default": 7, "doc": "d"}


def enumeration(g):
    ints = [i for i in g.ints if i >= -1]
    for b in sorted(set([-1, 0, 1, 2, 2**31 - 2, 2**31 - 1, 2**31, 2**32, M.I63] + ints)):
        for t in ("int", "float"):
            yield {"type": t, "bits": b}
    for b in sorted(set([-1, 0, 1, 2, 2**31, M.I63 - 1, M.I63, M.I63 + 1, 2**64] + ints)):
        for v in ({}, {"variable": True}, {"variable": False}):
            yield {"type": "string", "bytes": b, **v}
            yield {"type": "bytes", "bytes": b, **v}
            yield {"type": "list", "values": "bool", "length": b, **v}
    for t in ("string", "bytes"):
        yield {"type": t, "variable": False}
        yield {"type": t, "variable": False, "bytes": None}
    yield {"type": "list", "values": "int8", "variable": False}
    yield from ({"type": t} for t in ("int", "float", "list", "map", "enum", "union", "struct", "null", "bool", "string", "bytes", "nope", "a.b"))
    yield from ({"type": "map", "keys": "int8"}, {"type": "map", "values": "int8"}, {"type": None}, {}, {"type": 3}, {"fields": []})
    for a in ("foo", "int32", "uuid", "a.b", "a..b", ".a", "a.", "a.1", "1.a", "a.b\n", "\na.b", "a.b c", "_._", "a-b.c", "é.a", "A.b.C9", "", "a.b.c.d.e", "x" * 60 + ".y"):
        for t in ({"type": "null"}, {"type": "bool"}, {"type": "int", "bits": 3}, {"type": "string"}, {"type": "list", "values": "null"}, {"type": "enum", "symbols": []},
                  {"type": "struct"}, {"type": "union", "types": []}, {"type": "map", "keys": "null", "values": "null"}, {"type": ["null"]}, {"type": "int32"}, {"type": "a.q"}):
            yield {**t, "alias": a}
    for b in M.BUILTINS:
        yield b
        yield {"type": b, "name": "f", "doc": "d", "default": 1}
        yield {"type": "int", "bits": 3, "alias": b}
    for two in itertools.product(({"type": "bool", "alias": "d.A"}, {"type": "int", "bits": 9, "alias": "d.A"}, {"type": "struct", "alias": "d.A"}, {"type": "enum", "symbols": ["x"], "alias": "d.B"}), repeat=2):
        yield {"type": "struct", "fields": [copy.deepcopy(x) for x in two]}
        yield {"type": "map", "keys": copy.deepcopy(two[0]), "values": copy.deepcopy(two[1])}
        yield [copy.deepcopy(x) for x in two]


def run(ck):
    g = Gen(ck.rng)
    ck.need("refusals expected", 500)
    ck.need("acceptances expected", 1000)
    for x in ck.share(enumeration(g)):
        for d in positions(x):
            judge(ck, d, "enumerated")
    for i in ck.loop(40000, 400000):
        n = g.node(depth=ck.rng.choice([0, 1, 2, 3, 4]))
        d = M.definition(n, ck.rng, noise=0.1)
        if i % 2:
            for _ in range(ck.rng.choice([1, 1, 2])):
                d = mutate(g, d)
        judge(ck, d, "mutated" if i % 2 else "well formed")
        if not i % 2 and not ambiguous(d):
            # shorthand and long form mean the same
            full = M.definition(n, None)
            a, b = outcome(T.from_dict, full), outcome(T.from_dict, d)
            if ck.expect(a.ok and b.ok, "shorthand refused", f"{a} / {b}: {d!r}", d):
                sa, sb = M.snap(a.value), M.snap(b.value)
                ck.expect(M.same(sa, sb), "shorthand differs from long form", f"{M.diff(sa, sb)}: {d!r} / {full!r}", d)
