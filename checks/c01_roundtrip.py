"""C01: to_dict / clean_dict / from_dict round trips."""
import copy, json
from recap import types as T
from rv import model as M
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C01", "exploration"
RULE = ("seeded random Recap types (depth<=4; boundary and source-mined sizes, names, docs, defaults, aliases, references, unions) built through the "
        "constructors and through from_dict, serialised with all 4 option combinations, passed through JSON, read back and compared attribute by attribute "
        "by an independent model; non-trivial = distinct type whose comparison was evaluated")
ASSUMPTIONS = ["extra attribute names do not clash with reserved attribute names", "attribute values are JSON values"]


def via_json(d):
    return json.loads(json.dumps(d))


def run(ck):
    g = Gen(ck.rng)
    ck.need("monitor evaluations", 2000)
    ck.need("aliased types", 50)
    ck.need("definitions in full", 1000)
    ck.need("optional unions", 50)
    for i in ck.loop(5000, 40000):
        n = g.node(depth=ck.rng.choice([1, 2, 2, 3, 3, 4]))
        check_node(ck, g, n)
    # the systematic part: every kind x attribute combination at every position
    for n in ck.share(systematic()):
        for m in positions(n):
            check_node(ck, g, m, family="systematic")


OWN = {"int": {"bits", "signed"}, "float": {"bits"}, "string": {"bytes", "variable"}, "bytes": {"bytes", "variable"}, "list": {"values", "length", "variable"}, "map": {"keys", "values"}, "struct": {"fields"}, "enum": {"symbols"}, "union": {"types"}}


def systematic():
    base = [M.null(), M.boolean(), M.integer(32), M.integer(32, False), M.integer(7), M.flt(64), M.flt(33), M.string(), M.string(10), M.string(36, False),
            M.byts(), M.byts(16, False), M.byts(M.I63), M.enum(["A", "B"]), M.lst(M.integer(8)), M.lst(M.string(), 3, False), M.lst(M.null(), 3),
            M.mp(M.string(M.G31), M.integer(64)), M.struct([]), M.struct([M.integer(32, x={"name": "f"})]), M.union([M.null(), M.integer(32)]),
            M.union([M.null(), M.integer(32)], x={"default": None}), M.union([M.integer(32), M.null(), M.string()], x={"default": 1}),
            M.union([M.null(), M.union([M.null(), M.integer(8)], x={"default": 2})], x={"default": None}), M.union([]), M.union([M.null()], x={"default": None}),
            M.ref("int32"), M.ref("uuid"), M.ref("decimal128")] + [copy.deepcopy(b) for b in M.BUILTINS.values()]
    decos = [{}, {"doc": "d"}, {"alias": "a.B"}, {"logical": "l.L"}, {"x": {"name": "n"}}, {"x": {"default": 5}}, {"x": {"default": None}}, {"x": {"unit": "u", "k": [1]}},
             {"doc": "d", "alias": "a.B", "logical": "l.L", "x": {"name": "n", "default": "v", "k": 0}}, {"doc": "", "x": {"name": ""}}]
    # attributes that mean something on another kind of type
    inner = {"type": "int", "bits": 32, "signed": True}
    decos += [{"x": {"values": inner}}, {"x": {"keys": inner, "values": {"type": "string", "bytes": None}}}, {"x": {"types": [inner, "null"]}}, {"x": {"types": ["null"]}}, {"x": {"fields": [inner]}}, {"x": {"fields": []}},
              {"x": {"symbols": []}}, {"x": {"bits": 32}}, {"x": {"length": None}}, {"x": {"variable": True}}, {"x": {"signed": True}}, {"x": {"bytes": None}}]
    for b in base:
        for d in decos:
            if b["k"] == "ref" and ("alias" in d or "logical" in d):
                continue
            if OWN.get(b["k"], set()) & d.get("x", {}).keys() or b["k"] == "ref" and d.get("x", {}).keys() & set().union(*OWN.values()):
                continue
            n = copy.deepcopy(b)
            for a, v in d.items():
                if a == "x":
                    n["x"].update(copy.deepcopy(v))
                else:
                    n[a] = v
            yield n


def positions(n):
    c = lambda: copy.deepcopy(n)
    yield c()
    yield M.struct([M.boolean(x={"name": "z"}), c()])
    yield M.lst(c())
    yield M.mp(M.string(), c())
    if not M.is_plain_null(n):
        yield M.union([M.null(), c()], x={"default": None, "name": "u"})
        yield M.lst(M.union([M.null(), c()], x={"default": None}))
        yield M.union([M.null(), c()], doc="outer", x={"default": 3})
    yield M.union([c(), M.boolean()])
    yield M.struct([M.struct([M.struct([c()], alias="q.R", x={"name": "y"})], x={"name": "w"})], alias="q.S")


def check_node(ck, g, n, family="random"):
    ck.case(sample=n, family=family)
    if any(m["alias"] and m["k"] != "ref" for m in M.walk(n)):
        ck.event("aliased types")
    if any(m["k"] == "union" and "default" in m["x"] for m in M.walk(n)):
        ck.event("optional unions")
    want = M.normal(n)
    t = M.build(copy.deepcopy(n))
    ck.expect(M.same(M.snap(t), n), "construct", M.diff(n, M.snap(t)), n)
    for clean in (True, False):
        for alias in (True, False):
            o = outcome(T.to_dict, t, clean=clean, alias=alias)
            if not ck.expect(o.ok, "serialise raised", f"to_dict(clean={clean}, alias={alias}): {o}", n):
                continue
            d = o.value
            j = outcome(via_json, d)
            if not ck.expect(j.ok, "not JSON", f"{j}: {d!r}", n):
                continue
            o = outcome(T.from_dict, j.value)
            if not ck.expect(o.ok, "unreadable", f"from_dict(to_dict(clean={clean}, alias={alias})) {o}: {d!r}", n):
                continue
            got = M.normal(M.snap(o.value))
            ck.expect(M.same(want, got), "round trip", f"clean={clean} alias={alias}: {M.diff(want, got)}; serialised as {d!r}", n)
            if not alias:
                # without alias substitution, concrete types must stay concrete
                raw = o.value
                ck.expect(ref_names(M.snap(raw)) == ref_names(n), "alias option", f"alias=False, references {ref_names(M.snap(raw))} vs {ref_names(n)}", n)
            if clean:
                ck.expect(not has_noise(d), "not clean", f"clean=True left defaults in {d!r}", n)
            else:
                why = not_full(d, n)
                ck.expect(why is None, "not full", f"clean=False returned {why!r} in {d!r}", n)
                ck.event("definitions in full")
    ck.expect(M.same(M.snap(t), n), "serialising modified the type", M.diff(n, M.snap(t)), n)
    # cleaning an arbitrary (partly shorthand) definition keeps its meaning
    d = M.definition(n, ck.rng, noise=0.15)
    o1 = outcome(T.from_dict, copy.deepcopy(d))
    if ck.expect(o1.ok, "definition refused", f"{o1}: {d!r}", n):
        o2 = outcome(T.clean_dict, copy.deepcopy(d))
        if ck.expect(o2.ok, "clean raised", f"{o2}: {d!r}", d):
            o3 = outcome(T.from_dict, via_json(o2.value))
            if ck.expect(o3.ok, "cleaned definition refused", f"{o3}: {d!r} -> {o2.value!r}", d):
                a, b = M.normal(M.snap(o1.value)), M.normal(M.snap(o3.value))
                ck.expect(M.same(a, b), "cleaning changed the meaning", f"{M.diff(a, b)}: {d!r} -> {o2.value!r}", d)
                o4 = outcome(T.clean_dict, copy.deepcopy(o2.value))
                if ck.expect(o4.ok, "cleaned definition can't be cleaned", f"{o4}: {o2.value!r}", d):
                    o5 = outcome(T.from_dict, via_json(o4.value))
                    if ck.expect(o5.ok, "cleaned twice refused", f"{o5}: {o4.value!r}", d):
                        c = M.normal(M.snap(o5.value))
                        ck.expect(M.same(a, c), "cleaning twice changed the meaning", f"{M.diff(a, c)}: {d!r}", d)
        # and round trip of the parsed type
        o = outcome(lambda: T.from_dict(via_json(T.to_dict(o1.value))))
        if ck.expect(o.ok, "parsed type round trip raised", f"{o}: {d!r}", d):
            a, b = M.normal(M.snap(o1.value)), M.normal(M.snap(o.value))
            ck.expect(M.same(a, b), "round trip of parsed type", f"{M.diff(a, b)}: {d!r}", d)


def not_full(d, n):
    """The first part of a definition written without cleaning that isn't written in full."""
    if not isinstance(d, dict):
        return d
    if n["k"] == "ref" or d.get("type") not in OWN.keys() | {"null", "bool"}:
        return None  # a reference, or replaced by a built-in alias
    if not {"type", "alias", "logical", "doc"} | OWN.get(n["k"], set()) <= d.keys():
        return d
    parts = {"list": ["values"], "map": ["keys", "values"]}.get(n["k"], [])
    nested = [(d[p], n[p]) for p in parts]
    for p in {"struct": ["fields"], "union": ["types"]}.get(n["k"], []):
        if len(d[p]) != len(n[p]):
            return d
        nested += list(zip(d[p], n[p]))
    return next((w for a, b in nested if (w := not_full(a, b)) is not None), None)


def ref_names(n):
    return sorted(m["alias"] for m in M.walk(n) if m["k"] == "ref")


DEFAULTS = {"alias": None, "doc": None, "logical": None}


def has_noise(d):
    """A cleaned definition spells out no default of a standard attribute."""
    if isinstance(d, list):
        return any(has_noise(x) for x in d)
    if not isinstance(d, dict):
        return False
    for k, v in DEFAULTS.items():
        if k in d and d[k] is v:
            return True
    t = d.get("type")
    if t in ("string", "bytes", "list") and d.get("variable") is True:
        return True
    if t == "int" and d.get("signed") is True:
        return True
    if t in ("string", "bytes") and "bytes" in d and d["bytes"] is None:
        return True
    if t == "list" and "length" in d and d["length"] is None:
        return True
    kids = []
    if t in ("list", "map"):
        kids.append(d.get("values"))
    if t == "map":
        kids.append(d.get("keys"))
    if t == "struct":
        kids += d.get("fields", [])
    if t == "union":
        kids += d.get("types", [])
    return any(has_noise(k) for k in kids)
