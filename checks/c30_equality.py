"""C30: equality of types."""
import copy
from recap import types as T
from recap.converters.json_schema import JSONSchemaConverter
from rv import model as M
from rv.core import outcome
from rv.gen import Gen, UNITS

PID, LEVEL = "C30", "exploration"
RULE = ("seeded random types of depth <=4, each built twice in different registries (equal), and against versions with one attribute changed at one place of any depth (kinds, sizes, signedness, "
        "lengths, order and number of members, symbols, docs, aliases, logical types, extra attributes, defaults, targets of references); compared in both directions with == and !=, before and after "
        "resolving references and writing the types; non-trivial = distinct pair")
ASSUMPTIONS = ["attribute values that Python itself considers equal (1, 1.0 and True) are equal"]


def leaf_pool(g):
    return g.r.choice([M.null(), M.boolean(), M.integer(7), M.flt(7), M.string(7), M.byts(7), M.enum(["q"]), M.struct([]), M.union([]), M.lst(M.null()), M.mp(M.null(), M.null()), M.ref("zz.Other"), M.ref("int32")])


def other(g, v):
    """A value that isn't equal to `v`."""
    for _ in range(20):
        w = g.r.choice([g.json(), g.word(), "", None, 0, 1, -1, [v], {"v": v}, [], {}])
        try:
            if w != v:
                return w
        except RecursionError:
            pass
    return ["other", v]


def changes(g, n):
    """Names of the changes that can be made at node `n` -> function that makes it (in place)."""
    out = {}

    def put(a, v):
        def f():
            n[a] = v
        return f

    k = n["k"]
    out["doc"] = put("doc", g.r.choice([d for d in (None, "", "d", (n["doc"] or "") + " ", (n["doc"] or "x").upper()) if d != n["doc"]]))
    out["logical"] = put("logical", g.r.choice([d for d in (None, "build.recap.Date", (n["logical"] or "x") + "x") if d != n["logical"]]))
    if k == "ref":
        out["target"] = put("alias", g.r.choice([a for a in ("int32", "uint32", "a.b", n["alias"] + "x", n["alias"].upper()) if a != n["alias"]]))
    else:
        out["alias"] = put("alias", g.fresh_alias() if n["alias"] is None or g.coin() else None)
        out["kind"] = lambda: (lambda m: (n.clear(), n.update(m)))(dict(g.r.choice([m for m in [leaf_pool(g) for _ in range(30)] if m["k"] != k]), x=dict(n["x"]), doc=n["doc"], logical=n["logical"]))
    # extra attributes
    new = next(a for a in (g.r.choice(["default", "name", "unit", "timezone", "zzz", "precision"]) for _ in range(99)) if a not in n["x"]) if len(n["x"]) < 5 else "brand_new"
    val = g.r.choice([None, 0, "", g.json()])
    out["extra attribute added"] = lambda: n["x"].update({new: val})
    if n["x"]:
        old = g.r.choice(sorted(n["x"]))
        out["extra attribute removed"] = lambda: n["x"].pop(old)
        out["extra attribute changed"] = lambda: n["x"].update({old: other(g, n["x"][old])})
    if k in ("int", "float"):
        out["bits"] = put("bits", n["bits"] + 1 if g.coin() or n["bits"] == 1 else n["bits"] - 1)
    if k == "int":
        out["signed"] = put("signed", not n["signed"])
    if k in ("string", "bytes"):
        out["bytes"] = put("bytes", g.r.choice([b for b in (None, 1, (n["bytes"] or 5) + 1) if b != n["bytes"]]))
        out["variable"] = put("variable", not n["variable"])
    if k == "list":
        out["length"] = put("length", g.r.choice([b for b in (None, 1, (n["length"] or 5) + 1) if b != n["length"]]))
        out["variable"] = put("variable", not n["variable"])
    if k == "map" and not equal(n["keys"], n["values"]):
        out["keys and values exchanged"] = lambda: n.update(keys=n["values"], values=n["keys"])
    for a in ("fields", "types", "symbols"):
        if a not in n:
            continue
        seq = n[a]
        out[f"{a} longer"] = lambda seq=seq, a=a: seq.insert(g.r.randint(0, len(seq)), "brand new symbol" if a == "symbols" else M.boolean(x={"name": "brand_new"}))
        if seq:
            out[f"{a} shorter"] = lambda seq=seq: seq.pop(g.r.randrange(len(seq)))
            if g.coin():
                out[f"{a} without the last"] = lambda seq=seq: seq.pop()
        pairs = [i for i in range(len(seq) - 1) if not equal(seq[i], seq[i + 1])]
        if pairs:
            i = g.r.choice(pairs)
            out[f"{a} in another order"] = lambda seq=seq, i=i: seq.insert(i, seq.pop(i + 1))
        if a == "symbols" and seq:
            i = g.r.randrange(len(seq))
            out["symbol renamed"] = lambda seq=seq, i=i: seq.__setitem__(i, seq[i] + "_" if g.coin() else seq[i].swapcase() if seq[i].swapcase() != seq[i] else seq[i] + "x")
    return out


def equal(a, b):
    """The oracle: same plain data."""
    return a == b


def compare(ck, a, b, want, kind, w):
    for x, y in ((a, b), (b, a)):
        e, d = outcome(lambda: x == y), outcome(lambda: x != y)
        if not ck.expect(e.ok and d.ok, "comparison raised", f"{kind}: {e} {d}", w):
            return
        ck.event("comparisons")
        ck.expect(e.value is want, "unequal" if want else "equal", f"{kind}: == says {e.value}", w)
        ck.expect(d.value is (not want), "!= contradicts ==", f"{kind}: != says {d.value}", w)


def disturb(t, depth=4):
    """Reading accesses that mustn't matter for equality."""
    for f in (t.is_nullable, t.validate, lambda: T.to_dict(t), lambda: JSONSchemaConverter().from_recap(t), t.make_nullable, lambda: repr(t)):
        outcome(f)
    stack = [(t, 0)]
    while stack:
        t, d = stack.pop()
        if isinstance(t, T.ProxyType):
            outcome(t.resolve)
        for a in ("fields", "types"):
            stack += [(c, d + 1) for c in getattr(t, a, [])]
        for a in ("keys", "values"):
            if hasattr(t, a):
                stack.append((getattr(t, a), d + 1))


def run(ck):
    g = Gen(ck.rng)
    ck.need("equal pairs", 2000)
    ck.need("unequal pairs", 5000)
    ck.need("references resolved on one side", 300)
    for k in ("alias", "bits", "doc", "kind", "target", "fields in another order", "types in another order", "symbols longer", "keys and values exchanged", "length"):
        ck.need(f"change: {k}", 10)
    shared = T.RecapTypeRegistry()

    def build(n):
        # (registries are expensive)
        return M.build(copy.deepcopy(n), T.RecapTypeRegistry() if any(m["alias"] and m["k"] != "ref" for m in M.walk(n)) else shared)

    for i in ck.loop(6000, 150000):
        n = g.node(depth=ck.rng.choice([0, 1, 2, 3, 4]), scope=["a.b", "zz.Other"])
        a, b = (build(n) for _ in "ab")
        before = M.snap(a)
        ck.case(sample=n, family="equal")
        compare(ck, a, b, True, "built twice", n)
        compare(ck, a, a, True, "itself", n)
        if g.coin(0.4):
            disturb(a)
            compare(ck, a, b, True, "after one was read", n)
            if any(m["k"] == "ref" for m in M.walk(n)):
                ck.event("references resolved on one side")
        ck.event("equal pairs")
        c = outcome(copy.deepcopy, a)
        if ck.expect(c.ok, "can't be copied", f"{c}", n):
            compare(ck, a, c.value, True, "a copy", n)
        for x in (None, 0, "int32", M.definition(n), n, [], object()):
            e = outcome(lambda: a == x)
            ck.expect(e.ok and e.value is False, "equal to something that is no type", f"{e} for {x!r}", n)
        nodes = list(M.walk(n))
        for _ in range(3):
            m = copy.deepcopy(n)
            at = ck.rng.randrange(len(nodes))
            node = list(M.walk(m))[at]
            cs = changes(g, node)
            kind = ck.rng.choice(sorted(cs))
            cs[kind]()
            if equal(m, n):
                continue
            ck.case(key=(n, m), family="unequal")
            o = outcome(build, m)
            if not o.ok:
                ck.event("skipped: not a type")
                continue
            ck.event("unequal pairs")
            ck.event(f"change: {kind}")
            if g.coin(0.2):
                disturb(o.value)
            compare(ck, a, o.value, False, kind, (n, m))
        ck.expect(M.same(M.snap(a), before), "comparing modified a type", M.diff(before, M.snap(a)), n)
