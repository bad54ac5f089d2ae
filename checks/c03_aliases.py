"""C03: alias resolution, registry isolation, built-ins."""
import copy
from recap import types as T
from rv import model as M
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C03", "exploration"
RULE = ("random histories of parse / register / refer / resolve / modify operations over up to 4 registries and fresh documents, with forward, enclosing, "
        "recursive, overriding and dangling references; after every operation all registries, all references and the built-ins are audited against a "
        "reference model; non-trivial = distinct operation history or document")
ASSUMPTIONS = ["a reference's doc and logical type describe the reference; all its other attributes override the definition's",
               "an attribute override holds a plain value of the attribute's own kind"]


KINDS = ("null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union")


def bare(n):
    """What a registry keeps of a definition."""
    n = copy.deepcopy(n)
    n["alias"] = n["doc"] = None
    n["x"].pop("default", None)
    return n


def resolved_model(defs, r):
    target = M.BUILTINS.get(r["alias"]) or defs[r["alias"]]
    return M.apply_ref(bare(target), dict(r, doc=None, logical=None))


def proxies(t, out):
    k = M.kind_of(t)
    if k == "ref":
        out.append(t)
    elif k == "list":
        proxies(t.values, out)
    elif k == "map":
        proxies(t.keys, out), proxies(t.values, out)
    elif k == "struct":
        for c in t.fields:
            proxies(c, out)
    elif k == "union":
        for c in t.types:
            proxies(c, out)
    return out


OVERRIDES = [("bits", 5), ("bits", 64), ("signed", False), ("length", 4), ("unit", "year"), ("precision", 3), ("scale", 1), ("name", "ovr"), ("default", 9), ("default", None),
             ("variable", False), ("bytes", 7), ("timezone", "CET"), ("zzz", [1, {"a": 2}]), ("symbols", ["Q"]), ("length", None), ("bytes", None),
             ("validate", 1), ("is_nullable", None), ("make_nullable", "x"), ("extra_attrs", {"a": 1}), ("resolve", True), ("is_optional", False)]


def near(g, names):
    """A name that looks like a known one."""
    n = g.r.choice(list(names) + ["int32", "uint64", "uuid", "decimal128", "date32", "string64"])
    head, _, last = n.rpartition(".")
    out = g.r.choice([f"x.{n}", f"{n}.{n}", f"{n}.x", last, f"{g.ident()}.{last}", f"build.recap.{n}", n.upper(), n.title(), n + "x", n[:-1], n + " ", " " + n, "." + n, n + ".", n.replace(".", "/"), n + "_", "recap." + last, head or "x", "u" + n])
    return out if out and out not in KINDS else "dangling.Name"


def sprinkle(g, n, names, p):
    """Replace leaves by references to any of `names`, with overrides."""
    if n["k"] not in M.CHILD and n["alias"] is None and g.coin(p) and names:
        x = {k: v for k, v in n["x"].items() if k in ("name",)}
        while g.coin(0.4):
            k, v = g.r.choice(OVERRIDES)
            x[k] = copy.deepcopy(v)
        return M.ref(g.r.choice(names), x=x, doc=n["doc"])
    return M.map_children(n, lambda c: sprinkle(g, c, names, p))


def document(g, extra_names=()):
    scope = list(extra_names)
    fs = [g.node(depth=g.r.choice([1, 2, 3]), scope=scope) for _ in range(g.r.randint(1, 4))]
    n = M.struct(fs, alias=g.fresh_alias() if g.coin(0.7) else None)
    names = [m["alias"] for m in M.walk(n) if m["alias"] and m["k"] != "ref"] + list(extra_names)
    names += ["int32", "decimal128", "timestamp64", "string64"]
    if g.coin(0.3):
        names.append("dangling.Name" if g.coin(0.2) else near(g, names))
    return sprinkle(g, n, names, 0.35)


def check_refs(ck, t, defs, where, depth=3):
    for p in proxies(t, []):
        check_proxy(ck, p, defs, where, depth)


def check_proxy(ck, p, defs, where, depth=3):
    r = M.snap(p)
    name = p.alias
    o = outcome(p.resolve)
    if name not in defs and name not in M.BUILTINS:
        ck.event("dangling references")
        ck.expect(not o.ok, "dangling reference resolved", f"{name}: {o} ({where})", where)
        return
    if not ck.expect(o.ok, "reference does not resolve", f"{name}: {o}", where):
        return
    ck.event("references resolved")
    want = resolved_model(defs, r)
    got = outcome(M.snap, o.value)
    if ck.expect(got.ok, "resolved type unusable", f"{name}: {got}", where):
        ck.expect(M.same(want, got.value), "resolved to another type", f"{name} with {r['x']!r}: {M.diff(want, got.value)}", where)
    if depth > 0:
        check_refs(ck, o.value, defs, where, depth - 1)


def scribble(g, t):
    """Modify a type in place, as a caller may."""
    t.doc = "scribbled"
    t.extra_attrs["scribble"] = 1
    t.extra_attrs.pop("unit", None)
    k = M.kind_of(t)
    if k in ("int", "float"):
        t.bits = 3
    elif k in ("string", "bytes"):
        t.bytes_ = 3
        t.variable = False
    elif k == "list":
        t.length = 77
        scribble(g, t.values)
    elif k == "map":
        scribble(g, t.values)
        scribble(g, t.keys)
    elif k == "struct":
        for f in t.fields:
            scribble(g, f)
        t.fields.append(T.BoolType(name="scribbled"))
    elif k == "enum":
        t.symbols.append("SCRIBBLED")
    elif k == "union":
        for f in t.types:
            scribble(g, f)
        t.types.append(T.BoolType())


def check_builtins(ck, where):
    reg = T.RecapTypeRegistry()
    for name, n in M.BUILTINS.items():
        got = outcome(lambda: M.snap(reg.from_alias(name)))
        ck.expect(got.ok and M.same(got.value, n), "built-in changed", f"{name}: {got} vs {n}", where)
    name = ck.rng.choice(list(M.BUILTINS))
    got = outcome(lambda: M.snap(T.from_dict(name).resolve()))
    ck.expect(got.ok and M.same(got.value, M.BUILTINS[name]), "built-in changed", f"{name}: {got} vs {M.BUILTINS[name]}", where)


def defs_of(n):
    return {m["alias"]: m for m in M.walk(n) if m["alias"] and m["k"] != "ref"}


def documents(ck, g, quick, thorough):
    for i in ck.loop(quick, thorough):
        n = document(g)
        ck.case(sample=n, family="document")
        defs = defs_of(n)
        d = M.definition(n, ck.rng, 0.05)
        o = outcome(T.from_dict, copy.deepcopy(d))
        if not ck.expect(o.ok, "document refused", f"{o}", d):
            continue
        t = o.value
        ck.expect(M.same(M.snap(t), M.normal_refs(n)) if hasattr(M, "normal_refs") else M.same(M.snap(t), n), "document misread", M.diff(n, M.snap(t)), d)
        check_refs(ck, t, defs, d)
        ck.expect(M.same(M.snap(t), n), "resolving modified the document", M.diff(n, M.snap(t)), d)
        # scribble over one resolved type; everything else must stay
        ps = [p for p in proxies(t, []) if p.alias in defs or p.alias in M.BUILTINS]
        if ps:
            victim = ck.rng.choice(ps)
            scribble(g, victim.resolve())
            for p in ps:
                if p is not victim:
                    check_proxy(ck, p, defs, d, 1)
            # fresh references to the same name in the same registry
            q = T.ProxyType(victim.alias, victim.registry)
            check_proxy(ck, q, defs, d, 1)
            check_proxy(ck, T.ProxyType(victim.alias, victim.registry, bits=6), defs, d, 1)
            ck.expect(M.same(M.snap(t), n), "modifying a resolved type modified the document", M.diff(n, M.snap(t)), d)
        # scribble over the document's own definitions: registered definitions stay
        reg = ps[0].registry if ps else None
        if reg is not None:
            scribble(g, t)
            for a in defs:
                check_proxy(ck, T.ProxyType(a, reg), defs, d, 1)
        check_builtins(ck, d)
        if ck.rng.random() < 0.3:
            # a registry's built-ins are its own
            own = T.RecapTypeRegistry()
            for b in ck.rng.sample(sorted(M.BUILTINS), 3):
                scribble(g, own.from_alias(b))
            ck.event("own built-ins modified")
            check_builtins(ck, d)
        # another document doesn't see these names
        for a in list(defs)[:3]:
            o = outcome(lambda: T.from_dict({"type": a}).resolve())
            ck.expect(not o.ok, "alias leaked into another document", f"{a}: {o}", d)
            o = outcome(T.from_dict, {"type": "bool", "alias": a})
            ck.expect(o.ok, "alias leaked into another document", f"redefining {a} elsewhere: {o}", d)


def histories(ck, g, quick, thorough):
    for i in ck.loop(quick, thorough):
        regs = [T.RecapTypeRegistry() for _ in range(3)]
        models = [{} for _ in regs]
        held = []  # (proxy, registry index)
        trace = []
        universe = ["u.A", "u.B", "u.C", "v.A", "u.A.B"]
        for step in range(ck.rng.randint(4, 14)):
            j = ck.rng.randrange(len(regs))
            reg, mod = regs[j], models[j]
            op = ck.rng.choice(["parse", "register", "register", "refer", "refer", "resolve", "scribble", "bad"])
            if op == "parse":
                n = document(g, extra_names=[ck.rng.choice(universe)])
                d = M.definition(n, ck.rng, 0.05)
                trace.append(("parse", j, d))
                o = outcome(T.from_dict, copy.deepcopy(d), reg)
                if ck.expect(o.ok, "document refused", f"{o}", trace):
                    mod.update(defs_of(n))
                    for p in proxies(o.value, []):
                        held.append((p, j))
            elif op == "register":
                a = ck.rng.choice(universe)
                n = g.node(depth=2, aliases=False)
                if n["k"] == "ref":
                    n = M.lst(n)
                n["alias"] = a
                n = sprinkle(g, n, universe, 0.3)
                t = M.build(dict(n, alias=None), reg)
                t.alias = a
                trace.append(("register", j, n))
                o = outcome(reg.register_alias, t)
                if a in mod:
                    ck.event("redefinitions refused")
                    ck.expect(not o.ok, "alias redefined", f"{a}: {o}", trace)
                else:
                    if ck.expect(o.ok, "alias refused", f"{a}: {o}", trace):
                        mod[a] = n
                    ck.expect(M.same(M.snap(t), n), "registering modified the type", M.diff(n, M.snap(t)), trace)
                    if g.coin():
                        scribble(g, t)
            elif op == "refer":
                a = ck.rng.choice(universe + ["int32", "uuid", "bytes64", near(g, universe)])
                x = dict([ck.rng.choice(OVERRIDES)]) if g.coin() else {}
                trace.append(("refer", j, a, x))
                held.append((T.ProxyType(a, reg, **copy.deepcopy(x)), j))
            elif op == "resolve" and held:
                p, jj = ck.rng.choice(held)
                trace.append(("resolve", jj, p.alias))
                check_proxy(ck, p, models[jj], trace, 2)
            elif op == "scribble" and held:
                idx = ck.rng.randrange(len(held))
                p, jj = held[idx]
                trace.append(("scribble", jj, p.alias))
                o = outcome(p.resolve)
                if o.ok:
                    scribble(g, o.value)
                    held.pop(idx)
            elif op == "bad":
                a = ck.rng.choice(["int8", "uuid", "noqualifier", "a..b", None, "a.b\n"])
                trace.append(("bad", j, a))
                o = outcome(reg.register_alias, T.BoolType(alias=a))
                ck.expect(not o.ok, "bad alias accepted", f"{a}: {o}", trace)
            # audit
            for rj, (r, m) in enumerate(zip(regs, models)):
                for a in universe + [x for x in m if x not in universe][:4]:
                    o = outcome(lambda: M.snap(r.from_alias(a)))
                    if a in m:
                        w = bare(m[a])
                        ck.expect(o.ok and M.same(o.value, w), "registry content", f"registry {rj} {a}: {M.diff(w, o.value) if o.ok else o}", trace)
                    else:
                        ck.expect(not o.ok, "name leaked between registries", f"registry {rj} {a}: {o}", trace)
        for p, jj in held:
            check_proxy(ck, p, models[jj], trace, 1)
        check_builtins(ck, trace)
        ck.case(key=trace, sample=trace, family="history")


def run(ck):
    g = Gen(ck.rng)
    ck.need("references resolved", 1000)
    ck.need("dangling references", 20)
    documents(ck, g, 6000, 100000)
    histories(ck, g, 3000, 50000)
