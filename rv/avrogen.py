"""Generator of Avro schemas together with the Recap type they describe."""
from __future__ import annotations

import copy

from rv import model as M

PRIMS = {
    "null": lambda: M.null(),
    "boolean": lambda: M.boolean(),
    "int": lambda: M.integer(32),
    "long": lambda: M.integer(64),
    "float": lambda: M.flt(32),
    "double": lambda: M.flt(64),
    "bytes": lambda: M.byts(M.I63),
    "string": lambda: M.string(M.I63),
}


def logical(g):
    """(avro, node) of a logical type."""
    r = g.r
    k = r.choice(["decimal-bytes", "decimal-fixed", "uuid", "date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "duration"])
    if k.startswith("decimal"):
        p = g.intval(1, 5000, [1, 4, 10, 18, 28, 38, 39, 76, 77])
        a = {"logicalType": "decimal", "precision": p}
        s = 0
        if g.coin(0.7):
            s = a["scale"] = r.choice([0, 1, 2, min(p, 9), p - 1, p, r.randint(0, p)])
        x = {"precision": p, "scale": s}
        if k == "decimal-bytes":
            return {"type": "bytes", **a}, M.byts(M.I63, False, logical="build.recap.Decimal", x=x)
        size = g.intval(1, M.I63, [1, 8, 12, 16, 17, 32, 33])
        return {"type": "fixed", "size": size, **a}, M.byts(size, True, logical="build.recap.Decimal", x=x)
    if k == "uuid":
        return {"type": "string", "logicalType": k}, M.string(36, False, logical="build.recap.UUID")
    if k == "duration":
        return {"type": "fixed", "size": 12, "logicalType": k}, M.byts(12, True, logical="build.recap.Interval", x={"signed": True, "unit": "millisecond"})
    bits = 32 if k in ("date", "time-millis") else 64
    unit = "day" if k == "date" else ("millisecond" if k.endswith("millis") else "microsecond")
    lg = {"date": "Date", "time": "Time", "timestamp": "Timestamp"}[k.split("-")[0]]
    return {"type": "int" if bits == 32 else "long", "logicalType": k}, M.integer(bits, logical="build.recap." + lg, x={"unit": unit})


class AvroGen:
    """Generates one schema. `self.defs` holds the named types by full name."""

    def __init__(self, g, default_ns=None):
        self.g, self.r = g, g.r
        self.defs = {}
        self.done = []  # full names that can be referenced (being defined or defined)
        self.n = 0
        self.default_ns = default_ns

    def named(self, kind, ns):
        """Choose how the name and namespace are written. Returns (attrs, full, simple, inner ns)."""
        self.n += 1
        simple = self.r.choice(["Rec", "E", "fx", "T_", "x"]) + str(self.n)
        if self.g.coin():
            simple = self.g.name()
            while any(d.rsplit(".", 1)[1] == simple for d in self.defs) or simple in PRIMS or simple in ("record", "enum", "fixed", "array", "map", "union"):
                simple = self.g.name()
        if self.g.coin(0.25) and self.defs:
            # same simple name in another namespace
            cand = self.r.choice(list(self.defs)).rsplit(".", 1)[1]
            c = self.r.random()
            other = self.r.choice(["com.other", "com", "com.acme.x", ""])
            if f"{other or '_root'}.{cand}" not in self.defs:
                simple, ns2 = cand, other
                if not ns2:
                    return {"name": simple, "namespace": ""}, f"_root.{simple}", simple, "_root"
                return {"name": simple, "namespace": ns2} if c < 0.5 else {"name": f"{ns2}.{simple}"}, f"{ns2}.{simple}", simple, ns2
        c = self.r.random()
        if c < 0.5:
            if not ns:
                ns = "_root"
            return {"name": simple}, f"{ns}.{simple}", simple, ns
        ns2 = self.r.choice(["com.acme", "com.other", "a", "a.b.c", "build.recap"])
        if c < 0.55:
            # the null namespace
            return {"name": simple, "namespace": ""}, f"_root.{simple}", simple, "_root"
        if c < 0.7:
            return {"name": simple, "namespace": ns2}, f"{ns2}.{simple}", simple, ns2
        if c < 0.85:
            return {"name": f"{ns2}.{simple}"}, f"{ns2}.{simple}", simple, ns2
        return {"name": f"{ns2}.{simple}", "namespace": "ignored.ns"}, f"{ns2}.{simple}", simple, ns2

    def schema(self, depth, ns, in_union=False):
        """(avro schema, node)"""
        g, r = self.g, self.r
        opts = [("prim", 4), ("logical", 3), ("fixed", 1), ("enum", 1), ("ref", 3 if self.done else 0)]
        if depth > 0:
            opts += [("record", 2), ("array", 2), ("map", 2)]
            if not in_union:
                opts.append(("union", 3))
        if depth > 0 and g.coin(0.004):
            return self.chain(ns, g.span(4, 40))
        k = r.choices([o[0] for o in opts], [o[1] for o in opts])[0]
        if k == "prim":
            p = r.choice(list(PRIMS))
            return (p if g.coin(0.7) else {"type": p}), PRIMS[p]()
        if k == "logical":
            a, n = logical(g)
            if a["type"] == "fixed":
                at, full, simple, _ = self.named("fixed", ns)
                a.update(at)
                n["alias"] = full
                n["x"]["name"] = simple
                self.define(full, n)
            return a, n
        if k == "fixed":
            at, full, simple, _ = self.named("fixed", ns)
            size = g.intval(1, M.I63, [1, 2, 16, 255, 2**31])
            n = M.byts(size, True, alias=full, x={"name": simple})
            self.define(full, n)
            return self.shuffle({"type": "fixed", "size": size, **at}), n
        if k == "enum":
            at, full, simple, _ = self.named("enum", ns)
            syms = g.names(g.few(1, 2, 3, 4))
            n = M.enum(syms, alias=full, x={"name": simple})
            a = {"type": "enum", "symbols": syms, **at}
            if g.coin(0.3):
                a["doc"] = n["doc"] = g.text() or "d"
            self.define(full, n)
            return self.shuffle(a), n
        if k == "ref":
            full = r.choice(self.done)
            fns, simple = full.rsplit(".", 1)
            name = full
            if fns == (ns or "_root") and g.coin(0.8):
                name = simple
            return name, M.ref(full)
        if k == "record":
            return self.record(depth, ns)
        if k == "array":
            a, n = self.schema(depth - 1, ns)
            return {"type": "array", "items": a}, M.lst(n)
        if k == "map":
            a, n = self.schema(depth - 1, ns)
            return {"type": "map", "values": a}, M.mp(M.string(M.I63), n)
        ms = [self.schema(depth - 1, ns, in_union=True) for _ in range(g.few(1, 2, 3, most=12))]
        return [m[0] for m in ms], M.union([m[1] for m in ms])

    def chain(self, ns, k):
        """Types inside of types inside of types."""
        a, n = self.schema(0, ns)
        for _ in range(k):
            c = self.r.random()
            if c < 0.4:
                a, n = {"type": "array", "items": a}, M.lst(n)
            elif c < 0.8:
                a, n = {"type": "map", "values": a}, M.mp(M.string(M.I63), n)
            elif not isinstance(a, list):
                a, n = ["null", a], M.union([M.null(), n])
        return a, n

    def define(self, full, n):
        assert full not in self.defs, full
        self.defs[full] = n
        if full not in self.done:
            self.done.append(full)

    def record(self, depth, ns, root=False):
        g, r = self.g, self.r
        at, full, simple, ns2 = self.named("record", ns)
        while full in self.defs:
            at, full, simple, ns2 = self.named("record", ns)
        a = {"type": "record", **at}
        n = M.struct([], alias=full, x={"name": simple})
        if g.coin(0.3):
            a["doc"] = n["doc"] = g.text() or "d"
        if g.coin(0.12):
            self.n += 1
            al = f"old.Alias{self.n}"
            a["aliases"] = [al]
            self.defs[al] = n
            self.done.append(al)
        if g.coin(0.1):
            a[r.choice(["connect.name", "x-y", "comment", "version", "owner", "default", "order"][:5])] = g.json()
        self.defs[full] = n
        self.done.append(full)
        fields = []
        for i in range(g.few(0, 1, 2, 3, 4, most=20)):
            fields.append(self.field(depth - 1 if i < 30 else 0, ns2, i))
        a["fields"] = [f[0] for f in fields]
        n["fields"] = [f[1] for f in fields]
        return self.shuffle(a), n

    def field(self, depth, ns, i):
        g, r = self.g, self.r
        name = r.choice(["id", "name", "Rec1", "value", "type", g.ident(), g.name(), g.name()]) + (str(i) if g.coin(0.5) else "")
        a, n = self.schema(depth, ns)
        n = copy.copy(n)
        n["x"] = dict(n["x"])
        f = {"name": name, "type": a}
        named = n["k"] in ("struct", "enum") or (isinstance(a, dict) and a.get("type") == "fixed")
        # the field dialect that Recap writes: attributes of an unnamed type next to the field's
        if isinstance(a, dict) and not named and isinstance(a.get("type"), str) and g.coin(0.25):
            f = {**a, "name": name}
        n["x"]["name"] = name
        if g.coin(0.25):
            f["doc"] = n["doc"] = g.text() or "d"
        if g.coin(0.25):
            f["default"] = n["x"]["default"] = g.json()
        # what says nothing about the type
        if g.coin(0.2):
            f["order"] = r.choice(["ascending", "descending", "ignore"])
        if g.coin(0.1) and "aliases" not in f:
            f["aliases"] = g.names(g.few(0, 1, 2))
        if g.coin(0.1):
            f[r.choice(["x-y", "pii", "connect.index", "avro.java.string", "comment", "nullable", "optional", "required", "deprecated"])] = g.json()
        return self.shuffle(f), n

    def shuffle(self, d):
        if self.g.coin(0.3):
            items = list(d.items())
            self.r.shuffle(items)
            return dict(items)
        return d


def generate(g, depth=3):
    ns = g.r.choice([None, None, None, "default.ns", ""])
    ag = AvroGen(g, ns)
    a, n = ag.record(depth, ns, root=True)
    return a, n, ag.defs, ns
