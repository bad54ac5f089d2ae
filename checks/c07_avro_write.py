"""C07: AvroConverter.from_recap."""
import copy, json
from recap import types as T
from recap.converters.avro import AvroConverter
from rv import model as M
from rv.core import outcome
from rv.gen import Gen, UNITS

PID, LEVEL = "C07", "exploration"
RULE = ("seeded random structs inside and outside of what Avro can express, plus an enumeration of integer/float widths, lengths, logical types x units and positions; the "
        "written schema is normalised and compared with a reference writer, re-read, and checked to cover the original; refusals compared both ways; non-trivial = distinct struct")
ASSUMPTIONS = ["strings and bytes without a maximum length are refused", "Recap's Avro dialect (type attributes next to a field's) is accepted as Avro",
               "integers wider than Avro's long become decimals of as many digits as always fit in them"]


class No(Exception):
    pass


LOGICALS = {
    ("build.recap.Time", "millisecond", 32): ("int", "time-millis"),
    ("build.recap.Time", "microsecond", 64): ("long", "time-micros"),
    ("build.recap.Timestamp", "millisecond", 64): ("long", "timestamp-millis"),
    ("build.recap.Timestamp", "microsecond", 64): ("long", "timestamp-micros"),
    ("build.recap.Date", "day", 32): ("int", "date"),
}


def ref_write(n, defs):
    """node -> normalised Avro dict."""
    a = {}
    if n["doc"]:
        a["doc"] = n["doc"]
    if n["x"].get("name"):
        a["name"] = n["x"]["name"]
    if "default" in n["x"]:
        a["default"] = n["x"]["default"]
    k = n["k"]
    if k == "ref":
        if n["alias"] in M.BUILTINS:
            b = ref_write(M.apply_ref(M.BUILTINS[n["alias"]], dict(n, doc=None)), defs)
            return {**a, **b}
        target = defs.get(n["alias"])
        if target is not None and overrides(target, n):
            # Avro has no way to say it
            b = ref_write(M.apply_ref(M.bare(target), dict(n, doc=None)), defs)
            if "name" not in n["x"]:
                b.pop("name", None)
            return {**a, **b}
        a["type"] = n["alias"]
        return a
    if n["alias"]:
        a["aliases"] = [n["alias"]]
    lg, x = n["logical"], n["x"]
    if lg is not None:
        if k == "bytes" and lg == "build.recap.Decimal" and n["bytes"] is not None and isinstance(x.get("precision"), int):
            a.update(type="bytes", logicalType="decimal", precision=x["precision"], scale=x.get("scale", 0))
        elif k == "int" and n["signed"]:
            u = x.get("unit", "day" if lg == "build.recap.Date" else None)
            for (l, unit, bits), (t, lt) in LOGICALS.items():
                if l == lg and unit == u and n["bits"] <= bits:
                    a.update(type=t, logicalType=lt)
                    break
            else:
                raise No(lg)
        elif k == "bytes" and lg == "build.recap.Interval" and n["bytes"] == 12 and not n["variable"] and x.get("unit") == "millisecond":
            a.update(type="fixed", logicalType="duration", size=12)
        elif k == "string" and lg == "build.recap.UUID" and n["bytes"] is not None:
            a.update(type="string", logicalType="uuid")
        else:
            raise No(lg)
        return a
    if k == "null":
        a["type"] = "null"
    elif k == "bool":
        a["type"] = "boolean"
    elif k == "int":
        b, s = n["bits"], n["signed"]
        if s and b <= 32:
            a["type"] = "int"
        elif b <= (64 if s else 63):
            a["type"] = "long"
        else:
            a.update(type="bytes", logicalType="decimal", precision=digits(b - (1 if s else 0)))
    elif k == "float":
        if n["bits"] > 64:
            raise No("float")
        a["type"] = "float" if n["bits"] <= 32 else "double"
    elif k in ("string", "bytes"):
        if n["bytes"] is None:
            raise No("unbounded")
        if k == "bytes" and not n["variable"]:
            a.update(type="fixed", size=n["bytes"])
        else:
            a["type"] = k
    elif k == "struct":
        a["type"] = "record"
        a["fields"] = [ref_write(f, defs) for f in n["fields"]]
    elif k == "enum":
        a.update(type="enum", symbols=n["symbols"])
    elif k == "list":
        a.update(type="array", items=ref_write(n["values"], defs))
    elif k == "map":
        key = n["keys"]
        if key["k"] == "ref":
            key = M.BUILTINS.get(key["alias"]) or defs.get(key["alias"]) or {"k": "?"}
        if key["k"] != "string":
            raise No("keys")
        a.update(type="map", values=ref_write(n["values"], defs))
    elif k == "union":
        a["type"] = [ref_write(t, defs) for t in n["types"]]
    return a


def overrides(target, r):
    """Does a reference change the type that it refers to?"""
    x, k = r["x"], target["k"]
    own = {"int": {"bits", "signed"}, "float": {"bits"}, "string": {"bytes", "variable"}, "bytes": {"bytes", "variable"}, "enum": {"symbols"}}.get(k, set())
    if target["logical"] is not None:
        own = own | {"unit", "precision", "scale"}
    return bool(own & set(x))


LOG2 = 30102999566398119521373889472449302676818988146210854131


def digits(bits):
    """How many decimal digits always fit into that many bits."""
    return LOG2 * bits // 10**56


def norm(s):
    """Normal form of an Avro schema: dicts everywhere, nested anonymous types merged."""
    if isinstance(s, (str, list)):
        s = {"type": s}
    if not isinstance(s, dict) or "type" not in s:
        raise ValueError(f"not an Avro schema: {s!r}")
    s = dict(s)
    t = s["type"]
    if isinstance(t, dict):
        inner = norm(t)
        s.pop("type")
        if set(inner) & set(s):
            raise ValueError(f"conflicting attributes: {s!r}")
        s = {**s, **inner}
    elif isinstance(t, list):
        s["type"] = [norm(x) for x in t]
    for k in ("items", "values"):
        if k in s:
            s[k] = norm(s[k])
    if "fields" in s:
        s["fields"] = [norm(f) for f in s["fields"]]
    return s


def covers(o, r, defs, seen=()):
    """None if read-back node `r` accepts everything that `o` does, else the reason."""
    if r["k"] == "rec" or o["k"] == "rec":
        return None
    if "default" in o["x"] and not ("default" in r["x"] and M.same(r["x"]["default"], o["x"]["default"])):
        return f"default of {o['x'].get('name')}"
    if o["doc"] and r["doc"] != o["doc"]:
        return f"doc {o['doc']} vs {r['doc']}"
    k = o["k"]
    if k == "int" and r["k"] == "bytes" and r["logical"] == "build.recap.Decimal" and o["logical"] is None:
        # one digit short of all values: the known finding of probes()
        return None if r["x"]["precision"] >= digits(o["bits"] - (1 if o["signed"] else 0)) else "decimal too narrow"
    if r["k"] != k:
        return f"{k} became {r['k']}"
    if o["logical"] != r["logical"]:
        return f"logical {o['logical']} became {r['logical']}"
    if o["logical"]:
        for a in ("unit", "precision", "scale"):
            if a in o["x"] and o["x"][a] != r["x"].get(a):
                return f"{a} {o['x'][a]} became {r['x'].get(a)}"
    if k == "int":
        hi = lambda n: n["bits"] - (1 if n["signed"] else 0)
        if hi(r) < hi(o) or (o["signed"] and not r["signed"]):
            return f"int{o['bits']}/{o['signed']} became int{r['bits']}/{r['signed']}"
    elif k == "float":
        if r["bits"] < o["bits"]:
            return "narrower float"
    elif k in ("string", "bytes"):
        if not o["logical"] and r["bytes"] is not None and (o["bytes"] is None or r["bytes"] < o["bytes"]):
            return f"{k}{o['bytes']} became {k}{r['bytes']}"
    elif k == "list":
        return covers(o["values"], r["values"], defs)
    elif k == "map":
        return covers(o["values"], r["values"], defs)
    elif k == "enum":
        return None if o["symbols"] == r["symbols"] else "symbols"
    elif k in ("struct", "union"):
        a = "fields" if k == "struct" else "types"
        if len(o[a]) != len(r[a]):
            return f"{len(o[a])} {a} became {len(r[a])}"
        for x, y in zip(o[a], r[a]):
            if k == "struct" and x["x"].get("name") != y["x"].get("name"):
                return f"name {x['x'].get('name')} vs {y['x'].get('name')}"
            why = covers(x, y, defs)
            if why:
                return why
    return None


def judge(ck, n, family, readback=True):
    ck.case(sample=n, family=family)
    defs = {m["alias"]: m for m in M.walk(n) if m["alias"] and m["k"] != "ref"}
    t = M.build(copy.deepcopy(n))
    try:
        want = ref_write(n, defs)
        why = None
    except No as e:
        want, why = None, str(e)
    o = outcome(AvroConverter().from_recap, t)
    if want is None:
        ck.event("refusals expected")
        ck.expect(not o.ok, "wrote a type Avro can't hold", f"{why}: {n} -> {o}", n)
        return
    ck.event("writes expected")
    ck.event("references with overrides", sum(m["k"] == "ref" and m["alias"] in defs and overrides(defs[m["alias"]], m) for m in M.walk(n)))
    if not ck.expect(o.ok, "refused a type Avro can hold", f"{o}", n):
        return
    w = outcome(lambda: norm(json.loads(json.dumps(o.value))))
    if not ck.expect(w.ok, "wrote an invalid schema", f"{w}: {o.value}", n):
        return
    ck.expect(M.same(json.loads(json.dumps(want)), w.value), "schema differs", f"{M.diff(json.loads(json.dumps(want)), w.value)}: {json.dumps(o.value)}", n)
    if not readback:
        return
    ck.event("read back")
    b = outcome(lambda: M.snap_resolved(AvroConverter().to_recap(json.dumps(o.value))))
    if ck.expect(b.ok, "written schema can't be read", f"{b}: {json.dumps(o.value)}", n):
        full = M.expand(n, defs)
        why = covers(full, b.value, defs)
        ck.expect(why is None, "read back as a narrower type", f"{why}: {json.dumps(o.value)}", n)


def avro_node(g, depth, scope, defs, pos="value"):
    """A random type that Avro can mostly express."""
    r = g.r
    opts = ["null", "bool", "int", "int", "float", "string", "bytes", "fixed", "enum", "logical", "logical", "builtin"] + (["ref", "ref"] if scope else [])
    if depth > 0:
        opts += ["list", "map", "struct", "struct", "union", "union"]
    k = r.choice(opts)
    alias = None
    if k == "null":
        n = M.null()
    elif k == "bool":
        n = M.boolean()
    elif k == "int":
        n = M.integer(g.bits(), g.coin(0.6))
    elif k == "float":
        n = M.flt(r.choice([1, 8, 16, 31, 32, 33, 63, 64, 64, 32, 65 if g.coin(0.2) else 64]))
    elif k == "string":
        n = M.string(None if g.coin(0.03) else g.nbytes(), g.coin(0.8))
        if n["bytes"] is None:
            n["variable"] = True
    elif k == "bytes":
        n = M.byts(None if g.coin(0.03) else g.nbytes(), True)
    elif k == "fixed":
        n = M.byts(g.nbytes(), False)
    elif k == "enum":
        n = M.enum(g.names(g.few(0, 1, 2, 3)))
    elif k == "logical":
        n = logical_node(g, good=g.coin(0.93))
    elif k == "builtin":
        b = r.choice([b for b in M.BUILTINS if g.coin(0.05) or not b.startswith(("time", "date64", "duration", "interval"))] or ["int32"])
        n = M.ref(b) if g.coin() else copy.deepcopy(M.BUILTINS[b])
    elif k == "ref":
        a = r.choice(scope)
        n = M.ref(a)
        target = defs.get(a)
        if target is not None and g.coin(0.5):
            # attributes of its own
            tk, x = target["k"], n["x"]
            if tk == "int":
                x["bits"] = r.choice([8, 16, 32, 33, 63, 64, 65, 128])
            elif tk == "float":
                x["bits"] = r.choice([16, 32, 33, 64, 65])
            elif tk in ("string", "bytes"):
                x["bytes"] = r.choice([1, 12, 16, 36, M.G31, M.I63])
            elif tk == "enum":
                x["symbols"] = g.names(r.choice([1, 2, 3]))
            if tk == "int" and g.coin(0.4):
                x["signed"] = g.coin()
            if tk == "bytes" and g.coin(0.3):
                x["variable"] = g.coin()
            if target["logical"] is not None and g.coin():
                if tk == "int":
                    x["unit"] = r.choice(UNITS)
                elif target["logical"] == "build.recap.Decimal":
                    x.update(r.choice([{"precision": 5}, {"precision": 9, "scale": 3}]))
            if g.coin(0.15):
                x["zzz"] = 1
    elif k == "list":
        n = M.lst(avro_node(g, depth - 1, scope, defs), r.choice([None, 5]), True)
    elif k == "map":
        key = r.choice([M.string(M.I63), M.string(), M.string(10), M.ref("string32"), M.string(M.G31)]) if g.coin(0.95) else r.choice([M.integer(32), M.byts(5), M.ref("int32")])
        n = M.mp(copy.deepcopy(key), avro_node(g, depth - 1, scope, defs))
    elif k == "struct":
        n = M.struct([field(g, avro_node(g, depth - 1, scope, defs), i) for i in range(g.few(0, 1, 2, 3, most=12))])
    else:
        ts = [avro_node(g, depth - 1, scope, defs) for _ in range(g.few(1, 2, 3, most=8))]
        if g.coin(0.6):
            ts.insert(0, M.null())
        n = M.union(ts)
    if n["k"] != "ref" and g.coin(0.2):
        n["alias"] = g.fresh_alias()
        scope.append(n["alias"])
        defs[n["alias"]] = n
    if g.coin(0.2):
        n["doc"] = g.word()
    return n


def logical_node(g, good=True):
    r = g.r
    c = r.randint(0, 5)
    if c == 0:
        x = {"precision": g.intval(1, 1000, [1, 5, 18, 28, 38, 39, 56, 76, 77])}
        x["scale"] = r.choice([0, 0, 1, x["precision"] - 1, x["precision"], r.randint(0, x["precision"])])
        if g.coin(0.2):
            x.pop("scale")
        n = M.byts(r.choice([16, 32, M.I63, 5]), g.coin(), logical="build.recap.Decimal", x=x)
        if not good and g.coin():
            n["x"].pop("precision")
    elif c == 1:
        n = M.string(r.choice([36, 16, M.I63]), g.coin(), logical="build.recap.UUID")
    elif c == 2:
        n = M.byts(12, False, logical="build.recap.Interval", x={"unit": "millisecond"})
        if not good:
            n = r.choice([M.byts(16, False, logical="build.recap.Interval", x={"unit": "millisecond"}), M.byts(12, True, logical="build.recap.Interval", x={"unit": "millisecond"}),
                          M.byts(12, False, logical="build.recap.Interval", x={"unit": "second"}), M.integer(64, logical="build.recap.Interval", x={"unit": "millisecond"})])
    else:
        lg, unit, bits = r.choice(list(LOGICALS))
        n = M.integer(r.choice([bits, bits, bits - 1, 32, 8]) if good else r.choice([bits, bits + 1, 64, 65]), True if good else g.coin(), logical=lg,
                      x={"unit": unit if good else r.choice(UNITS)})
        if n["bits"] > bits and good:
            n["bits"] = bits
    if not good and g.coin(0.2):
        n["logical"] = "build.recap.Duration"
    return n


def field(g, n, i):
    n = copy.deepcopy(n)
    n["x"]["name"] = g.r.choice(["a", "id", "value", g.ident(), g.name(), "type"]) + (f"_{i}" if g.coin() else str(i))
    if g.coin(0.2):
        n["x"]["default"] = g.json()
    return n


def enumeration(g):
    ints = [b for b in g.ints if 1 <= b <= 5000]
    for b in sorted(set([1, 2, 7, 8, 9, 15, 16, 17, 24, 30, 31, 32, 33, 34, 40, 62, 63, 64, 65, 66, 96, 127, 128, 129, 255, 256, 512, 1000] + ints)):
        for s in (True, False):
            yield M.integer(b, s)
            for lg in ("Date", "Time", "Timestamp", "Duration", "UUID", "Decimal", "Interval"):
                for u in (UNITS if b in (31, 32, 33, 63, 64, 65) else ["millisecond", "day"]):
                    yield M.integer(b, s, logical="build.recap." + lg, x={"unit": u})
        yield M.flt(b)
    for b in sorted(set([None, 1, 2, 11, 12, 13, 16, 32, 36, 255, 2**31 - 1, 2**31, 2**31 + 1, M.I63 - 1, M.I63] + ints), key=lambda v: (v is not None, v or 0)):
        for v in (True, False):
            if b is None and not v:
                continue
            yield M.string(b, v)
            yield M.byts(b, v)
            yield M.string(b, v, logical="build.recap.UUID")
            yield M.byts(b, v, logical="build.recap.UUID")
            for u in ("millisecond", "second"):
                yield M.byts(b, v, logical="build.recap.Interval", x={"unit": u})
            for x in ({}, {"precision": 5}, {"precision": 5, "scale": 0}, {"precision": 38, "scale": 38}, {"precision": 39, "scale": 0}, {"precision": 77, "scale": 76}, {"precision": 1000, "scale": 0}, {"scale": 2}, {"precision": None, "scale": 1}, {"precision": "5"}):
                yield M.byts(b, v, logical="build.recap.Decimal", x=x)
                yield M.string(b, v, logical="build.recap.Decimal", x=x)
    for b in M.BUILTINS:
        yield M.ref(b)
        yield M.ref(b, doc="dd")
    for u in (None, "day", "second", "month"):
        yield M.integer(32, logical="build.recap.Date", x={} if u is None else {"unit": u})
    yield from (M.null(), M.boolean(), M.enum([]), M.enum(["b", "a"]), M.struct([]), M.union([]), M.union([M.null()]))
    for key in [M.string(5), M.string(), M.ref("string32"), M.ref("string64"), M.ref("uuid"), M.string(36, False, logical="build.recap.UUID"), M.integer(32), M.byts(4), M.ref("int8"), M.ref("bytes32"), M.null(), M.enum(["a"]), M.struct([]), M.union([M.string(4)])]:
        yield M.mp(key, M.integer(32))


def positions(n):
    c = lambda: copy.deepcopy(n)
    nm = lambda m, **k: (m["x"].update(name="f", **k) or m)
    yield M.struct([nm(c())], x={"name": "R"})
    yield M.struct([M.boolean(x={"name": "z"}), nm(M.union([M.null(), c()]), default=None)], alias="a.R")
    yield M.struct([nm(M.lst(c()))])
    yield M.struct([nm(M.mp(M.string(M.I63), c()))])
    yield M.struct([nm(M.struct([nm(c(), default=0)]))])


def probes(ck):
    """Known finding: decimals that integers are written as hold one digit less than the widest values have."""
    n = M.struct([M.integer(128, x={"name": "f"})])
    ck.case(key="probe", family="probe")
    p = AvroConverter().from_recap(M.build(n))["fields"][0].get("precision")
    ck.expect(isinstance(p, int) and 10**p > 2**127 - 1, "wide-integer-decimal-digit", f"int128 became a decimal of {p} digits", n)


def run(ck):
    g = Gen(ck.rng)
    if ck.first:
        probes(ck)
    ck.need("writes expected", 1000)
    ck.need("refusals expected", 300)
    ck.need("read back", 500)
    ck.need("references with overrides", 300)
    for n in ck.share(enumeration(g)):
        for m in positions(n):
            judge(ck, m, "enumerated")
    for i in ck.loop(25000, 250000):
        scope, shared = [], {}
        n = M.struct([field(g, avro_node(g, ck.rng.choice([0, 1, 2, 3]), scope, shared), j) for j in range(g.few(1, 2, 3, 4, 5, most=20))])
        if g.coin():
            n["x"]["name"] = "Root"
        if g.coin(0.3):
            n["alias"] = g.fresh_alias()
        if g.coin(0.2):
            n["doc"] = "top"
        judge(ck, n, "random")
