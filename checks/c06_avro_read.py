"""C06: AvroConverter.to_recap."""
import copy, json
from recap import types as T
from recap.converters.avro import AvroConverter
from rv import model as M, avrogen
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C06", "exploration"
RULE = ("seeded random Avro schemas generated together with the type they describe (all primitives, logical types, nesting, namespaces written every way, same simple "
        "names in several namespaces, recursive/forward/alias references, docs, defaults), read by a fresh converter and compared after resolving every reference; plus schemas "
        "with one injected defect that must be refused; non-trivial = distinct schema")
ASSUMPTIONS = ["fixed types are reported with their size as maximum length", "a field's own doc, default and name take precedence over those of the type it embeds",
               "refusal may happen on reading or on resolving the reference"]


def read(schema, ns):
    t = AvroConverter().to_recap(json.dumps(schema), ns) if ns is not None else AvroConverter().to_recap(json.dumps(schema))
    return M.snap_resolved(t)


def defects(g, a, defs):
    """One invalid variant of the schema, or None."""
    a = copy.deepcopy(a)
    spots = []

    def visit(s):
        if isinstance(s, list):
            for x in s:
                visit(x)
        elif isinstance(s, dict):
            spots.append(s)
            for k in ("items", "values", "type"):
                if k in s and not isinstance(s[k], str):
                    visit(s[k])
            for f in s.get("fields", []) if isinstance(s.get("fields"), list) else []:
                visit(f)

    visit(a)
    s = g.r.choice(spots)
    t = s.get("type")
    opts = []
    if t == "record":
        opts.append(("drop", "fields"))
    if t == "enum":
        opts.append(("drop", "symbols"))
    if t == "array":
        opts.append(("drop", "items"))
    if t == "map":
        opts.append(("drop", "values"))
    if t == "fixed" and "logicalType" not in s:
        opts += [("drop", "size"), ("set", "size", "12")]
    if s.get("logicalType") == "decimal":
        opts.append(("drop", "precision"))
    if "logicalType" in s:
        opts.append(("set", "logicalType", "no-such-logical-type"))
    opts.append(("drop", "type"))
    simple = {d.rsplit(".", 1)[-1] for d in defs}
    opts += [("set", "type", 5), ("set", "type", "no.such.Type")] + [("set", "type", x) for x in ("integer", "Int") if x not in simple]
    o = g.r.choice(opts)
    if "logicalType" in s and o[1] in ("type",):
        return None  # Avro says the logical type's underlying type must match; recap does not look
    if o[0] == "drop":
        s.pop(o[1], None)
    else:
        s[o[1]] = o[2]
    return a, o


def systematic(g):
    """Every primitive and logical type in every position and style."""
    forms = [(p, f()) for p, f in avrogen.PRIMS.items()]
    seen = set()
    for _ in range(400):
        a, n = avrogen.logical(g)
        if a["type"] == "fixed":
            continue
        key = json.dumps(a, sort_keys=True)
        if key not in seen:
            seen.add(key)
            forms.append((a, n))
    for a, n in forms:
        c = lambda: copy.deepcopy(n)
        nm = lambda m: (m["x"].update(name="f") or m)
        yield a, {"name": "f", "type": a}, nm(c())
        if isinstance(a, dict):
            yield a, {"name": "f", **a}, nm(c())
        yield a, {"name": "f", "type": {"type": "array", "items": a}}, nm(M.lst(c()))
        yield a, {"name": "f", "type": "array", "items": a}, nm(M.lst(c()))
        yield a, {"name": "f", "type": {"type": "map", "values": a}}, nm(M.mp(M.string(M.I63), c()))
        yield a, {"name": "f", "type": ["null", a], "default": None}, M.union([M.null(), c()], x={"name": "f", "default": None})
        yield a, {"name": "f", "type": [a, "null"]}, M.union([c(), M.null()], x={"name": "f"})
        yield a, {"name": "f", "type": {"type": "array", "items": ["null", a]}}, nm(M.lst(M.union([M.null(), c()])))
        yield a, {"name": "f", "type": [{"type": "map", "values": [a]}]}, M.union([M.mp(M.string(M.I63), M.union([c()]))], x={"name": "f"})


def run(ck):
    g = Gen(ck.rng)
    ck.need("schemas read", 1000)
    ck.need("refusals expected", 200)
    ck.need("references", 500)
    for a, f, n in ck.share(systematic(Gen(__import__("random").Random(1)))):
        s = {"type": "record", "name": "R", "fields": [f]}
        ck.case(sample=s, family="systematic")
        want = M.struct([n], alias="_root.R", x={"name": "R"})
        o = outcome(read, s, None)
        if ck.expect(o.ok, "valid schema refused", f"{o}: {s}", s):
            ck.event("schemas read")
            ck.expect(M.same(want, o.value), "misread", f"{M.diff(want, o.value)}: {s}", s)
    for i in ck.loop(30000, 300000):
        a, n, defs, ns = avrogen.generate(g, depth=ck.rng.choice([1, 2, 3, 4]))
        ck.case(sample=(ns, a), family="schema")
        want = M.expand(n, defs)
        ck.event("references", sum(m["k"] == "ref" for m in M.walk(n)))
        o = outcome(read, a, ns)
        if ck.expect(o.ok, "valid schema refused", f"{o}: ns={ns} {a}", a):
            ck.event("schemas read")
            ck.expect(M.same(want, o.value), "misread", f"{M.diff(want, o.value)}: ns={ns} {json.dumps(a)}", a)
        bad = defects(g, a, defs)
        if bad:
            s, what = bad
            ck.case(key=s, family="invalid schema")
            ck.event("refusals expected")
            o = outcome(read, s, ns)
            ck.expect(not o.ok, "invalid schema accepted", f"{what}: {json.dumps(s)} -> {o}", s)
    if ck.first:
        for s in ("int", ["null", "int"], {"type": "array", "items": "int"}, {"type": "map", "values": "int"}, {"type": "enum", "name": "E", "symbols": []}, {"type": "fixed", "name": "F", "size": 2}):
            ck.case(key=s, family="not a record")
            o = outcome(read, s, None)
            ck.expect(not o.ok, "schema that isn't a record accepted", f"{s} -> {o}", s)
