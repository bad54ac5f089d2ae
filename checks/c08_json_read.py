"""C08: JSONSchemaConverter.to_recap."""
import copy, json
from referencing import Registry, Resource, jsonschema as js
from referencing.exceptions import NoSuchResource
from recap.converters.json_schema import JSONSchemaConverter
from rv import model as M, jsgen
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C08", "exploration"
RULE = ("seeded random JSON schemas generated together with the type they describe (nested objects/arrays, type lists, formats, required subsets, docs, defaults, $id, "
        "references to enclosing/earlier/recursive and retrievable schemas), read by a fresh converter, compared after resolving every reference; plus schemas with one "
        "unsupported construct that must be refused; non-trivial = distinct schema")
ASSUMPTIONS = ["references name a schema by its full $id or by the full URL it is retrieved from", "validation keywords (lengths, patterns, enum) do not change the Recap type", "retrieval is served from memory"]


def read(schema, store, strategy=None):
    fetched = []

    def retrieve(uri):
        fetched.append(uri)
        if uri not in store:
            raise NoSuchResource(ref=uri)
        return Resource.from_contents(copy.deepcopy(store[uri]), js.DRAFT202012)

    t = JSONSchemaConverter(Registry(retrieve=retrieve)).to_recap(json.dumps(schema), *([strategy] if strategy else []))
    return M.snap_resolved(t), fetched


def spots(s, out):
    if isinstance(s, dict):
        out.append(s)
        if isinstance(s.get("properties"), dict) and s.get("type") == "object":
            for p in s["properties"].values():
                spots(p, out)
        if "items" in s and s.get("type") == "array":
            spots(s["items"], out)
    return out


def break_it(g, schema):
    schema = copy.deepcopy(schema)
    s = g.r.choice(spots(schema, []))
    t = s.get("type")
    opts = [("set", "type", "int"), ("set", "type", "float"), ("set", "type", "String"), ("set", "type", 7), ("set", "type", ["string", "bogus"])]
    if t == "object":
        opts.append(("drop", "properties"))
    if t == "array":
        opts.append(("drop", "items"))
    if "$ref" in s or "$dynamicRef" in s:
        opts = [("set", "$ref", "https://nowhere.example/x"), ("set", "$ref", 5)]
        s.pop("$dynamicRef", None)
    else:
        opts.append(("drop", "type"))
    o = g.r.choice(opts)
    if o[0] == "drop":
        s.pop(o[1], None)
    else:
        s[o[1]] = o[2]
    return schema, o


def systematic():
    forms = [({"type": t}, f()) for t, f in jsgen.BASIC.items()] + [({"type": "string", "format": t}, f()) for t, f in jsgen.FORMATS.items()]
    forms += [({"type": [a, b]}, M.union([jsgen.BASIC[a](), jsgen.BASIC[b]()])) for a in jsgen.BASIC for b in jsgen.BASIC if a != b]
    for s, n in forms:
        for doc in (None, "d"):
            for dflt in ((), (None,), (0,), ("x",)):
                for wrap in (None, "array", "object", "array2"):
                    for req in (None, True, False):
                        s2, n2 = copy.deepcopy(s), copy.deepcopy(n)
                        if doc:
                            s2["description"] = n2["doc"] = doc
                        if dflt:
                            s2["default"] = n2["x"]["default"] = dflt[0]
                        if wrap == "array":
                            s2, n2 = {"type": "array", "items": s2}, M.lst(n2)
                        elif wrap == "array2":
                            s2, n2 = {"type": "array", "items": {"type": "array", "items": s2}}, M.lst(M.lst(n2))
                        elif wrap == "object":
                            s2, n2 = {"type": "object", "properties": {"in": s2}, "required": ["in"]}, M.struct([dict(n2, x=dict(n2["x"], name="in"))])
                        root = {"type": "object", "properties": {"p": s2}}
                        if req is not None:
                            root["required"] = ["p"] if req else []
                        if not req:
                            n2 = jsgen.nullable(n2)
                        n2["x"]["name"] = "p"
                        yield root, M.struct([n2])


def run(ck):
    g = Gen(ck.rng)
    ck.need("schemas read", 1000)
    ck.need("references", 300)
    ck.need("retrievals", 50)
    ck.need("refusals expected", 300)
    ck.need("references named by a caller's strategy", 60)
    ck.need("references to schemas retrieved from elsewhere", 30)
    for s, n in ck.share(systematic()):
        ck.case(sample=s, family="systematic")
        o = outcome(read, s, {})
        if ck.expect(o.ok, "supported schema refused", f"{o}: {s}", s):
            ck.event("schemas read")
            ck.expect(M.same(n, o.value[0]), "misread", f"{M.diff(n, o.value[0])}: {json.dumps(s)}", s)
    for i in ck.loop(30000, 300000):
        strategy = jsgen.custom_strategy if g.coin(0.2) else None
        s, n, defs, store = jsgen.generate(g, ck.rng.choice([1, 2, 3, 4]), strategy)
        ck.case(sample=s, family="schema")
        want = M.expand(n, defs)
        refs = sum(m["k"] == "ref" for m in M.walk(n))
        ck.event("references", refs)
        if strategy:
            ck.event("references named by a caller's strategy", refs)
        o = outcome(read, s, store, strategy)
        if ck.expect(o.ok, "supported schema refused", f"{o}: {json.dumps(s)}", (s, store)):
            ck.event("schemas read")
            ck.event("retrievals", len(o.value[1]))
            away = [u for u in o.value[1] if u != store[u]["$id"]]
            ck.event("references to schemas retrieved from elsewhere", sum(json.dumps(s).count(json.dumps(u)) - 1 for u in away))
            ck.expect(len(set(o.value[1])) == len(o.value[1]), "retrieved twice", f"{o.value[1]}", s)
            ck.expect(M.same(want, o.value[0]), "misread", f"{M.diff(want, o.value[0])}: {json.dumps(s)}", (s, store))
        b, what = break_it(g, s)
        ck.case(key=b, family="broken schema")
        ck.event("refusals expected")
        o = outcome(read, b, store)
        ck.expect(not o.ok, "unsupported schema accepted", f"{what}: {json.dumps(b)} -> {o}", b)
    if ck.first:
        for s in ({"type": "string"}, {"type": "array", "items": {"type": "string"}}, {"type": ["object", "null"]}, "string", {"oneOf": [{"type": "string"}]}, {}, {"anyOf": []}, {"type": "object"}):
            ck.case(key=s, family="not an object")
            o = outcome(read, s, {})
            ck.expect(not o.ok, "schema that isn't an object accepted", f"{s} -> {o}", s)
