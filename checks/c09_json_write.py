"""C09: JSONSchemaConverter.from_recap, judged by validating instances."""
import copy, json
import jsonschema
from jsonschema import Draft202012Validator
from recap import types as T
from recap.converters.json_schema import JSONSchemaConverter
from rv import model as M
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C09", "exploration"
RULE = ("seeded random structs (aliases, references incl. recursive, nested optionals, maps, enums, docs, defaults) written as JSON Schema; the schema is checked against the "
        "draft 2020-12 meta schema and then validates generated conforming instances and single-point mutations of them, each verdict compared with an independent "
        "membership test; docs, defaults and required sets compared structurally; non-trivial = distinct (struct, instance) pair")
ASSUMPTIONS = ["an optional property (nullable with a default) is left out to stand for null", "union members are told apart by their JSON kind (the writer uses oneOf)",
               "lengths, widths and formats are not expressed in JSON Schema", "references with overrides are not recursive"]


def optional(n, defs):
    if n["k"] == "ref" and n["alias"] in defs and "default" in n["x"]:
        # the reference's own default
        n = M.apply_ref(defs[n["alias"]], n)
    return n["k"] == "union" and "default" in n["x"] and any(M.is_plain_null(t) for t in n["types"]) and sum(not M.is_plain_null(t) for t in n["types"]) == 1


def kinds(n, defs, depth=6):
    """JSON kinds of a type's values."""
    k = n["k"]
    if k == "ref":
        if n["alias"] in M.BUILTINS:
            return kinds(M.BUILTINS[n["alias"]], defs)
        return kinds(defs[n["alias"]], defs, depth - 1) if depth else {"object"}
    if k == "union":
        return set().union(*[kinds(t, defs, depth) for t in n["types"]]) if n["types"] else set()
    return {{"null": "null", "bool": "bool", "int": "number", "float": "number", "string": "string", "bytes": "string", "enum": "string", "list": "array", "map": "object", "struct": "object"}[k]}


def fits(n, v, defs, prop=False):
    k = n["k"]
    if k == "ref":
        a = n["alias"]
        return fits(M.BUILTINS[a] if a in M.BUILTINS else M.apply_ref(defs[a], n), v, defs, prop)
    if k == "union":
        if prop and optional(n, defs):
            return fits([t for t in n["types"] if not M.is_plain_null(t)][0], v, defs, True)
        return any(fits(t, v, defs) for t in n["types"])
    if k == "null":
        return v is None
    if k == "bool":
        return isinstance(v, bool)
    if k == "int":
        return not isinstance(v, bool) and (isinstance(v, int) or (isinstance(v, float) and v.is_integer()))
    if k == "float":
        return not isinstance(v, bool) and isinstance(v, (int, float))
    if k in ("string", "bytes"):
        return isinstance(v, str)
    if k == "enum":
        return isinstance(v, str) and v in n["symbols"]
    if k == "list":
        return isinstance(v, list) and all(fits(n["values"], x, defs) for x in v)
    if k == "map":
        return isinstance(v, dict) and all(fits(n["values"], x, defs) for x in v.values())
    if k == "struct":
        if not isinstance(v, dict):
            return False
        for f in n["fields"]:
            nm = f["x"]["name"]
            if nm not in v:
                if optional(f, defs):
                    continue
                return False
            if not fits(f, v[nm], defs, prop=True):
                return False
        return True
    raise AssertionError(k)


def instance(g, n, defs, depth=5, prop=False):
    r = g.r
    k = n["k"]
    if k == "ref":
        a = n["alias"]
        return instance(g, M.BUILTINS[a] if a in M.BUILTINS else M.apply_ref(defs[a], n), defs, depth - 1, prop)
    if k == "union":
        if prop and optional(n, defs):
            return instance(g, [t for t in n["types"] if not M.is_plain_null(t)][0], defs, depth, True)
        ts = n["types"]
        if depth <= 0:
            ts = [t for t in ts if t["k"] not in ("ref", "struct", "list", "map")] or ts
        return instance(g, r.choice(ts), defs, depth)
    if k == "null":
        return None
    if k == "bool":
        return g.coin()
    if k == "int":
        return r.choice([0, 1, -5, 2**40])
    if k == "float":
        return r.choice([0, 1.5, -2.25, 3])
    if k in ("string", "bytes"):
        return r.choice(["", "abc", "é", "null", "x" * 50])
    if k == "enum":
        return r.choice(n["symbols"])
    if k == "list":
        return [instance(g, n["values"], defs, depth - 1) for _ in range(r.randint(0, 2) if depth > 0 else 0)]
    if k == "map":
        return {g.word(): instance(g, n["values"], defs, depth - 1) for _ in range(r.randint(0, 2) if depth > 0 else 0)}
    out = {}
    for f in n["fields"]:
        if optional(f, defs) and (depth <= 0 or g.coin(0.4)):
            continue
        out[f["x"]["name"]] = instance(g, f, defs, depth - 1, prop=True)
    if g.coin(0.1):
        out["additional " + g.ident()] = 1
    return out


JUNK = [None, True, 0, 1, 1.5, -3.0, "", "zz", [], [None], {}, {"q": 1}, [1], "A", "B"]


def mutate(g, v):
    """Change one spot of an instance."""
    v = copy.deepcopy(v)
    spots = []

    def visit(x, holder, key):
        spots.append((holder, key))
        if isinstance(x, dict):
            for k in x:
                visit(x[k], x, k)
        elif isinstance(x, list):
            for i, y in enumerate(x):
                visit(y, x, i)

    visit(v, None, None)
    h, k = g.r.choice(spots)
    j = copy.deepcopy(g.r.choice(JUNK))
    if h is None:
        if isinstance(v, dict) and g.coin(0.8):
            v[g.r.choice(["x", "y"])] = j
            return v
        return j
    if isinstance(h, dict) and g.coin(0.3):
        del h[k]
    else:
        h[k] = j
    return v


def gen(g, depth, scope, defs, member=False, value=False):
    """`scope`: aliases that may be referenced; every alias in it is in defs by the end."""
    r = g.r
    opts = ["bool", "int", "float", "string", "bytes", "enum", "builtin", "builtin"] + (["ref"] * 3 if scope else [])
    if not member:
        opts.append("null")
    if depth > 0:
        opts += ["list", "map", "struct", "struct"] + (["union"] * 3 if not member else [])
    k = r.choice(opts)
    sub = lambda **kw: gen(g, depth - 1, scope, defs, **kw)
    alias = g.fresh_alias() if k not in ("builtin", "ref") and g.coin(0.25) else None
    if alias and k in ("list", "map", "struct"):
        scope.append(alias)
    if k == "null":
        n = M.null()
    elif k == "bool":
        n = M.boolean()
    elif k == "int":
        n = M.integer(g.bits(), g.coin())
    elif k == "float":
        n = M.flt(g.bits())
    elif k in ("string", "bytes"):
        n = M.node(k, bytes=g.nbytes() if g.coin() else None, variable=True)
    elif k == "enum":
        n = M.enum(r.sample(["A", "B", "C", "zz", "", "é", "None", "null", "1"], r.randint(1, 3)))
    elif k == "builtin":
        b = r.choice(list(M.BUILTINS))
        n = M.ref(b) if g.coin() else copy.deepcopy(M.BUILTINS[b])
    elif k == "ref":
        unions = [a for a in scope if a in defs and defs[a]["k"] == "union"]
        n = M.ref(r.choice(unions if unions and not member and g.coin(0.7) else scope))
        if n["alias"] in defs and g.coin(0.35):
            n["x"]["default"] = None if g.coin(0.6) else g.json()
    elif k == "list":
        n = M.lst(sub(value=True))
    elif k == "map":
        n = M.mp(r.choice([M.string(), M.ref("string32"), M.string(M.G31)]), sub(value=True))
    elif k == "struct":
        n = M.struct(fields(g, depth, scope, defs))
    else:
        ts, used = [], set()
        for _ in range(r.randint(1, 3)):
            t = sub(member=True)
            try:
                ks = kinds(t, defs)
            except KeyError:
                ks = {"object", "array"}  # a reference to a type that is being made
            if not (ks & used) and "null" not in ks:
                used |= ks
                ts.append(t)
        if g.coin(0.7):
            ts.insert(r.randint(0, len(ts)) if g.coin(0.3) else 0, M.null())
        n = M.union(ts)
        if any(M.is_plain_null(t) for t in ts) and g.coin(0.6):
            n["x"]["default"] = None
        if alias or (value and g.coin(0.5)):
            # (see the known finding)
            n["x"].pop("default", None)
    if alias:
        n["alias"] = alias
        defs[alias] = n
        if alias not in scope:
            scope.append(alias)
    if g.coin(0.2):
        n["doc"] = g.word() or "d"
    return n


def fields(g, depth, scope, defs):
    out, names = [], set()
    for _ in range(g.few(0, 1, 2, 3, 4, most=16)):
        nm = g.r.choice(["id", "x", "y", "$ref", "type", "properties", "required", g.word(), g.word(), g.name()])
        if not nm or nm in names:
            continue
        names.add(nm)
        f = gen(g, depth - 1, scope, defs)
        f = dict(f, x=dict(f["x"], name=nm))
        if f["alias"] and f["k"] != "ref":
            defs[f["alias"]] = f
        plain = f["k"] != "ref" or f["alias"] in M.BUILTINS or f["alias"] in defs
        if plain and not (f["k"] == "union" and f["alias"]) and g.coin(0.2) and "default" not in f["x"]:
            f["x"]["default"] = g.json()
        out.append(f)
    return out


def grounded(n, defs):
    """Can a finite instance be made? (no struct that requires itself)"""

    def ok(n, seen):
        k = n["k"]
        if k == "ref":
            a = n["alias"]
            if a in M.BUILTINS:
                return True
            if a in seen:
                return False
            return ok(defs[a], seen | {a})
        if n["alias"]:
            seen = seen | {n["alias"]}
        if k == "union":
            return any(ok(t, seen) for t in n["types"]) if n["types"] else False
        if k in ("list", "map"):
            return True
        if k == "struct":
            return all(ok(f, seen) or optional(f, defs) for f in n["fields"])
        return True

    return all(ok(m, frozenset()) for m in M.walk(n) if m["k"] in ("struct", "union"))


def depth(v):
    """How deeply an instance is nested."""
    levels, now = 0, [v]
    while now:
        levels += 1
        now = [c for x in now if isinstance(x, (dict, list)) for c in (x.values() if isinstance(x, dict) else x)]
    return levels


def resolve_pointer(schema, s):
    while isinstance(s, dict) and "$ref" in s and set(s) <= {"$ref", "description", "default", "$defs"}:
        ref = s["$ref"]
        assert ref.startswith("#/$defs/"), ref
        s = schema.get("$defs", {}).get(ref[len("#/$defs/"):])
    return s


def check_docs(ck, schema, s, n, defs, w, seen=()):
    """Docs, defaults and required sets of a struct and the structs below it."""
    if n["alias"] and n["k"] != "ref":
        if n["alias"] in seen:
            return
        seen = seen + (n["alias"],)
        if not ck.expect(isinstance(s, dict) and "$ref" in s, "aliased type is not referenced", f"{n['alias']}: {s}", w):
            return
        s = resolve_pointer(schema, s)
        if not ck.expect(isinstance(s, dict), "definition is missing", f"{n['alias']}: {schema}", w):
            return
    k = n["k"]
    if n["doc"] and k != "ref":
        ck.expect(s.get("description") == n["doc"], "description lost", f"{n['doc']!r} vs {s.get('description')!r} of {n['x'].get('name')}", w)
    if "default" in n["x"]:
        ck.expect("default" in s and M.same(json.loads(json.dumps(n["x"]["default"])), s["default"]), "default lost", f"{n['x']} vs {s}", w)
    elif k not in ("ref", "union"):
        ck.expect("default" not in s, "default invented", f"{n['x']} vs {s}", w)
    if k == "ref" and n["doc"]:
        ck.expect(s.get("description") == n["doc"], "description lost", f"{n['doc']!r} vs {s}", w)
    if k == "struct":
        props = s.get("properties")
        if not ck.expect(isinstance(props, dict) and list(props) == [f["x"]["name"] for f in n["fields"]], "properties", f"{s} vs {[f['x']['name'] for f in n['fields']]}", w):
            return
        req = sorted(s.get("required", []))
        want = sorted(f["x"]["name"] for f in n["fields"] if not optional(f, defs))
        ck.expect(req == want, "required properties", f"{req} vs {want}", w)
        for f in n["fields"]:
            check_docs(ck, schema, props[f["x"]["name"]], f, defs, w, seen)
    elif k == "list":
        check_docs(ck, schema, s.get("items"), n["values"], defs, w, seen)
    elif k == "map":
        check_docs(ck, schema, s.get("additionalProperties"), n["values"], defs, w, seen)


def probes(ck):
    """Known finding: the definition of an aliased optional union loses its null."""
    u = M.union([M.null(), M.integer(32)], alias="k.Opt", x={"default": None})
    n = M.struct([dict(copy.deepcopy(u), x={"default": None, "name": "a"}), M.lst(M.ref("k.Opt"), x={"name": "b"})])
    schema = JSONSchemaConverter().from_recap(M.build(n))
    ok = outcome(lambda: Draft202012Validator(schema).is_valid({"b": [None, 3]}))
    ck.case(key="probe", family="probe")
    for bad in (M.struct([M.integer(32)]), M.struct([M.struct([M.boolean()], x={"name": "f"})]), M.struct([M.lst(M.struct([M.string()]), x={"name": "f"})])):
        o = outcome(JSONSchemaConverter().from_recap, M.build(bad))
        ck.expect(not o.ok, "field without a name accepted", f"{o}", bad)
    ck.expect(ok.ok and ok.value, "aliased-optional-union-loses-null", f"{json.dumps(schema)} rejects b=[null, 3]", n)


def run(ck):
    g = Gen(ck.rng)
    ck.need("instances accepted", 2000)
    ck.need("instances rejected", 2000)
    ck.need("recursive structs", 20)
    ck.need("references with a default", 100)
    ck.need("references with a default to a union", 40)
    ck.need("references with a default as values", 20)
    ck.need("references to types outside of the struct", 60)
    ck.need("dangling references", 100)
    if ck.first:
        probes(ck)
    for i in ck.loop(12000, 120000):
        defs, scope, library = {}, [], None
        if g.coin(0.3):
            # types that are only known to the registry
            library = M.struct(fields(g, ck.rng.choice([1, 2, 3]), scope, defs))
        root_alias = g.fresh_alias() if g.coin(0.4) else None
        if root_alias:
            scope.append(root_alias)
        n = M.struct(fields(g, ck.rng.choice([1, 2, 3, 4]), scope, defs))
        if root_alias:
            n["alias"] = root_alias
            defs[root_alias] = n
        if g.coin(0.3):
            n["doc"] = "root doc"
        outside = {m["alias"]: M.bare(m) for m in M.walk(library) if m["alias"] and m["k"] != "ref"} if library else {}
        defs = {**outside, **{m["alias"]: m for m in M.walk(n) if m["alias"] and m["k"] != "ref"}}
        whole = M.struct([n] + [dict(f) for f in library["fields"]]) if library else n
        if any(m["k"] == "ref" and m["alias"] not in defs and m["alias"] not in M.BUILTINS for m in M.walk(whole)):
            ck.event("skipped: dangling")
            continue
        if not grounded(whole, defs) or any(m["k"] == "union" and len(m["types"]) == 0 for m in M.walk(whole)):
            ck.event("skipped: not grounded")
            continue
        if bad_union(whole, defs):
            ck.event("skipped: overlapping union")
            continue
        judge(ck, g, n, defs, library)
        if library:
            used = {m["alias"] for m in M.walk(n) if m["k"] == "ref"} & set(outside)
            ck.event("references to types outside of the struct", len(used))
        if i % 10 == 0 and not library:
            dangling(ck, g, n)


def dangling(ck, g, n):
    """A reference to a name that nothing defines can't resolve in the schema either."""
    n = copy.deepcopy(n)
    bad = M.ref(g.r.choice(["nowhere.T", "a.b.Missing", f"{g.fresh_alias()}x"]), x={"name": "dangling ref"})
    if g.coin(0.4):
        bad = g.r.choice([M.lst, M.lst, lambda v: M.mp(M.string(), v), lambda v: M.union([M.null(), v])])(M.ref(bad["alias"]))
        bad["x"]["name"] = "dangling ref"
    hosts = [m for m in M.walk(n) if m["k"] == "struct"]
    g.r.choice(hosts)["fields"].append(bad)
    o = outcome(JSONSchemaConverter().from_recap, M.build(n))
    ck.case(key=n, family="dangling")
    ck.event("dangling references")
    ck.expect(not o.ok, "wrote a reference that doesn't resolve", f"{o}", n)


def bad_union(n, defs):
    for m in M.walk(n):
        if m["k"] == "union":
            used = set()
            for t in m["types"]:
                ks = kinds(t, defs)
                if ks & used:
                    return True
                used |= ks
    return False


def judge(ck, g, n, defs, library=None):
    w = (library, n) if library else n
    reg = T.RecapTypeRegistry()
    if library:
        M.build(copy.deepcopy(library), reg)
    t = M.build(copy.deepcopy(n), reg)
    o = outcome(JSONSchemaConverter().from_recap, t)
    ck.case(sample=n, family="struct")
    if not ck.expect(o.ok, "refused", f"{o}", w):
        return
    for m in M.walk(n):
        if m["k"] == "ref" and m["alias"] in defs and "default" in m["x"]:
            ck.event("references with a default")
            if defs[m["alias"]]["k"] == "union":
                ck.event("references with a default to a union")
        if m["k"] in ("list", "map") and m["values"]["k"] == "ref" and m["values"]["alias"] in defs and "default" in m["values"]["x"]:
            ck.event("references with a default as values")
    if any(m["k"] == "ref" and m["alias"] not in M.BUILTINS for m in M.walk(n)):
        ck.event("recursive structs" if n["alias"] else "structs with references")
    schema = outcome(lambda: json.loads(json.dumps(o.value)))
    if not ck.expect(schema.ok, "not JSON", f"{schema}", w):
        return
    schema = schema.value
    v = outcome(Draft202012Validator.check_schema, schema)
    if not ck.expect(v.ok, "not a valid schema", f"{v}: {json.dumps(schema)}", w):
        return
    check_docs(ck, schema, schema, n, defs, w)
    val = Draft202012Validator(schema)
    for _ in range(3):
        try:
            inst = instance(g, n, defs)
        except RecursionError:
            ck.event("skipped: instance too deep")
            continue
        if depth(inst) > 40:
            # the validator needs many more frames per level than the generator
            ck.event("skipped: instance too deep")
            continue
        batch = [inst] + [mutate(g, inst) for _ in range(5)]
        for f in n["fields"]:
            nm = f["x"]["name"]
            if nm in inst:
                b = copy.deepcopy(inst)
                del b[nm]
                batch.append(b)
                batch.append({**inst, nm: None})
            else:
                batch.append({**inst, nm: None})
        for b in batch:
            want = fits(n, b, defs)
            got = outcome(val.is_valid, b)
            ck.case(key=(json.dumps(schema, sort_keys=True), json.dumps(b, sort_keys=True)), family="instance")
            if ck.expect(got.ok, "schema can't be used", f"{got}: {json.dumps(schema)}", w):
                ck.event("instances accepted" if want else "instances rejected")
                ck.expect(got.value == want, "wrongly accepted" if got.value else "wrongly rejected", f"{json.dumps(b)} for {json.dumps(schema)}", (n, b))
