"""C10: ProtobufConverter.to_recap."""
import copy, io, json, sys
from recap import types as T
from recap.converters.protobuf import ProtobufConverter
from rv import model as M, protogen as P
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C10", "exploration"
RULE = ("seeded random proto files generated together with the struct they describe (all scalar types, the supported well-known types, nested/forward/recursive/qualified "
        "references, all cardinalities, maps, oneofs, enums, comments, options, package anywhere), read by a fresh converter and compared after resolving every reference, then "
        "serialised and read again; plus files with one injected defect that must be refused; non-trivial = distinct file text")
ASSUMPTIONS = ["message and enum names are unique within a file and nested types are referenced by simple or package-qualified name",
               "fields without a cardinality read as nullable with default null", "refusal may happen on reading or on resolving the reference"]


def read(text, ns=None):
    return ProtobufConverter(ns).to_recap(text) if ns else ProtobufConverter().to_recap(text)


def resolved(t):
    return M.snap_resolved(t, keep_alias=True)


def fields_only(n, field=False):
    """Without the names of nodes that aren't struct fields: a definition keeps the name of
    the field it was made for, and references to it elsewhere inherit that."""
    m = M.map_children(n, lambda c: fields_only(c, n["k"] == "struct")) if n["k"] != "rec" else n
    if not field and "x" in m:
        m["x"].pop("name", None)
    return m


def spots(f):
    out = []

    def visit(d):
        k = P.kindof(d)
        if k in ("f", "map"):
            out.append(d)
        elif k == "o":
            for c in d["fields"]:
                out.append(c)
        elif k == "m":
            for b in d["body"]:
                visit(b)

    for d in f["types"]:
        visit(d)
    return out


def reachable(f, ns):
    """ids of the fields reachable from the root message."""
    decl = P.declared(f)
    roots = [d for d in f["types"] if "m" in d]
    todo, seen, out = [roots[0]], set(), []
    while todo:
        m = todo.pop()
        if id(m) in seen or "e" in m:
            continue
        seen.add(id(m))
        for b in m["body"]:
            k = P.kindof(b)
            for c in (b["fields"] if k == "o" else [b] if k in ("f", "map") else []):
                out.append(c)
                t = c["t"].rsplit(".", 1)[-1]
                if c["t"].lstrip(".") not in P.SCALARS:
                    todo.append(decl[t])
    return out


def systematic():
    for t, f in P.SCALARS.items():
        for dot in (["", "."] if "." in t else [""]):
            for c in (None, "optional", "required", "repeated"):
                yield {"package": "p", "types": [{"m": "M", "body": [{"f": "x", "no": 1, "t": dot + t, "c": c}]}]}
            for k in P.KEYS:
                yield {"package": None, "types": [{"m": "M", "body": [{"map": "x", "no": 1, "kt": k, "t": dot + t}]}]}
            yield {"package": None, "types": [{"m": "M", "body": [{"o": "o", "fields": [{"f": "x", "no": 1, "t": dot + t, "c": None}, {"f": "y", "no": 2, "t": "bool", "c": None}]}]}]}
            # the same type three messages away from the root
            yield {"package": "p.q", "types": [{"m": "M", "body": [{"f": "a", "no": 1, "t": "N", "c": None}, {"f": "b", "no": 2, "t": "p.q.N", "c": "repeated"}]},
                                               {"m": "N", "body": [{"map": "c", "no": 1, "kt": "string", "t": ".p.q.O"}]}, {"m": "O", "body": [{"f": "x", "no": 9, "t": t, "c": None}]}]}


def compare(ck, f, text, ns=None):
    want, defs = P.meaning(f, ns or "_root")
    want = M.expand(want, defs, keep_alias=True)
    o = outcome(read, text, ns)
    if not ck.expect(o.ok, "valid file refused", f"{o}:\n{text}", text):
        return None
    ck.event("files read")
    r = outcome(resolved, o.value)
    if not ck.expect(r.ok, "reference does not resolve", f"{r}:\n{text}", text):
        return None
    ck.expect(M.same(want, r.value), "misread", f"{M.diff(want, r.value)}:\n{text}", text)
    aliases = [n["alias"] for n in M.walk(M.snap(o.value)) if n["k"] != "ref" and n["alias"]]
    ck.event("named types", len(aliases))
    ck.expect(len(aliases) == len(set(aliases)), "type defined more than once", f"{aliases}:\n{text}", text)
    back = outcome(lambda: resolved(T.from_dict(json.loads(json.dumps(T.to_dict(o.value))))))
    ck.expect(back.ok and M.same(fields_only(M.normal(want)), fields_only(M.normal(back.value))), "result can't be serialised and read again",
              f"{back if not back.ok else M.diff(fields_only(M.normal(want)), fields_only(M.normal(back.value)))}:\n{text}", text)
    return o.value


def run(ck):
    g = Gen(ck.rng)
    pg = P.ProtoGen(g)
    ck.need("files read", 1000)
    ck.need("references", 500)
    ck.need("refusals expected", 300)
    for f in ck.share(systematic()):
        text = P.text(f)
        ck.case(key=text, family="systematic")
        compare(ck, f, text)
    for i in ck.loop(5000, 90000):
        f = pg.generate()
        ns = None if g.coin(0.8) else "my.ns"
        if not [d for d in f["types"] if "m" in d]:
            continue
        syntax = g.r.choice(["proto2", "proto3"])
        text = P.text(f, g.r, syntax)
        ck.case(sample=text, family="file")
        ck.event("references", sum(1 for s in spots(f) if s["t"].lstrip(".") not in P.SCALARS))
        compare(ck, f, text, ns)
        # one defect, reachable from the root message
        bad = copy.deepcopy(f)
        where = reachable(bad, None)
        kind = g.r.choice(["unknown", "unknown", "wkt", "mapkey", "dup", "nomsg", "mapkeymsg"])
        if kind in ("unknown", "wkt") and where:
            s = g.r.choice(where)
            s["t"] = g.r.choice(["Nope", "p.Nope", ".a.b.Nope", "a.B", "other.A", "String", "int", "int16", "Int32", "google.protobuf.timestamp"]) if kind == "unknown" else "google.protobuf." + g.r.choice(["Any", "Struct", "Empty", "FieldMask", "Value"])
            if s["t"] in P.declared(bad):
                continue
        elif kind in ("mapkey", "mapkeymsg"):
            maps = [s for s in spots(bad) if "map" in s]
            if not maps:
                continue
            g.r.choice(maps)["kt"] = g.r.choice(["float", "double", "bytes"]) if kind == "mapkey" else [d["m"] for d in bad["types"] if "m" in d][0]
        elif kind == "dup":
            d = g.r.choice(list(P.declared(bad).values()))
            bad["types"].append(copy.deepcopy(d))
        elif kind == "nomsg":
            bad["types"] = [d for d in bad["types"] if "e" in d]
        else:
            continue
        text = P.text(bad, g.r, syntax)
        ck.case(key=text, family="invalid: " + kind)
        ck.event("refusals expected")
        sys.stderr = io.StringIO()  # the parser reports syntax errors there
        o = outcome(lambda: resolved(read(text)))
        sys.stderr = sys.__stderr__
        ck.expect(not o.ok, "invalid file accepted", f"{kind}: {o}\n{text}", text)
