"""C11: ProtobufConverter.from_recap."""
import copy
from google.protobuf import descriptor_pb2, descriptor_pool, duration_pb2, struct_pb2, timestamp_pb2
from proto_schema_parser.generator import Generator
from proto_schema_parser.parser import Parser
from recap.converters.protobuf import ProtobufConverter
from rv import model as M, protogen as P
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C11", "exploration"
RULE = ("seeded random structs (all kinds, boundary widths and lengths, nullable and multi-member unions, lists, maps, nested and cross-package named types, references, aliased "
        "scalars) written by a fresh converter; the file is rendered to text, parsed again, loaded into the protobuf runtime's descriptor pool, compared with an independent writer, "
        "and read back; structs with one construct Protobuf lacks must be refused; non-trivial = distinct struct")
ASSUMPTIONS = ["struct fields are named, names are unique per message and no name is of the form field_<n>", "enums have at least one symbol and symbols are unique per package",
               "a list's or nullable union's member that carries a name of its own gives the field its name",
               "null inside list elements and map keys/values has no Protobuf form and is dropped", "google types are referenced without an import"]
LOGICALS = ["build.recap.UUID", "build.recap.Decimal", "build.recap.Time", "build.recap.Timestamp", "build.recap.Date", "build.recap.Duration", "build.recap.Interval", "my.Logical"]
KEYS = {"bool", "int32", "int64", "uint32", "uint64", "string"}


# ---- reference writer -----------------------------------------------------
def write(n, defs, no):
    """node of a field -> (model element, numbers used) or Refused."""
    name = n["x"].get("name", f"field_{no}")
    f = lambda t: {"f": name, "no": no, "t": t, "c": None}
    k = n["k"]
    if k == "ref":
        target = defs.get(n["alias"]) or M.BUILTINS.get(n["alias"])
        if target is None:
            raise M.Refused("undefined")
        if target["k"] in ("struct", "enum"):
            if n["x"].keys() & {"symbols", "fields"}:
                raise M.Refused("another struct or enum than the declared one")
            return f("." + n["alias"])
        t = M.apply_ref(target, n)
        t["x"]["name"] = name
        return write(t, defs, no)
    if k == "null":
        return f("google.protobuf.NullValue")
    if k == "bool":
        return f("bool")
    if k == "int":
        if n["bits"] > 64:
            raise M.Refused("wide int")
        return f(("" if n["signed"] else "u") + ("int32" if n["bits"] <= 32 else "int64"))
    if k == "float":
        if n["bits"] > 64:
            raise M.Refused("wide float")
        return f("float" if n["bits"] <= 32 else "double")
    if k in ("string", "bytes"):
        if n["bytes"] is None or n["bytes"] > M.G31:
            raise M.Refused("long " + k)
        return f(k)
    if k in ("struct", "enum"):
        if n["alias"] is None:
            raise M.Refused("no alias")
        return f("." + n["alias"])
    if k == "list":
        e = write(n["values"], defs, no)
        if "f" not in e or e["c"] == "repeated":
            raise M.Refused("list of list/map/union")
        return {"f": n["values"]["x"].get("name", name), "no": no, "t": e["t"], "c": "repeated"}
    if k == "map":
        ke, ve = write(n["keys"], defs, no), write(n["values"], defs, no)
        if "f" not in ke or ke["t"] not in KEYS or ke["c"] == "repeated":
            raise M.Refused("map key")
        if "f" not in ve or ve["c"] == "repeated":
            raise M.Refused("map value")
        return {"map": name, "no": no, "kt": ke["t"], "t": ve["t"]}
    rest = [t for t in n["types"] if t["k"] != "null"]
    if not rest:
        raise M.Refused("no member")
    if len(rest) == 1:
        e = write(rest[0], defs, no)
        key = P.kindof(e)
        e = {**e, key: e[key] if "name" in rest[0]["x"] else name}
        if key == "f" and e["c"] != "repeated":
            e["c"] = "optional"
        return e
    out = []
    for i, t in enumerate(rest):
        e = write(t, defs, no + i)
        if "f" not in e or e["c"]:
            raise M.Refused("union member")
        out.append(e)
    return {"o": name, "fields": out}


def reference(n, defs):
    """-> {full name: declaration body} or Refused."""
    out = {}
    for t in M.walk(n):
        if t["k"] == "struct":
            if not t["alias"]:
                raise M.Refused("no alias")
            body, no = [], 1
            for c in t["fields"]:
                e = write(c, defs, no)
                body.append(e)
                no += len(e["fields"]) if "o" in e else 1
            out[t["alias"]] = body
        elif t["k"] == "enum":
            if not t["alias"]:
                raise M.Refused("no alias")
            out[t["alias"]] = list(t["symbols"])
    pkgs = {a.rsplit(".", 1)[0] for a in out}
    root = min(pkgs)
    messages = {a for a, b in out.items() if not b or isinstance(b[0], dict)} - {t["alias"] for t in M.walk(n) if t["k"] == "enum"}
    for p in pkgs:
        if p != root and not (p.startswith(root + ".") and p in messages):
            raise M.Refused("several packages")
    return root, out


# ---- generator ------------------------------------------------------------
class Writer:
    def __init__(self, g):
        self.g, self.r = g, g.r

    def struct(self):
        self.pkg = self.r.choice(["p", "a.b", "com.example.v1"])
        self.count = 0
        self.open = []
        self.names = []
        self.inline = []
        self.sy = 0
        self.fn = 0
        self.messages = []
        self.kinds = {}
        return self.msg(3, root=True)

    def field_name(self):
        self.fn += 1
        n = self.r.choice(["id", "value", "x", "name", "n", "list"]) + f"q{self.fn}"
        return n if self.g.coin() else f"p{self.fn}_{self.g.name()}" if self.g.coin() else f"{self.g.name().lstrip('_0123456789')}nq{self.fn}"

    def alias(self, enum=False):
        self.count += 1
        name = f"{'E' if enum else 'M'}{self.count}"
        if self.g.coin(0.3):
            name = f"{self.g.name()}{name}"
        c = self.r.random()
        if c < 0.75 or not self.open:
            return f"{self.pkg}.{name}"
        return f"{self.r.choice(self.messages)}.{name}"

    def msg(self, depth, root=False):
        a = f"{self.pkg}.Root" if root else self.alias()
        self.open.append(a)
        self.messages.append(a)
        self.names.append(a)
        fields = []
        for _ in range(self.r.choice([0, 1, 2, 3, 5]) if not root else self.r.choice([1, 2, 3, 4, 6]) if self.g.coin(0.95) else self.r.randint(7, 25)):
            f = self.node(depth - 1, "field")
            f["x"]["name"] = self.field_name()
            fields.append(f)
        self.open.pop()
        return M.struct(fields, alias=a)

    def scalar(self):
        n = self.plain_scalar()
        if self.g.coin(0.12):
            # logical types and attributes don't change what fits
            if n["k"] != "ref":
                n["logical"] = self.r.choice(LOGICALS + [self.g.word() or "l"])
            if self.g.coin():
                n["x"].update(self.r.choice([{"unit": "millisecond"}, {"precision": 5, "scale": 2}, {"unit": "day", "timezone": "UTC"}, {"zzz": [1]}]))
            if self.g.coin(0.3):
                n["x"]["default"] = self.g.json()
            self.g.counter += 1
        return n

    def plain_scalar(self):
        r, g = self.r, self.g
        c = r.random()
        if c < 0.1:
            return M.null()
        if c < 0.2:
            return M.boolean()
        if c < 0.45:
            return M.integer(g.intval(1, 64, [1, 8, 16, 31, 32, 33, 63, 64, 64, 32]) if g.coin(0.97) else r.choice([65, 66, 96, 128, 129, 256, 2**31 - 1]), g.coin(0.6))
        if c < 0.55:
            return M.flt(g.intval(1, 64, [16, 32, 33, 64, 64, 1]) if g.coin(0.97) else r.choice([65, 80, 128]))
        if c < 0.8:
            b = g.intval(1, 2**31, [1, 36, 255, 65536, 2**31 - 1, 2**31]) if g.coin(0.97) else r.choice([None, 2**31 + 1, M.I63])
            return M.node(r.choice(["string", "bytes"]), bytes=b, variable=b is None or g.coin())
        return M.ref(r.choice([a for a in M.BUILTINS if a not in ("string64", "bytes64")]))

    def node(self, depth, where):
        """where: field, item (list element), value (map value), member (union member)."""
        r, g = self.r, self.g
        c = r.random()
        odd = 0.015  # constructs without a Protobuf form
        if depth <= 0 and c > 0.5:
            c *= 0.5
        n = None
        if c < 0.4:
            n = self.scalar()
        elif c < 0.5:
            if self.names or self.inline:
                n = M.ref(r.choice(self.names + self.inline * 2))
                k = self.kinds.get(n["alias"])
                if k in ("int", "float") and g.coin(0.4):
                    n["x"]["bits"] = r.choice([8, 16, 32, 33, 64]) if g.coin(0.95) else r.choice([65, 128])
                elif k in ("string", "bytes") and g.coin(0.4):
                    n["x"]["bytes"] = r.choice([1, 36, M.G31]) if g.coin(0.95) else r.choice([M.G31 + 1, M.I63])
                elif k == "int" and g.coin(0.4):
                    n["x"]["signed"] = g.coin()
                elif k is None and g.coin(odd):
                    n["x"].update({"symbols": ["OVR"]} if g.coin() else {"fields": [{"type": "bool", "name": "ovr"}]})
                elif g.coin(odd):
                    # nothing defines it
                    n["alias"] = r.choice([n["alias"] + "x", f"{self.pkg}.Missing", "nowhere.Missing"])
            else:
                n = self.scalar()
        elif c < 0.58:
            k = g.few(1, 2, 3, 5)
            self.sy += 1
            syms = [f"S{self.sy}_{i}" for i in range(k)] if g.coin() else [f"S{self.sy}_{s}" for s in g.names(k)] if g.coin() else [f"{s}_S{self.sy}" for s in g.names(k)]
            if g.coin(0.3):
                syms = [f"{s}_{r.choice(g.strs)}" if r.choice(g.strs).isidentifier() else s for s in syms]
                syms = ["".join(x if x.isascii() and (x.isalnum() or x == "_") else "_" for x in s) for s in syms]
            r.shuffle(syms)
            n = M.enum(syms, alias=self.alias(True) if not g.coin(odd) else None)
            if n["alias"]:
                self.names.append(n["alias"])
            return n
        elif c < 0.68:
            n = self.msg(depth)
            if g.coin(odd):
                n["alias"] = None
            return n
        elif where == "field" or g.coin(odd * 3):
            if c < 0.76:
                n = M.lst(self.node(depth - 1, "item"), *([5, g.coin()] if g.coin(0.1) else []))
            elif c < 0.84:
                kn = self.key() if g.coin(0.97) else r.choice([M.byts(5), M.flt(32), M.null(), M.lst(M.integer(32)), M.enum(["K1"], alias=self.alias(True))])
                n = M.mp(kn, self.node(depth - 1, "value"))
            elif c < 0.92:
                sub = self.node(depth - 1, "field" if g.coin(0.3) else "single")
                if g.coin(0.1):
                    sub["x"]["name"] = self.field_name()
                ts = [sub]
                if g.coin(0.8):
                    ts.insert(r.randint(0, 1), M.null())
                n = M.union(ts)
                if g.coin():
                    n["x"]["default"] = None
            else:
                ts = []
                for _ in range(r.randint(2, 4) if g.coin(0.9) else r.randint(5, 12)):
                    t = self.node(depth - 1, "member")
                    if g.coin(0.8):
                        t["x"]["name"] = self.field_name()
                    ts.append(t)
                if g.coin(0.6):
                    ts.insert(r.randint(0, len(ts)), M.null())
                n = M.union(ts if not g.coin(odd) else [M.null()])
        else:
            n = self.scalar()
        if where == "item" and g.coin(0.08) and n["k"] not in ("list", "map", "union"):
            n["x"]["name"] = self.field_name()
        if g.coin(0.1):
            n["doc"] = g.word()
        if n["k"] not in ("struct", "enum", "ref") and n["alias"] is None and where == "field" and g.coin(0.08):
            self.count += 1
            n["alias"] = f"{self.pkg}.T{self.count}"
            if not any(t["k"] in ("struct", "enum") or t["x"].keys() & {"name", "bits"} for t in M.walk(n)):
                self.inline.append(n["alias"])
                self.kinds[n["alias"]] = n["k"]
        return n

    def key(self):
        r, g = self.r, self.g
        return r.choice([M.boolean(), M.integer(r.choice([8, 32, 33, 64]), g.coin()), M.string(r.choice([1, 255, 2**31])), M.ref("int32"), M.ref("uint64"), M.ref("string32"), M.ref("uuid")])


# ---- the protobuf runtime as validity oracle --------------------------------
SCALAR_NO = {"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "bool": 8, "string": 9, "bytes": 12, "uint32": 13}


def load(f):
    pool = descriptor_pool.DescriptorPool()
    fd = descriptor_pb2.FileDescriptorProto(name="t.proto", package=f["package"], syntax="proto3")
    for m in (struct_pb2, timestamp_pb2, duration_pb2):
        d = descriptor_pb2.FileDescriptorProto()
        m.DESCRIPTOR.CopyToProto(d)
        pool.Add(d)
        fd.dependency.append(d.name)
    enums = set()

    def collect(d, path):
        if "e" in d:
            enums.add("." + path + "." + d["e"])
        elif "m" in d:
            for b in d["body"]:
                collect(b, path + "." + d["m"])

    for d in f["types"]:
        collect(d, f["package"])

    def put(fp, t):
        if t in SCALAR_NO:
            fp.type = SCALAR_NO[t]
        else:
            fp.type_name = t if t.startswith(".") else "." + t
            fp.type = 14 if t in enums or t.endswith("protobuf.NullValue") else 11

    def enum(d, ep):
        ep.name = d["e"]
        for s, v in d["symbols"]:
            ep.value.add(name=s, number=v)

    def message(d, mp):
        mp.name = d["m"]
        late = []
        for b in d["body"]:
            k = P.kindof(b)
            if k == "m":
                message(b, mp.nested_type.add())
            elif k == "e":
                enum(b, mp.enum_type.add())
            elif k == "map":
                fp = mp.field.add(name=b["map"], number=b["no"], label=3)
                ename = "".join(w[:1].upper() + w[1:] for w in b["map"].split("_")) + "Entry"
                e = mp.nested_type.add(name=ename)
                e.options.map_entry = True
                put(e.field.add(name="key", number=1, label=1), b["kt"])
                put(e.field.add(name="value", number=2, label=1), b["t"])
                fp.type, fp.type_name = 11, f".{path_of(mp_path, d)}.{ename}"
            elif k == "o":
                idx = len(mp.oneof_decl)
                mp.oneof_decl.add(name=b["o"])
                for c in b["fields"]:
                    fp = mp.field.add(name=c["f"], number=c["no"], label=1, oneof_index=idx)
                    put(fp, c["t"])
            else:
                fp = mp.field.add(name=b["f"], number=b["no"], label=3 if b["c"] == "repeated" else 1)
                put(fp, b["t"])
                if b["c"] == "optional":
                    late.append(fp)
        for fp in late:
            fp.proto3_optional = True
            fp.oneof_index = len(mp.oneof_decl)
            mp.oneof_decl.add(name="_" + fp.name)

    mp_path = {}

    def paths(d, path):
        if "m" in d:
            mp_path[id(d)] = path + "." + d["m"]
            for b in d["body"]:
                paths(b, mp_path[id(d)])

    for d in f["types"]:
        paths(d, f["package"])

    def path_of(table, d):
        return table[id(d)]

    for d in f["types"]:
        if "m" in d:
            message(d, fd.message_type.add())
        else:
            enum(d, fd.enum_type.add())
    pool.Add(fd)
    loaded = pool.FindFileByName("t.proto")
    return loaded


def flat(f):
    """{full name: body} of a file model; refuses doubly declared names."""
    out = {}

    def visit(d, path):
        k = P.kindof(d)
        if k not in ("m", "e"):
            return
        name = f"{path}.{d[k]}"
        if name in out:
            raise ValueError("declared twice: " + name)
        if k == "e":
            if [v for _, v in d["symbols"]] != list(range(len(d["symbols"]))):
                raise ValueError(f"enum numbers {d}")
            out[name] = [s for s, _ in d["symbols"]]
        else:
            out[name] = [b for b in d["body"] if P.kindof(b) not in ("m", "e")]
            for b in d["body"]:
                visit(b, name)

    for d in f["types"]:
        visit(d, f["package"])
    return out


def well_formed(f, decls):
    for name, body in decls.items():
        if body and isinstance(body[0], str):
            if len(set(body)) != len(body):
                raise ValueError(f"symbols {body}")
            continue
        fields = [c for b in body for c in (b["fields"] if "o" in b else [b])]
        nos = [c["no"] for c in fields]
        names = [c.get("f", c.get("map")) for c in fields] + [b["o"] for b in body if "o" in b]
        if len(set(nos)) != len(nos) or (nos and min(nos) < 1):
            raise ValueError(f"{name}: numbers {nos}")
        if len(set(names)) != len(names):
            raise ValueError(f"{name}: names {names}")
        for c in fields:
            t = c["t"]
            if t not in SCALAR_NO and not t.startswith("google.protobuf."):
                if t.lstrip(".") not in decls:
                    raise ValueError(f"{name}: {t} isn't defined")


def check_one(ck, n, cause=None):
    defs = {t["alias"]: t for t in M.walk(n) if t["alias"] and t["k"] != "ref"}
    try:
        want = reference(n, defs)
    except M.Refused as e:
        want = None
        cause = cause or str(e)
    t = M.build(n)
    ck.case(sample=n, family="refused struct" if want is None else "struct")
    o = outcome(ProtobufConverter().from_recap, t)
    if want is None:
        ck.event("refusals expected")
        ck.event("refusal: " + cause)
        ck.expect(not o.ok, "type without Protobuf form written", f"{cause}: {o}\n{n}", n)
        return
    if not ck.expect(o.ok, "supported struct refused", f"{o}\n{n}", n):
        return
    ck.event("files written")
    text = Generator().generate(o.value)
    p = outcome(lambda: P.from_ast(Parser().parse(text)))
    if not ck.expect(p.ok, "file can't be parsed", f"{p}\n{text}", n):
        return
    f = p.value
    ck.expect(f == P.from_ast(o.value), "parsed file differs from the returned one", text, n)
    d = outcome(flat, f)
    if not ck.expect(d.ok, "invalid file", f"{d}\n{text}", n):
        return
    w = outcome(well_formed, f, d.value)
    ck.expect(w.ok, "invalid file", f"{w}\n{text}", n)
    root, decls = want
    ck.expect(f["package"] == root, "wrong package", f"{f['package']} instead of {root}\n{text}", n)
    ck.expect(M.same(decls, d.value), "file differs from the type", f"{M.diff(decls, d.value)}\n{text}", n)
    v = outcome(load, f)
    ck.event("files loaded by the protobuf runtime", int(v.ok))
    ck.expect(v.ok, "protobuf runtime rejects the file", f"{v}\n{text}", n)
    # reading it back
    flatnames = all(a.rsplit(".", 1)[0] == root for a in decls)
    if flatnames:
        r = outcome(lambda: M.snap_resolved(ProtobufConverter().to_recap(text), keep_alias=True))
        if ck.expect(r.ok, "written file can't be read", f"{r}\n{text}", n):
            ck.event("files read back")
            ck.expect(r.value["alias"] == n["alias"], "reading returns another message", f"{r.value['alias']} instead of {n['alias']}\n{text}", n)
            m, ds = P.meaning(f)
            exp = M.expand(ds[n["alias"]], ds, keep_alias=True)
            ck.expect(M.same(exp, r.value), "read back differently", f"{M.diff(exp, r.value)}\n{text}", n)
    return True


def odd_cases(g):
    """Each construct without a Protobuf form, at each position; and boundaries that have one."""
    I = lambda: M.integer(32)
    bad = {
        "int65": M.integer(65), "uint65": M.integer(65, False), "int128": M.integer(128), "float65": M.flt(65), "float128": M.flt(128),
        "string none": M.string(), "string 2^31+1": M.string(M.G31 + 1), "bytes none": M.byts(), "bytes 2^31+1": M.byts(M.G31 + 1), "string64": M.ref("string64"), "bytes64": M.ref("bytes64"),
        "struct without alias": M.struct([]), "enum without alias": M.enum(["A"]),
        "list of lists": M.lst(M.lst(I())), "list of maps": M.lst(M.mp(M.string(5), I())), "list of unions": M.lst(M.union([I(), M.string(5)])),
        "list of optional lists": M.lst(M.union([M.null(), M.lst(I())])),
        "map float key": M.mp(M.flt(32), I()), "map bytes key": M.mp(M.byts(5), I()), "map null key": M.mp(M.null(), I()), "map enum key": M.mp(M.enum(["K"], alias="p.K"), I()),
        "map struct key": M.mp(M.struct([], alias="p.K"), I()), "map list key": M.mp(M.lst(I()), I()), "map list value": M.mp(I(), M.lst(I())), "map map value": M.mp(I(), M.mp(I(), I())),
        "map union value": M.mp(I(), M.union([I(), M.boolean()])), "null union": M.union([M.null()]), "empty union": M.union([]),
        "union of lists": M.union([M.lst(I(), x={"name": "m1"}), M.boolean(x={"name": "m2"})]), "union of maps": M.union([M.mp(I(), I(), x={"name": "m1"}), M.boolean(x={"name": "m2"})]),
        "union of unions": M.union([M.union([I(), M.string(3)], x={"name": "m1"}), M.boolean(x={"name": "m2"})]),
        "union of nullables": M.union([M.union([M.null(), I()], x={"name": "m1"}), M.boolean(x={"name": "m2"})]),
        "other package struct": M.struct([], alias="q.Other"), "other package enum": M.enum(["X1"], alias="q.Other"), "prefix package": M.struct([], alias="pp.Other"),
        "package of an enum": None, "subpackage that isn't a message": M.struct([], alias="p.sub.Other"),
    }
    for what, b in bad.items():
        if b is None:
            yield what, M.struct([M.enum(["A1"], alias="p.En", x={"name": "a"}), M.struct([], alias="p.En.In", x={"name": "b"})], alias="p.R")
            continue
        for pos in ("field", "nullable", "nested", "list", "map", "member"):
            n = copy.deepcopy(b)
            if pos == "field":
                n["x"]["name"] = "f"
            elif pos == "nullable":
                n = M.union([M.null(), n], x={"name": "f", "default": None})
            elif pos == "nested":
                n["x"]["name"] = "f"
                n = M.struct([I() | {"x": {"name": "z"}}, n], alias="p.Nested", x={"name": "g"})
            elif pos == "list":
                n = M.lst(n, x={"name": "f"})
            elif pos == "map":
                n = M.mp(M.string(5), n, x={"name": "f"})
            else:
                n["x"]["name"] = "f1"
                n = M.union([M.boolean(x={"name": "f2"}), n], x={"name": "f"})
            yield f"{what} as {pos}", M.struct([M.boolean(x={"name": "first"}), n], alias="p.R")


def boundaries():
    for bits in list(range(1, 65)):
        for s in (True, False):
            yield M.integer(bits, s)
    for bits in range(1, 65):
        yield M.flt(bits)
    for b in (1, 2**31 - 1, 2**31):
        yield M.string(b)
        yield M.byts(b)
        yield M.string(b, False)
    for a in M.BUILTINS:
        yield M.ref(a)
    yield M.boolean()
    yield M.null()


def run(ck):
    g = Gen(ck.rng)
    w = Writer(g)
    ck.need("files written", 800)
    ck.need("refusals expected", 100)
    ck.need("files loaded by the protobuf runtime", 800)
    ck.need("files read back", 300)
    for what, n in ck.share(odd_cases(g)):
        check_one(ck, n, what)
    for n in ck.share(boundaries()):
        c = lambda nm: dict(copy.deepcopy(n), x=dict(n["x"], name=nm))
        check_one(ck, M.struct([c("a"), M.lst(copy.deepcopy(n), x={"name": "b"}), M.union([M.null(), copy.deepcopy(n)], x={"name": "c"}) if n["k"] != "null" else c("cc"),
                                M.mp(M.string(9), copy.deepcopy(n), x={"name": "d"})], alias="p.R"))
        check_one(ck, M.struct([M.union([c("a"), M.boolean(x={"name": "bb"}), c("b2")], x={"name": "u"}), c("after")], alias="p.R"))
    for i in ck.loop(16000, 150000):
        check_one(ck, w.struct())
