"""A plain-data model of proto files, its text form, its meaning as a Recap type, and
generators.

File: {"package": str|None, "types": [message|enum, ...]}
message: {"m": name, "body": [field|map|oneof|message|enum]}; enum: {"e": name, "symbols": [(name, number)]}
field: {"f": name, "no": n, "t": type, "c": None|"optional"|"required"|"repeated"}
map: {"map": name, "no": n, "kt": type, "t": type}; oneof: {"o": name, "fields": [...]}
"""
from __future__ import annotations

from rv import model as M

SCALARS = {
    "string": lambda: M.string(M.G31), "bytes": lambda: M.byts(M.G31), "bool": lambda: M.boolean(),
    "int32": lambda: M.integer(32), "int64": lambda: M.integer(64), "uint32": lambda: M.integer(32, False), "uint64": lambda: M.integer(64, False),
    "sint32": lambda: M.integer(32), "sint64": lambda: M.integer(64), "fixed32": lambda: M.integer(32, False), "fixed64": lambda: M.integer(64, False),
    "sfixed32": lambda: M.integer(32), "sfixed64": lambda: M.integer(64), "float": lambda: M.flt(32), "double": lambda: M.flt(64),
    "google.protobuf.Timestamp": lambda: M.integer(64, logical="build.recap.Timestamp", x={"unit": "nanosecond", "timezone": "UTC"}),
    "google.protobuf.Duration": lambda: M.integer(64, logical="build.recap.Duration", x={"unit": "nanosecond"}),
    "google.protobuf.NullValue": lambda: M.null(),
}
KEYS = [k for k in SCALARS if k not in ("bytes", "float", "double") and "." not in k]


def kindof(d):
    return next(k for k in ("map", "m", "e", "f", "o") if k in d)


def declared(f):
    """full simple-name table: name -> declaration (messages and enums at any depth)."""
    out = {}

    def visit(d):
        k = kindof(d)
        if k in ("m", "e"):
            out[d[k]] = d
        if k == "m":
            for b in d["body"]:
                visit(b)

    for d in f["types"]:
        visit(d)
    return out


def meaning(f, namespace="_root"):
    """(node of the root message, definitions by alias)."""
    ns = f["package"] or namespace

    def typ(t):
        t = t[1:] if t.startswith(".") else t
        if t in SCALARS:
            return SCALARS[t]()
        return M.ref(t if "." in t else f"{ns}.{t}")

    def field(d, required=False):
        k = kindof(d)
        if k == "f":
            n = typ(d["t"])
            if d["c"] == "repeated":
                n = M.lst(n)
            if d["c"] != "required" and not required:
                if n["k"] != "null":
                    n = M.union([M.null(), n])
                n["x"]["default"] = None
            n["x"]["name"] = d["f"]
            return n
        if k == "map":
            return M.union([M.null(), M.mp(typ(d["kt"]), typ(d["t"]))], x={"name": d["map"], "default": None})
        return M.union([M.null()] + [field(c, True) for c in d["fields"]], x={"name": d["o"], "default": None})

    def decl(d):
        if "e" in d:
            return M.enum([s for s, _ in d["symbols"]], alias=f"{ns}.{d['e']}")
        return M.struct([field(b) for b in d["body"] if kindof(b) in ("f", "map", "o")], alias=f"{ns}.{d['m']}")

    defs = {f"{ns}.{name}": decl(d) for name, d in declared(f).items()}
    roots = [d for d in f["types"] if "m" in d]
    if not roots:
        raise M.Refused("no message")
    return defs[f"{ns}.{roots[0]['m']}"], defs


def text(f, rng=None, syntax="proto3"):
    noise = lambda p, *opts: rng.choice(opts) if rng is not None and rng.random() < p else ""
    opts = lambda: noise(0.15, " [deprecated = true]", ' [json_name = "other"]', " [packed=false, deprecated=true]")

    def field(d, ind):
        c = (d["c"] + " ") if d.get("c") else ""
        return f"{ind}{c}{d['t']} {d['f']} = {d['no']}{opts()};"

    def emit(d, ind):
        k = kindof(d)
        pre = noise(0.1, ind + "// a comment; message X { int32 y = 1; }\n", ind + "/* block\n int32 z = 4; */\n", "\n")
        if k == "f":
            return pre + field(d, ind)
        if k == "map":
            return pre + f"{ind}map<{d['kt']}, {d['t']}> {d['map']} = {d['no']}{opts()};"
        if k == "o":
            return pre + f"{ind}oneof {d['o']} {{\n" + noise(0.1, ind + "  option (x) = 1;\n") + "\n".join(field(c, ind + "  ") for c in d["fields"]) + f"\n{ind}}}"
        if k == "e":
            body = noise(0.1, ind + "  option allow_alias = true;\n") + "\n".join(f"{ind}  {s} = {v}{noise(0.1, ' [deprecated = true]')};" for s, v in d["symbols"])
            return pre + f"{ind}enum {d['e']} {{\n{body}\n{noise(0.1, ind + '  reserved 1000 to 2000;' + chr(10))}{ind}}}"
        body = noise(0.1, ind + "  option deprecated = true;\n", ind + "  reserved 19000, 19500 to 19600;\n", ind + '  reserved "old";\n')
        return pre + f"{ind}message {d['m']} {{\n{body}" + "\n".join(emit(b, ind + "  ") for b in d["body"]) + f"\n{ind}}}"

    parts = [emit(d, "") for d in f["types"]]
    pkg = [f"package {f['package']};"] if f["package"] else []
    extra = ['import "google/protobuf/timestamp.proto";', 'import public "other/file.proto";', 'option java_package = "com.example";', "// comment", "service S { rpc F (A) returns (B) {} }", "extend Other { optional int32 ext = 126; }"]
    head = [f'syntax = "{syntax}";'] if rng is None or rng.random() < 0.7 else []
    if rng is None:
        return "\n".join(head + pkg + parts)
    for e in extra:
        if rng.random() < 0.2:
            parts.insert(rng.randint(0, len(parts)), e)
    if pkg:
        parts.insert(rng.choice([0, 0, 0, rng.randint(0, len(parts))]), pkg[0])
    return "\n".join(head + parts)


class ProtoGen:
    def __init__(self, g):
        self.g = g
        self.r = g.r

    def generate(self):
        """A valid file; references by simple name, package-qualified or leading-dot name."""
        r = self.r
        pkg = r.choice([None, "p", "a.b", "com.example.v1", "_x.y_2"])
        nm = self.g.few(1, 2, 3, 4, 5, most=9, far=80)
        self.scalar = 0.6 if nm < 10 else 0.96
        names = r.sample(["A", "B", "Msg", "Node", "inner", "Outer", "X1", "_M", "Value", "Timestamp", "Type"], min(nm, 11))
        names += [f"M{i}" for i in range(len(names), nm)]
        enames = r.sample(["E", "Color", "Kind", "en_um", "State"], r.randint(0, 3))
        if self.g.coin():
            words = {"option", "message", "enum", "oneof", "map", "reserved", "extend", "extensions", "group", "repeated", "optional", "required", "import", "package", "syntax", "service", "rpc", "returns", "stream", "inf", "nan", "to", "max", "true", "false", "weak", "public", "edition", "import"}
            new = [n for n in self.g.names(nm + len(enames), fold=True) if n.lower() not in words and n not in SCALARS]
            names, enames = (new[:nm] or names), (new[nm:] or enames)
            nm = len(names)
        msgs = [{"m": n, "body": []} for n in names]
        enums = [{"e": n, "symbols": self.symbols(n)} for n in enames]
        types = []
        for i, d in enumerate(msgs + enums):
            if (i == 0) or self.g.coin(0.6):
                types.insert(r.randint(0, len(types)), d)
            else:
                hosts = [m for m in msgs if m is not d and not self.inside(d, m)]
                (r.choice(hosts)["body"] if hosts else types).append(d)
        f = {"package": pkg, "types": types}
        # everything must be reachable from the file (hosts may be nested themselves)
        have = declared(f)
        for d in msgs + enums:
            if d.get("m", d.get("e")) not in have:
                f["types"].append(d)
                have = declared(f)
        seen = [m["m"] for m in declared(f).values() if "m" in m]
        for m in msgs:
            if m["m"] in seen:
                self.fill(m, seen, [e["e"] for e in enums if e["e"] in declared(f)], pkg)
        return f

    def inside(self, host, d):
        return any(b is d or ("m" in b and self.inside(b, d)) for b in host.get("body", []))

    def symbols(self, n):
        r = self.r
        k = self.g.few(1, 2, 3, 4, 8)
        syms = [f"{n}_{s}" for s in self.g.names(k)]
        if self.g.coin(0.3) and k <= 8:
            syms = [f"{n}_{s}" for s in r.sample(["Z", "A", "B", "UNKNOWN", "m", "k1", "C", "D", "_", "x9"], k)]
        nums = [0] + [r.choice([i, -i, 1000 - i, i * 3]) for i in range(1, k)]
        return list(zip(syms, nums))

    def typ(self, msgs, enums, pkg):
        r = self.r
        if self.g.coin(self.scalar):
            t = r.choice(list(SCALARS))
            return ("." + t) if "." in t and self.g.coin(0.2) else t
        n = r.choice(msgs + enums)
        if self.g.coin(0.5):
            return n
        full = f"{pkg}.{n}" if pkg else n
        return "." + full if self.g.coin() else full

    def fill(self, m, msgs, enums, pkg):
        r = self.r
        no = 0
        used = set()

        def name():
            while True:
                n = r.choice(["id", "a", "b", "value", "next", "ts", "f1", "camelCase", "snake_case", "_x", "Upper", "message", "optional", "type", "name", "default", "doc", "alias"]) if self.g.coin(0.5) else self.g.r.choice([self.g.ident(), "p_" + self.g.name()])
                if n not in used:
                    used.add(n)
                    return n

        def num():
            nonlocal no
            no += r.choice([1, 1, 1, 2, 17])
            return no

        new = []
        for _ in range(self.g.few(0, 1, 2, 3, 4, 6)):
            c = r.random()
            if c < 0.65:
                new.append({"f": name(), "no": num(), "t": self.typ(msgs, enums, pkg), "c": r.choice([None, None, "optional", "required", "repeated"])})
            elif c < 0.82:
                new.append({"map": name(), "no": num(), "kt": r.choice(KEYS), "t": self.typ(msgs, enums, pkg)})
            else:
                o = {"o": name(), "fields": []}
                for _ in range(self.g.few(1, 2, 3, 4)):
                    o["fields"].append({"f": name(), "no": num(), "t": self.typ(msgs, enums, pkg), "c": None})
                new.append(o)
        # mix declarations and fields, keeping the order of the fields
        decls = m["body"]
        pos = sorted(r.randint(0, len(new)) for _ in decls)
        out = list(new)
        for p, d in zip(reversed(pos), reversed(decls)):
            out.insert(p, d)
        m["body"] = out


def from_ast(file):
    """proto_schema_parser File -> file model."""
    from proto_schema_parser import ast as A

    def field(e):
        return {"f": e.name, "no": e.number, "t": e.type, "c": e.cardinality.value.lower() if e.cardinality else None}

    def el(e):
        if isinstance(e, A.Field):
            return field(e)
        if isinstance(e, A.MapField):
            return {"map": e.name, "no": e.number, "kt": e.key_type, "t": e.value_type}
        if isinstance(e, A.OneOf):
            return {"o": e.name, "fields": [field(x) for x in e.elements]}
        if isinstance(e, A.Message):
            return {"m": e.name, "body": [el(x) for x in e.elements]}
        if isinstance(e, A.Enum):
            return {"e": e.name, "symbols": [(x.name, x.number) for x in e.elements]}
        raise AssertionError(f"unexpected element {e!r}")

    pk = [e.name for e in file.file_elements if isinstance(e, A.Package)]
    assert len(pk) <= 1, "more than one package"
    return {"package": pk[0] if pk else None, "types": [el(e) for e in file.file_elements if not isinstance(e, A.Package)]}
