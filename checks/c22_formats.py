"""C22: formats of stored schemas."""
import contextlib, io, json, os, shutil
import fsspec
from recap import commands
from recap.clients.confluent_registry import ConfluentRegistryClient
from recap.clients.fs import FilesystemClient
from recap.converters.avro import AvroConverter
from recap.converters.json_schema import JSONSchemaConverter
from recap.converters.protobuf import ProtobufConverter
from rv import model as M, sqlcheck, tour, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C22", "exploration"
TECHNIQUE = "runtime monitoring: real files, in-memory filesystem and a recording schema registry; result compared with the declared format's own reader on the same text"
RULE = ("seeded random Avro, JSON Schema and Protobuf texts (including texts that several readers accept, and malformed ones) stored as files with every known extension in any case, misleading stems, several dots, "
        "hidden and unknown extensions, on disk and in an fsspec filesystem, and as registry subjects with several versions of changing type, look-alike neighbour subjects, key/value suffixes and unknown types; "
        "every read compared with the declared format's reader, the requests reaching the registry with the subject; non-trivial = distinct (name, text)")
ASSUMPTIONS = ["C06, C08 and C10 decide what each reader must return; here a reader called directly is the oracle", "a subject without -key or -value suffix means its -value subject (documented in the code, pinned by tests)"]
READER = {"AVRO": AvroConverter, "JSON": JSONSchemaConverter, "PROTOBUF": ProtobufConverter}
OTHER = ["txt", "yaml", "xml", "avs", "avscx", "xavsc", "jso", "json5", "jsonl", "jsonx", "prot", "protox", "proto4", "proto1", "avr", "", "sql", "pb", "js", "graphql", "thrift", "json~", "avsc.bak"]


def text(g, kind):
    c = g.r.random()
    if c < 0.15:  # accepted by more than one reader
        return g.r.choice(['{"type": "string"}', '{"type": "record", "name": "r", "fields": [], "properties": {}}', '{"type": "object", "properties": {"a": {"type": "string"}}}', '"string"', '{"type": "boolean"}', "{}", "[]",
                           '{"type": "array", "items": "string"}', '{"type": "array", "items": {"type": "string"}}', "", "null", "message M { optional string type = 1; }", 'syntax = "proto3"; message M { string a = 1; }', '{"type": "null"}'])
    if c < 0.5:
        return tour.TEXT[kind](g)
    if kind == "AVRO":
        return json.dumps(AVRO(g))
    if kind == "JSON":
        return json.dumps(JSON(g))
    return PROTO(g)


def AVRO(g):
    fs = []
    for i in range(g.r.randint(0, 4)):
        fs.append({"name": f"é{i}" if g.coin(0.02) else f"f{i}", "type": g.r.choice(["int", "long", "string", "bytes", "double", ["null", "int"], {"type": "array", "items": "long"}, {"type": "map", "values": "string"}, {"type": "fixed", "name": f"F{i}", "size": 4},
                  {"type": "enum", "name": f"E{i}", "symbols": ["A", "B"]}, {"type": "long", "logicalType": "timestamp-millis"}]), **({"doc": g.word()} if g.coin(0.3) else {})})
    return {"type": "record", "name": g.ident(), "fields": fs}


def JSON(g):
    return {"type": "object", "properties": {g.word() or "x": g.r.choice([{"type": "string"}, {"type": "integer"}, {"type": "number"}, {"type": "array", "items": {"type": "string"}}, {"type": "object", "properties": {"a": {"type": "boolean"}}}, {"type": "string", "format": "date"}])
                                             for _ in range(g.r.randint(0, 4))}, **({"required": []} if g.coin() else {})}


def PROTO(g):
    syn = g.r.choice(['syntax = "proto3";\n', 'syntax = "proto2";\n', ""])
    body = "".join(f"  {g.r.choice(['optional ', 'repeated ', 'optional '])}{g.r.choice(['int32', 'string', 'bytes', 'double', 'bool', 'In'])} f{i} = {i + 1}; // {g.ident()}\n" for i in range(g.r.randint(0, 4)))
    return f"{syn}{'package a.b;' if g.coin(0.3) else ''}\nmessage Top {{\n  message In {{ optional int64 x = 1; }}\n{body}}}\n"


def by_reader(kind, t):
    return outcome(lambda: sqlcheck.canonical(READER[kind]().to_recap(t)))


def compare(ck, got, want, kind, what):
    """got: outcome of RecapType or dict"""
    if not want.ok:
        ck.event("refused texts")
        return ck.expect(not got.ok, f"text the {kind} reader refuses was read", f"{what}: {got}; reader {want}", what)
    if not ck.expect(got.ok, f"{kind} text refused", f"{what}: {got}", what):
        return
    ck.event("texts read as " + kind)
    if isinstance(got.value, (dict, str)):
        d = tour.compare(want.value, got.value)
        ck.expect(d is None, "read in another format", f"{what}: {d}", what)
    else:
        n = sqlcheck.canonical(got.value)
        ck.expect(M.same(n, want.value), "read in another format", f"{what}: {M.diff(want.value, n)}", what)


def files(ck, g, w):
    kind = g.r.choice(list(READER))
    t = text(g, kind)
    ext = g.r.choice(tour.EXT[kind])
    known = True
    if g.coin(0.25):
        ext, known = g.r.choice(OTHER), False
    if g.coin(0.3):
        ext = g.r.choice([ext.upper(), ext.capitalize(), ext.swapcase()])
    stem = g.r.choice(["a", "a.json", "a.avsc", "a.proto", "x y", "é", ".h", "a.b.c", "json", "avsc", "a-value", "%41", "a+b", g.name()[:40], "a.json?b", "a.avsc#b", "a.proto?x=1", "?", "a;b", "a.json;", "a&b=c"])
    name = f"{stem}.{ext}" if ext else stem.replace(".", "_")
    d = os.path.join(w.scratch, g.r.choice(["d", "d.json", "d.avsc", "d.proto"]))
    os.makedirs(d, exist_ok=True)
    try:
        path = os.path.join(d, name)
        with open(path, "w", encoding="utf-8") as f:
            f.write(t)
        other = g.r.choice([k for k in READER if k != kind])
        for n2 in (name + "." + tour.EXT[other][0], name[:-1], "z" + name):
            if n2 and not os.path.exists(os.path.join(d, n2)):
                with open(os.path.join(d, n2), "w") as f:
                    f.write(tour.TEXT[other](g))
        what = (name, t)
        ck.case(key=what, sample=what, family="files")
        via = g.r.choice(["client", "url", "path", "memory"])
        if any(c in stem for c in "?#;") and via in ("url", "path"):
            via = "client"  # a URL can't carry these
        if via == "client":
            client = FilesystemClient("file")
            if g.coin(0.3):
                outcome(lambda: client.schema(path))
                ck.event("earlier reads of a client")
            o = outcome(lambda: client.schema(path + "/" * g.r.randint(0, 1)) if not g.coin(0.2) else client.schema(path))
            if not o.ok and isinstance(o.error, NotADirectoryError):
                o = outcome(lambda: FilesystemClient("file").schema(path))
        elif via == "memory":
            fs = fsspec.filesystem("memory")
            fs.store.clear()
            fs.pipe_file("/d/" + name, t.encode())
            fs.pipe_file("/d/" + name + "2", b"{")
            fs.pipe_file("/e/" + name, tour.TEXT[other](g).encode())
            o = outcome(lambda: FilesystemClient("memory").schema("/d/" + name))
            fs.store.clear()
        else:
            o = outcome(lambda: commands.schema(("file://" if via == "url" else "") + path, strict=False))
        ck.event("files by " + via)
        if not known:
            ck.event("unknown extensions")
            ck.expect(not o.ok, "unknown extension read", f"{what}: {o}", what)
            return
        want = by_reader(kind, t)
        if via in ("url", "path") and want.ok and want.value["k"] != "struct":
            ck.event("not a struct")
            return
        compare(ck, o, want, kind, what)
        after = open(path, encoding="utf-8").read()
        ck.expect(after == t, "reading changed the file", f"{what}", what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def subjects(ck, g, w):
    base = g.r.choice([x for x in tour.URL_NAMES if "%" not in x])
    suffix = g.r.choice(["-value", "-key", "", "-values", "-Key", "-value-key", "value", "-key2"])
    asked = base + suffix
    actual = asked if suffix in ("-value", "-key", "-value-key") else asked + "-value"
    w.subjects.clear()
    w.prefix = ""
    versions = []
    for _ in range(g.r.choice([1, 2, 3, 12])):
        k = g.r.choice(list(READER))
        versions.append((k, text(g, k)))
    unknown = g.coin(0.05)
    if unknown:
        versions[-1] = (g.r.choice(["XML", "avro ", "THRIFT", "JSONX"]), versions[-1][1])
    w.subjects[actual] = versions
    w.deleted = {actual: g.r.sample(range(1, 14), g.r.randint(1, 6))} if g.coin(0.4) else {}
    for n in (actual.upper(), actual + "-value", base, base + "-key", base + "-value", asked, "x" + actual, actual[:-1]):
        if n not in w.subjects and g.coin(0.7):
            k = g.r.choice(list(READER))
            w.subjects[n] = [(k, tour.TEXT[k](g))] * g.r.randint(1, 13)
    if g.coin(0.05):
        del w.subjects[actual]
    w.clear()
    what = (asked, versions)
    ck.case(key=what, sample=what, family="subjects")
    via = g.r.choice(["client", "url"])

    def others(c):
        """The client's earlier reads: each is right, none changes the next."""
        for n in g.r.sample(sorted(w.subjects), min(len(w.subjects), g.r.choice([0, 0, 1, 3]))) + [actual] * g.coin(0.3):
            if not n.endswith(("-key", "-value")) or n not in w.subjects or unknown and n == actual:
                continue
            k, t = w.subjects[n][-1]
            compare(ck, outcome(lambda: c.schema(n)), by_reader(k, t), k, (n, "earlier", t))
            ck.event("earlier reads of a client")

    if via == "client":
        def read():
            with ConfluentRegistryClient.create(url="http://h") as c:
                others(c)
                return c.schema(asked)
        o = outcome(read)
    else:
        o = outcome(lambda: commands.schema(f"http+csr://h/{asked}", strict=False))
    if actual not in w.subjects:
        ck.event("absent subjects")
        ck.expect(not o.ok, "absent subject read", f"{asked}: {o}; there are {list(w.subjects)}", what)
        return
    kind, t = versions[-1]
    if unknown:
        ck.event("unknown types")
        ck.expect(not o.ok, "unknown schema type read", f"{what}: {o}", what)
        return
    want = by_reader(kind, t)
    if via == "url" and want.ok and want.value["k"] != "struct":
        return
    ck.event("subjects with several versions", len(versions) > 1)
    compare(ck, o, want, kind, what)


def run(ck):
    g = Gen(ck.rng)
    for k in READER:
        ck.need("texts read as " + k, 800)
    for k in ("client", "url", "path", "memory"):
        ck.need("files by " + k, 300)
    ck.need("unknown extensions", 200)
    ck.need("unknown types", 50)
    ck.need("earlier reads of a client", 1000)
    ck.need("absent subjects", 50)
    ck.need("refused texts", 100)
    ck.need("subjects with several versions", 500)
    # the Protobuf parser prints what it recovers from
    with world.World(g.r) as w, contextlib.redirect_stderr(io.StringIO()) as err:
        world.configure([])
        for i in ck.loop(24000, 120000):
            err.seek(0)
            err.truncate()
            (files if i // 8 % 2 else subjects)(ck, g, w)
