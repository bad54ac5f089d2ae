"""Library calls with reproducible inputs, for C04. An operation is (family, make, call):
make() builds the arguments afresh, call(*arguments) makes the call with a fresh converter."""
from __future__ import annotations

import copy
import dataclasses
import hashlib
import json
import random
import sqlite3
import sys

from recap import types as T
from recap.clients.bigquery import BigQueryClient
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.clients.mysql import MysqlClient
from recap.clients.postgresql import PostgresqlClient
from recap.clients.snowflake import SnowflakeClient
from recap.clients.sqlite import SQLiteClient
from recap.converters.avro import AvroConverter
from recap.converters.json_schema import JSONSchemaConverter
from recap.converters.protobuf import ProtobufConverter
from recap.converters.bigquery import BigQueryConverter
from recap.converters.hive_metastore import HiveMetastoreConverter
from checks import c07_avro_write, c09_json_write, c11_proto_write, c06_avro_read
from rv import avrogen, bqfake, dbfake, hivefake, jsgen, model as M, protogen, sqlgen
from rv.gen import Gen


def plain(x, depth=0):
    """Everything observable about an argument or result, as plain data."""
    if isinstance(x, T.RecapType):
        try:
            full = M.snap_resolved(x, keep_alias=True)
        except Exception as e:
            full = "unresolvable: " + type(e).__name__
        return ["recap", M.snap(x), full]
    if isinstance(x, dict):
        return {"dict": [[plain(k), plain(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [plain(v) for v in x]
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return x
    if dataclasses.is_dataclass(x):
        return [type(x).__name__] + [[f.name, plain(getattr(x, f.name))] for f in dataclasses.fields(x)]
    if hasattr(x, "to_api_repr"):
        return [type(x).__name__, plain(x.to_api_repr())]
    if isinstance(x, Quiet):
        return ["quiet"]
    return [type(x).__name__, repr(x)]


def digest(p):
    return hashlib.blake2b(repr(p).encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()


def short(p):
    s = repr(p)
    return s if len(s) < 600 else s[:600]


class Quiet:
    """A wrapper of arguments that are no schemas (servers, stores)."""

    def __init__(self, v):
        self.v = v


_SERVERS = {}


def sql_schema(flavor, key, columns, server=None):
    client = {"postgresql": PostgresqlClient, "mysql": MysqlClient, "snowflake": SnowflakeClient}[flavor]
    # one that no other thread is using
    idle = _SERVERS.setdefault(flavor, [])
    s = idle.pop() if idle else dbfake.Server(flavor, random.Random(0))
    s.rng = random.Random(key)
    db = "def" if flavor == "mysql" else "d"
    s.load({db: {"s": {"t": columns}}})
    con = s.connect(db)
    c = client(con)
    try:
        return c.schema("s", "t") if flavor == "mysql" else c.schema(db, "s", "t")
    finally:
        idle.append(s)


FAMILIES = ["from_dict", "from_dict", "to_dict", "clean_dict", "alias_dict", "equality", "make_nullable", "resolve", "avro read", "avro write", "json read", "json write", "protobuf read", "protobuf write",
            "hive", "hive statistics", "bigquery", "postgresql", "mysql", "snowflake", "sqlite"]


def broken(g, d):
    """Damages a definition somewhere."""
    spots = []

    def visit(x):
        if isinstance(x, dict):
            spots.append(x)
            for v in x.values():
                visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)

    visit(d)
    if not spots:
        return "no.such"
    s = g.r.choice(spots)
    k = g.r.choice(list(s) or ["type"])
    c = g.r.random()
    if c < 0.4:
        s.pop(k, None)
    elif c < 0.7:
        s["type"] = g.r.choice([5, None, "int", "list", "union"])
    else:
        s["alias"] = g.r.choice(["bad alias", "int32", "a.b"])
    return d


def broken_proto(g, text):
    """A file that is refused, at different points of reading it."""
    c = g.r.randrange(6)
    if c == 0:
        return text.replace(g.r.choice(["int32 ", "string ", "bytes ", "bool "]), "Nope ", 1)
    if c == 1:
        return f'syntax = "proto3"; package {g.ident()}.{g.ident()}; enum E {{ A = 0; }}'  # no message
    if c == 2:
        return text + "\nmessage Twice { int32 a = 1; }\nmessage Twice { int32 a = 1; }"
    if c == 3:
        return text + "\nmessage Keys { map<double, int32> m = 1; }"
    if c == 4:
        return text + "\nmessage Open {"
    return text + "\nmessage Outer9 { message Inner9 { nope.Nope n = 1; } Inner9 i = 1; }\nenum Outer9 { Z9 = 0; }"


PROTO = 'syntax = "proto3"; %smessage M { int32 a = 1; E e = 2; map<string, N> m = 3; message N { M m = 1; } } enum E { A = 0; B = 1; }'
AVRO = {"type": "record", "name": "R", "fields": [{"name": "a", "type": {"type": "enum", "name": "E", "symbols": ["A"]}}, {"name": "b", "type": ["null", "E", "R"], "default": None}]}
JSON = {"type": "object", "properties": {"a": {"type": "string", "format": "date"}, "b": {"type": ["null", "integer"]}}, "required": ["a"]}
RECAP = {"type": "struct", "alias": "p.S", "name": "S", "fields": [{"name": "a", "type": "enum", "alias": "p.E", "symbols": ["A"]}, {"name": "b", "type": "p.E", "optional": True}, {"name": "c", "type": "decimal128", "precision": 9}, {"name": "d", "type": "p.S", "optional": True}]}


def probes():
    """Small calls whose outcome must always be the same: (family, what, call)."""
    out = []
    for p in ("", "package p; ", "package p.q; "):
        out.append(("protobuf read", "protobuf file with " + (p or "no package"), lambda p=p: ProtobufConverter().to_recap(PROTO % p)))
    out.append(("protobuf read", "protobuf file in a namespace", lambda: ProtobufConverter("ns").to_recap(PROTO % "")))
    out.append(("avro read", "avro", lambda: AvroConverter().to_recap(json.dumps(AVRO))))
    out.append(("avro read", "avro in a namespace", lambda: AvroConverter().to_recap(json.dumps(AVRO), "p")))
    out.append(("avro read", "avro with its own namespace", lambda: AvroConverter().to_recap(json.dumps({**AVRO, "namespace": "q"}))))
    out.append(("json read", "json", lambda: JSONSchemaConverter().to_recap(json.dumps(JSON))))
    out.append(("json read", "json with an id", lambda: JSONSchemaConverter().to_recap(json.dumps({**JSON, "$id": "https://p.q/r", "properties": {"s": {"$ref": "https://p.q/r"}}}))))
    for name, f in (("avro write", lambda: AvroConverter().from_recap(T.from_dict(RECAP))), ("json write", lambda: JSONSchemaConverter().from_recap(T.from_dict(RECAP)))):
        out.append((name, name, f))
    out.append(("protobuf write", "protobuf write", lambda: ProtobufConverter().from_recap(T.from_dict({"type": "struct", "alias": "p.S", "fields": [{"name": "a", "type": "enum", "alias": "p.E", "symbols": ["A"]}, {"name": "b", "type": "p.E"}, {"name": "c", "type": ["null", "int32", "string32"]}]}))))
    out.append(("from_dict", "definition", lambda: T.from_dict(RECAP)))
    out.append(("to_dict", "serialising", lambda: [T.to_dict(T.from_dict(RECAP)), T.to_dict(T.from_dict(RECAP), clean=False), T.to_dict(T.from_dict(RECAP), alias=False)]))
    out.append(("make_nullable", "nullable", lambda: T.from_dict(RECAP).make_nullable()))
    out.append(("resolve", "resolving", lambda: [T.from_dict(x).resolve() for x in ("int32", "uuid", "decimal128")]))
    return out


def probe(p):
    try:
        return ["returned", plain(p[2]())]
    except Exception as e:
        return ["raised", type(e).__name__]


def recap_node(g, what):
    if what == "avro write":
        return M.struct([c07_avro_write.field(g, c07_avro_write.avro_node(g, g.r.choice([0, 1, 2, 3]), [], {}), j) for j in range(g.r.randint(1, 4))], alias=g.fresh_alias() if g.coin(0.3) else None)
    if what == "json write":
        return M.struct(c09_json_write.fields(g, g.r.choice([1, 2, 3]), [], {}))
    if what == "protobuf write":
        return c11_proto_write.Writer(g).struct()
    return g.node(g.r.choice([0, 1, 2, 3, 4]))


def with_struct(g, n):
    return n if n["k"] == "struct" else M.struct([dict(n, x=dict(n["x"], name="f"))], alias="root.Root")


def operation(seed, i):
    key = f"C04:{seed}:{i}"
    fam = FAMILIES[i % len(FAMILIES)]

    def fresh():
        return Gen(random.Random(key))

    if fam in ("from_dict", "clean_dict", "alias_dict"):
        def make():
            g = fresh()
            n = g.node(g.r.choice([0, 1, 2, 3, 4]))
            d = M.definition(n, g.r, 0.2)
            if fam == "from_dict" and g.coin(0.3):
                d = broken(g, copy.deepcopy(d))
            if fam == "alias_dict" and not isinstance(d, dict):
                d = {"type": d}
            return (copy.deepcopy(d),)
        call = {"from_dict": T.from_dict, "clean_dict": T.clean_dict, "alias_dict": T.alias_dict}[fam]
    elif fam in ("to_dict", "equality", "make_nullable", "resolve"):
        def make():
            g = fresh()
            n = g.node(g.r.choice([0, 1, 2, 3, 4]))
            a = M.build(copy.deepcopy(n))
            if fam == "to_dict":
                return a, g.coin(), g.coin()
            if fam == "equality":
                if g.coin():
                    g.tweak(n)
                return a, M.build(n)
            return (a,)
        def refs(t):
            for n in M.walk(M.snap(t)):
                pass
            out = []
            def go(x):
                if isinstance(x, T.ProxyType):
                    try:
                        out.append(x.resolve())
                    except Exception as e:
                        out.append(type(e).__name__)
                for a in ("values", "keys", "fields", "types"):
                    v = getattr(x, a, None)
                    for c in v if isinstance(v, list) else [v]:
                        if isinstance(c, T.RecapType):
                            go(c)
            go(t)
            return out
        call = {"to_dict": lambda t, c, a: T.to_dict(t, clean=c, alias=a), "equality": lambda a, b: [a == b, b == a, a != b, a == a], "make_nullable": lambda t: [t.make_nullable(), t.is_nullable()], "resolve": refs}[fam]
    elif fam in ("avro write", "json write", "protobuf write"):
        def make():
            g = fresh()
            n = with_struct(g, recap_node(g, fam if g.coin(0.8) else "any"))
            return (M.build(n),)
        call = {"avro write": lambda t: AvroConverter().from_recap(t), "json write": lambda t: JSONSchemaConverter().from_recap(t), "protobuf write": lambda t: ProtobufConverter().from_recap(t)}[fam]
    elif fam == "avro read":
        def make():
            g = fresh()
            a, n, defs, ns = avrogen.generate(g, g.r.choice([1, 2, 3]))
            if g.coin(0.25):
                a = (c06_avro_read.defects(g, a, defs) or [a])[0]
            return json.dumps(a), ns
        call = lambda s, ns: AvroConverter().to_recap(s, ns) if ns is not None else AvroConverter().to_recap(s)
    elif fam == "json read":
        def make():
            g = fresh()
            s, n, defs, store = jsgen.generate(g, g.r.choice([1, 2, 3]))
            if g.coin(0.25):
                s = broken(g, s)
            return json.dumps(s), Quiet(store)
        def call(s, store):
            from referencing import Registry, Resource
            from referencing.jsonschema import DRAFT202012
            def retrieve(uri):
                if uri not in store.v:
                    raise KeyError(uri)
                return Resource.from_contents(copy.deepcopy(store.v[uri]), default_specification=DRAFT202012)
            return JSONSchemaConverter(Registry(retrieve=retrieve)).to_recap(s) if store.v else JSONSchemaConverter().to_recap(s)
    elif fam == "protobuf read":
        def make():
            g = fresh()
            f = protogen.ProtoGen(g).generate()
            text = protogen.text(f, g.r)
            if g.coin(0.4):
                text = broken_proto(g, text)
            return (text,)
        call = lambda s: ProtobufConverter().to_recap(s)
    elif fam == "hive":
        make = lambda: (hivefake.table(fresh(), "db", "t", 3)[0],)
        call = lambda t: HiveMetastoreConverter().to_recap(t)
    elif fam == "hive statistics":
        def make():
            g = fresh()
            t = hivefake.table(g, "db", "t", 2)[0]
            return t, hivefake.stats(g, t)[0]
        call = lambda t, s: HiveMetastoreClient(hivefake.FakeHMS({"db": {"t": t}}, {("db", "t"): s})).schema("db", "t", True)
    elif fam == "bigquery":
        make = lambda: (bqfake.schema(fresh(), 3)[0],)
        call = lambda f: BigQueryConverter().to_recap(f)
    elif fam == "sqlite":
        def make():
            g = fresh()
            cols = ", ".join(f"c{j} {g.r.choice(['INT', 'TEXT', 'VARCHAR(10)', 'REAL', 'BLOB', 'NUMERIC', 'FLOAT(20)', ''])} {g.r.choice(['', 'NOT NULL', 'DEFAULT 5'])}" for j in range(g.r.randint(1, 5)))
            return (f"CREATE TABLE t ({cols})",)
        def call(ddl):
            db = sqlite3.connect(":memory:")
            db.execute(ddl)
            try:
                return SQLiteClient(db).schema("t")
            finally:
                db.close()
    else:
        def make():
            g = fresh()
            return (fam, key, sqlgen.table(g, fam, 0.03)[0])
        call = sql_schema
    return fam, make, call


def evaluate(op):
    """(plain data of the outcome, the result object or None, arguments)"""
    fam, make, call = op
    args = make()
    try:
        v = call(*args)
    except Exception as e:
        return ["raised", type(e).__name__], None, args
    return ["returned", plain(v)], v, args


def again(op, args):
    try:
        return ["returned", plain(op[2](*args))]
    except Exception as e:
        return ["raised", type(e).__name__]


def main():
    """All operations in order, in a process of their own: prints their digests."""
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    out = {}
    for i in range(n):
        out[i] = digest(evaluate(operation(seed, i))[0])
    json.dump(out, sys.stdout)
