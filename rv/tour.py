"""Fills a World with data systems and says what each URL must show.

A Source is one system: `listing` {path: names}, `leaves` {path: expected struct node or None when the
table can't be read}, `where(path)` the connection a request for that path may open."""
from __future__ import annotations

import json
import os
import shutil
import sqlite3
from urllib.parse import quote

from recap import types as T
from rv import bqfake, hivefake, model as M, sqlcheck, sqlgen, world

# Names that can be written into a URL as they are (path elements aren't percent-decoded).
URL_NAMES = ["a", "A", "b", "ab", "a_b", "axb", "a%b", "a%25b", "a.b", "a-b", "x y", "a'b", "a+b", "a&b", "a=b", "é", "日本", "a,b", "(a)", "a$", "~a", "a@b", "a:b", "def", "public", "information_schema", "ls", "schema", "0", "1", "None", "null", "__", "%", "a*", "[a]x", 'a"b', "a|b", "a" * 40, "...", ".h", "..a"]
PASSWORDS = ["p", "secret", "p@ss", "p:w", "p/w", "p%w", "p?w", "p#w", "pä", "日", "p w", "p+w", "", None, "%41", "a&b=c", "p[w]", "host=evil", "p;w"]
USERS = ["u", "admin", "u@example.com", "u:x", "u/x", "u%41", "ü", "a b", "a+b", "u?x", "u#x"]
HOSTS = ["h", "db.example.com", "10.0.0.1", "localhost", "[::1]", "[fe80::1]", "h-1", "x_y", "a.b.c.d.example"]


def names(g, n, pool=URL_NAMES):
    out = g.r.sample(pool, min(n, len(pool)))
    if out and g.coin(0.4):
        # texts the source mentions, and such that almost look like them
        new = g.name()[:40]
        if new not in out and not new.lower().startswith("sqlite_"):
            out[g.r.randrange(len(out))] = new
    return out


class Source:
    def __init__(self, system, scheme):
        self.system, self.scheme = system, scheme
        self.user = self.password = None
        self.host, self.port = "h", None
        self.root = ""  # path of the system within the URL
        self.query = {}
        self.listing, self.leaves = {}, {}
        self.depth = 1
        self.stored = {}

    def enc(self, s):
        return quote(s, safe="")

    def userinfo(self):
        if self.user is None:
            return ""
        return self.enc(self.user) + ("" if self.password is None else ":" + self.enc(self.password)) + "@"

    def hostport(self):
        return (self.host or "") + (f":{self.port}" if self.port is not None else "")

    def url(self, path=(), creds=True, query=None, slash=False):
        q = {**self.query, **(query or {})}
        u = f"{self.scheme}://{self.userinfo() if creds else ''}{self.hostport()}{self.root}" + "".join("/" + p for p in path)
        if slash:
            u += "/"
        if q:
            u += "?" + "&".join(f"{quote(str(k), safe='.')}={quote(str(x), safe='')}" for k, v in q.items() for x in (v if isinstance(v, list) else [v]))
        return u

    def where(self, path):
        """The connection arguments a request for this path must lead to."""
        h = self.host.strip("[]") if self.host else None
        w = dict(host=h, port=self.port, user=self.user, password=self.password)
        if self.system in ("postgresql", "mysql", "snowflake"):
            w["database"] = path[0] if path else None
        return w

    def all_paths(self):
        return list(self.listing) + list(self.leaves)

    def __repr__(self):
        return f"<{self.system} {self.url()}>"


def credentials(g, s, need=False):
    r = g.r
    s.host = r.choice(HOSTS)
    s.port = r.choice([None, None, 1, 5432, 3306, 8081, 9083, 65535])
    if need or g.coin(0.75):
        s.user = r.choice(USERS)
        s.password = r.choice(PASSWORDS)
        if need and not s.password:
            s.password = r.choice(["p", "p@ss", "secret"])
    return s


def sql(g, w, flavor, bad=0.0, plain=False):
    s = credentials(g, Source(flavor, flavor))
    if flavor == "snowflake":
        s.host = g.r.choice(["acct", "xy12345.eu-west-1", "org-acct"])
        s.port = None
        s.user = s.user or "u"
    out, want = {}, {}
    pool = names(g, 5)
    dbs = ["def"] if flavor == "mysql" else g.r.sample(pool, g.r.randint(1, 3))
    for d in dbs:
        out[d] = {}
        for sc in g.r.sample(pool, g.r.randint(0, 3)):
            out[d][sc] = {}
            for t in g.r.sample(pool, g.r.randint(0, 3)):
                cols, fields = sqlgen.table(g, flavor, bad)
                out[d][sc][t] = cols
                want[(d, sc, t)] = None if fields is None else M.struct(fields)
    w.load(flavor, out)
    if flavor == "mysql":
        s.listing[()] = set(out["def"])
        for sc, ts in out["def"].items():
            s.listing[(sc,)] = set(ts)
        s.leaves = {k[1:]: v for k, v in want.items()}
        s.depth = 2
    else:
        s.listing[()] = set(out)
        for d, scs in out.items():
            s.listing[(d,)] = set(scs)
            for sc, ts in scs.items():
                s.listing[(d, sc)] = set(ts)
        s.leaves = want
        s.depth = 3
    s.stored = out
    return s


SQLITE_FILES = ["db.sqlite", "x y.db", "é.db", "a'b.db", "DB", "a%b.db", "a%20b.db", "a+b.db", "a@b.db"]


def sqlite(g, w, schemas=True):
    s = Source("sqlite", "sqlite")
    s.host = None
    d = os.path.join(w.scratch, f"s{g.counter}")
    g.counter += 1
    os.makedirs(d)
    name = g.r.choice(SQLITE_FILES)
    path = os.path.join(d, name)
    con = world.REAL_SQLITE(path)
    seen, ns = set(), []
    for n in names(g, g.r.randint(0, 5)):
        if n.casefold() in seen:
            continue
        seen.add(n.casefold())
        qn = '"' + n.replace('"', '""') + '"'
        cols, fields = [], []
        for i in range(g.r.randint(1, 4)):
            cn = f"c{i}" if g.coin(0.5) else g.ident() + str(i)
            t, node = g.r.choice([("INTEGER", M.integer(64)), ("TEXT", M.string(2147483647)), ("VARCHAR(20)", M.string(20)), ("BLOB", M.byts(2147483647)), ("REAL", M.flt(64))])
            nn = g.coin()
            cols.append(f'"{cn}" {t}' + (" NOT NULL" if nn else ""))
            node = node if nn else dict(M.union([M.null(), node]), x={"default": None})
            node["x"]["name"] = cn
            fields.append(node)
        con.execute(f"CREATE TABLE {qn} ({', '.join(cols)})")
        s.leaves[(n,)] = M.struct(fields)
        ns.append(n)
    if ns and g.coin():
        con.execute(f'CREATE VIEW "view_of" AS SELECT * FROM "{ns[0].replace(chr(34), chr(34) * 2)}"')
        con.execute(f'CREATE INDEX "index_of" ON "{ns[0].replace(chr(34), chr(34) * 2)}" (1)')
    con.commit()
    con.close()
    s.root = "/" + path
    s.listing[()] = set(ns)
    s.dir = d
    s.path = path
    s.where = lambda p: dict(database=path)
    return s


def bigquery(g, w):
    s = Source("bigquery", "bigquery")
    s.host = None
    pool = names(g, 5, ["a", "b", "ab", "a_b", "axb", "A", "p-1", "proj", "x_y", "a1", "información", "t$20240101"])
    w.bigquery.clear()
    s.listing[()] = set()
    for p in g.r.sample(pool, g.r.randint(1, 3)):
        w.bigquery[p] = {}
        s.listing[()].add(p)
        for d in g.r.sample(pool, g.r.randint(0, 3)):
            w.bigquery[p][d] = {}
            for t in g.r.sample(pool, g.r.randint(0, 3)):
                fields, want = bqfake.schema(g)
                w.bigquery[p][d][t] = fields
                s.leaves[(p, d, t)] = want if want is None else M.struct(want)
            s.listing[(p, d)] = set(w.bigquery[p][d])
        s.listing[(p,)] = set(w.bigquery[p])
    s.depth = 3
    s.where = lambda p: {}
    return s


def hive(g, w, stats=False):
    s = Source("hive", "thrift+hms")
    s.host, s.port = g.r.choice(["h", "hive.example.com", "10.0.0.1"]), g.r.choice([9083, 1, 65535])
    pool = names(g, 5)
    w.hive.clear()
    for d in g.r.sample(pool, g.r.randint(1, 3)):
        w.hive[d] = {}
        for t in g.r.sample(pool, g.r.randint(0, 3)):
            table, want = hivefake.table(g, d, t, 1)
            w.hive[d][t] = table
            s.leaves[(d, t)] = want if want is None else M.struct(want, x={"name": t})
        s.listing[(d,)] = set(w.hive[d])
    s.listing[()] = set(w.hive)
    s.depth = 2
    s.where = lambda p: dict(host=s.host, port=s.port)
    return s


def avro_text(g, name="Rec"):
    fields = [{"name": f"f{i}", "type": g.r.choice(["int", "string", "long", ["null", "string"], "boolean"])} for i in range(g.r.randint(0, 3))]
    return json.dumps({"type": "record", "name": name, "fields": fields})


def json_text(g):
    return json.dumps({"type": "object", "properties": {f"f{i}": {"type": g.r.choice(["string", "integer", "boolean"])} for i in range(g.r.randint(0, 3))}})


def proto_text(g):
    return 'syntax = "proto3";\nmessage Rec {\n' + "".join(f"  {g.r.choice(['string', 'int32', 'bool'])} f{i} = {i + 1};\n" for i in range(g.r.randint(0, 3))) + "}\n"


def read_text(kind, text):
    """What the format's own reader makes of the text."""
    from recap.converters.avro import AvroConverter
    from recap.converters.json_schema import JSONSchemaConverter
    from recap.converters.protobuf import ProtobufConverter

    c = {"AVRO": AvroConverter, "JSON": JSONSchemaConverter, "PROTOBUF": ProtobufConverter}[kind]
    return sqlcheck.canonical(c().to_recap(text))


def compare(exp, d):
    """None, or how the dict recap returned differs from the expected struct."""
    got = sqlcheck.canonical(T.from_dict(json.loads(json.dumps(d))))
    a, b = M.normal(exp), M.normal(got)
    return None if M.same(a, b) else M.diff(a, b)


TEXT = {"AVRO": lambda g: avro_text(g), "JSON": json_text, "PROTOBUF": proto_text}


def confluent(g, w):
    s = credentials(g, Source("confluent", g.r.choice(["http+csr", "https+csr"])))
    s.host = g.r.choice(["h", "registry.example.com", "10.0.0.1", "[::1]"])
    if s.user is not None:
        s.user = s.user.replace(":", "_")
        if s.password is None:
            s.password = "p"
    w.subjects.clear()
    w.prefix = s.root = g.r.choice(["", "", "", "/api", "/a/b"])
    for n in names(g, g.r.randint(0, 4), [x for x in URL_NAMES if x not in ("a%b", "a%25b", "%")]):
        sub = n + g.r.choice(["-value", "-key"])
        w.subjects[sub] = []
        for _ in range(g.r.randint(1, 3)):
            k = g.r.choice(list(TEXT))
            w.subjects[sub].append((k, TEXT[k](g)))
        s.leaves[(sub,)] = read_text(*w.subjects[sub][-1])
    s.listing[()] = set(w.subjects)
    return s


EXT = {"AVRO": ["avsc", "avro", "avdl", "avpr"], "JSON": ["json", "jsonschema", "jsons"], "PROTOBUF": ["proto", "protobuf", "protos", "proto3", "proto2"]}


def files(g, w, scheme=None):
    s = Source("file", g.r.choice(["file", "file", ""]) if scheme is None else scheme)
    s.host = None
    d = os.path.join(w.scratch, f"f{g.counter}")
    g.counter += 1
    os.makedirs(d)
    s.root = d

    def fill(path, depth):
        real = os.path.join(d, *path)
        kids = set()
        for n in names(g, g.r.randint(0, 3)):
            if depth and g.coin(0.5):
                os.makedirs(os.path.join(real, n))
                kids.add(n)
                fill((*path, n), depth - 1)
            else:
                k = g.r.choice(list(TEXT))
                f = n + "." + g.r.choice(EXT[k])
                if g.coin(0.2):
                    f = "." * g.coin(0.5) + f.upper() if g.coin() else n + ".JSON." + f.split(".")[-1]
                text = TEXT[k](g)
                with open(os.path.join(real, f), "w") as fh:
                    fh.write(text)
                kids.add(f)
                s.leaves[(*path, f)] = read_text(k, text)
        s.listing[path] = kids

    fill((), 2)
    s.depth = None
    s.dir = d
    s.where = lambda p: {}
    if s.scheme == "":
        s.url = lambda path=(), creds=True, query=None, slash=False: d + "".join("/" + p for p in path) + ("/" if slash else "")
    return s


BUILD = {"postgresql": lambda g, w: sql(g, w, "postgresql"), "mysql": lambda g, w: sql(g, w, "mysql"), "snowflake": lambda g, w: sql(g, w, "snowflake"), "sqlite": sqlite,
         "bigquery": bigquery, "hive": hive, "confluent": confluent, "file": files}


def cleanup(s):
    if getattr(s, "dir", None):
        shutil.rmtree(s.dir, ignore_errors=True)
