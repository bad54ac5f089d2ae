"""C19: listings."""
import json, os, shutil, sqlite3
from typer.testing import CliRunner
from recap import cli, commands
from recap.clients.bigquery import BigQueryClient
from recap.clients.confluent_registry import ConfluentRegistryClient
from recap.clients.fs import FilesystemClient
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.clients.mysql import MysqlClient
from recap.clients.postgresql import PostgresqlClient
from recap.clients.snowflake import SnowflakeClient
from recap.clients.sqlite import SQLiteClient
from recap.server.app import app
from rv import asgi, bqfake, dbfake, hivefake, tour, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C19", "exploration"
TECHNIQUE = "runtime monitoring: listings of instrumented data systems (SQL executed by an engine, real SQLite files and directories) compared with the catalog that was put there"
RULE = ("seeded random catalogs on every kind of system, with the same look-alike names (case, prefix, wildcards, quotes, SQL text, unicode) at every level and under every parent: every level listed through the "
        "client and, for names a URL can carry, by walking URLs from the root through every listed child down to reading every leaf, with and without trailing slashes, and below the leaves; "
        "non-trivial = distinct (system, level, names)")
ASSUMPTIONS = ["a level below the leaves is refused, except that a Hive table lists itself (pinned by the existing tests)", "path elements of a URL aren't percent-decoded, so names that contain URL delimiters can't be walked to",
               "a registry subject is only found from its listed name if it ends with -key or -value (pinned by the existing tests)"]
BASE = ["a", "A", "b", "ab", "a_b", "axb", "a%", "%", "_", "a'b", "a''b", "' OR '1'='1", "a\"b", "a`b", "a\\b", "a;b", "x y", " a", "a ", "é", "e\u0301", "日本", "%s", "{}", "{0}", "NULL", "None", "a--", "/*", "a.b", "public", "information_schema",
           "def", "a/b", "a?b", "a#b", "a\nb", "a" * 60, "sqlite", "sqlitex1", "SQLiteA", "pg_x", "pg_toast", "template0", "main", "temp", "mysql", "sys"]
HOSTILE = list(BASE)


def refresh(g):
    HOSTILE[:] = BASE + [n for n in {g.lookalike() for _ in range(8)} - set(BASE) if not n.lower().startswith("sqlite_") and n.strip() == n and "/" not in n and n not in (".", "..")]


def exactly(ck, o, want, kind, where, loose=()):
    if not ck.expect(o.ok, f"{kind} listing failed", f"{o}: {where}", where):
        return False
    got = o.value
    ok = isinstance(got, list) and all(type(x) is str for x in got)
    got2 = [x for x in got if x not in loose] if ok else got
    ck.event("names compared", len(want))
    return ck.expect(ok and sorted(got2) == sorted(want) and len(set(got)) == len(got), f"wrong {kind} listing", f"{got!r} instead of {sorted(want)!r}: {where}", where)


def many(g):
    """A long list of different names, around the sizes the source mentions."""
    p = g.r.choice(["t", "T_", "x", "日"])
    return [f"{p}{i}" for i in range(g.span(20, 3000) if g.coin(0.6) else g.r.randint(1100, 3000))]


def some(g, d):
    """A few entries of a large dictionary."""
    return list(d.items()) if len(d) < 12 else g.r.sample(list(d.items()), 12)


def sql_catalog(g, flavor):
    pool = g.r.sample(HOSTILE, 5)
    if g.coin(0.03):
        at = g.r.randrange(3)
        d, s, t = (many(g) if at == i else g.r.sample(pool, 2) for i in range(3))
        d = ["def"] if flavor == "mysql" else d
        return {x: {y: {z: [] for z in t} for y in s} for x in d} if at else {x: {y: {} for y in s} for x in d}
    if flavor == "mysql":
        return {"def": {s: {t: [] for t in g.r.sample(pool, g.r.randint(0, 4))} for s in g.r.sample(pool, g.r.randint(0, 5))}, **({g.r.choice(pool[:2]) + "x": {s: {t + "y": [] for t in pool[:2]} for s in pool[:3]}} if g.coin() else {})}
    return {d: {s: {t: [] for t in g.r.sample(pool, g.r.randint(0, 4))} for s in g.r.sample(pool, g.r.randint(0, 4))} for d in g.r.sample(pool, g.r.randint(1, 4))}


def by_client(ck, g, servers):
    flavor = g.r.choice(["postgresql", "mysql", "snowflake"])
    cat = sql_catalog(g, flavor)
    s = servers[flavor]
    s.load(cat)
    C = {"postgresql": PostgresqlClient, "mysql": MysqlClient, "snowflake": SnowflakeClient}[flavor]
    if flavor == "mysql":
        c = C(s.connect(None))
        ck.case(key=(flavor, repr(cat)), sample=cat, family="mysql by client")
        exactly(ck, outcome(c.ls), set(cat["def"]), "mysql schema", cat)
        for sc, ts in some(g, cat["def"]):
            exactly(ck, outcome(c.ls, sc), set(ts), "mysql table", (sc, cat))
        absent = g.r.choice(HOSTILE)
        if absent not in cat["def"]:
            exactly(ck, outcome(c.ls, absent), set(), "absent mysql table", (absent, cat))
        return
    ck.case(key=(flavor, repr(cat)), sample=cat, family=flavor + " by client")
    c = C(s.connect(None))
    exactly(ck, outcome(c.ls), set(cat), flavor + " database", cat)
    for d, scs in some(g, cat):
        c = C(s.connect(d))
        exactly(ck, outcome(c.ls, d), set(scs), flavor + " schema", (d, cat))
        for sc, ts in some(g, scs):
            exactly(ck, outcome(c.ls, d, sc), set(ts), flavor + " table", (d, sc, cat))
        absent = g.r.choice(HOSTILE)
        if absent not in scs:
            exactly(ck, outcome(c.ls, d, absent), set(), f"absent {flavor} table", (d, absent, cat))
    o = outcome(c.ls, None, g.r.choice(HOSTILE))
    ck.expect(not o.ok, "listing without its parent accepted", f"{flavor} ls(None, schema): {o}", cat)


def others(ck, g, w):
    k = g.r.choice(["sqlite", "hive", "bigquery", "memory", "files", "confluent"])
    ns = g.r.sample(HOSTILE, g.r.randint(0, 8))
    if k not in ("bigquery",) and g.coin(0.02):
        ns = many(g)
    ck.case(key=(k, tuple(ns)), sample=ns, family=k + " by client")
    if k == "sqlite":
        con = sqlite3.connect(":memory:")
        seen, mine = set(), set()
        for n in ns:
            if n.lower() in seen:
                continue
            seen.add(n.lower())
            q = '"' + n.replace('"', '""') + '"'
            kind = g.r.choice(["table", "table", "auto", "norowid", "view", "fts", "temp"])
            if kind == "auto":
                con.execute(f"CREATE TABLE {q} (a INTEGER PRIMARY KEY AUTOINCREMENT)")
            elif kind == "norowid":
                con.execute(f"CREATE TABLE {q} (a INT PRIMARY KEY) WITHOUT ROWID")
            elif kind == "view":
                con.execute(f"CREATE VIEW {q} AS SELECT 1 AS a")
                continue
            elif kind == "temp":
                con.execute(f"CREATE TEMP TABLE {q} (a INT)")
                continue
            else:
                con.execute(f"CREATE TABLE {q} (a INT, b TEXT)")
                con.execute(f"CREATE INDEX \"i {len(mine)}\" ON {q} (a)")
            mine.add(n)
        c = SQLiteClient(con)
        # SQLite's own bookkeeping tables may be shown or not
        if exactly(ck, outcome(c.ls), mine, "sqlite", ns, loose=("sqlite_sequence", "sqlite_stat1")):
            for n in sorted(mine)[:12]:
                o = outcome(c.schema, n)
                ck.expect(o.ok, "listed sqlite table can't be read", f"{n!r}: {o}", ns)
        con.close()
    elif k == "hive":
        data = {d: {t: None for t in (many(g) if len(ns) < 9 and g.coin(0.02) else g.r.sample(HOSTILE, g.r.randint(0, 3)))} for d in ns}
        c = HiveMetastoreClient(hivefake.FakeHMS(data, {}))
        exactly(ck, outcome(c.ls), set(data), "hive database", data)
        for d, _ in some(g, data):
            exactly(ck, outcome(c.ls, d), set(data[d]), "hive table", (d, data))
    elif k == "bigquery":
        data = {p: {d: {t: [] for t in g.r.sample(HOSTILE, g.r.randint(0, 3))} for d in g.r.sample(HOSTILE, g.r.randint(0, 3))} for p in ns[:3]}
        if g.coin(0.05):
            at = g.r.randrange(3)
            data = {p: {d: {t: [] for t in (many(g) if at == 2 else ns[:2])} for d in (many(g) if at == 1 else ns[:2])} for p in (many(g) if at == 0 else ns[:2])}
        c = BigQueryClient(bqfake.FakeClient(data))
        exactly(ck, outcome(c.ls), set(data), "bigquery project", data)
        for p, _ in some(g, data):
            exactly(ck, outcome(c.ls, p), set(data[p]), "bigquery dataset", (p, data))
            for d, _ in some(g, data[p]):
                exactly(ck, outcome(c.ls, p, d), set(data[p][d]), "bigquery table", (p, d, data))
                o = outcome(c.ls, p, d, g.r.choice(HOSTILE))
                ck.expect(not o.ok, "level below the leaves accepted", f"bigquery {p!r} {d!r}: {o}", data)
    elif k == "files":
        d = os.path.join(w.scratch, "here")
        os.makedirs(d)
        os.makedirs(d + "2/there")
        mine = set()
        for n in ns:
            n = n.replace("/", "")
            if not n or n in mine:
                continue
            kind = g.r.choice(["file", "dir", "link", "dangling", "hidden"])
            if kind == "hidden":
                n = "." + n + "x"
            p = os.path.join(d, n)
            if os.path.lexists(p):
                continue
            if kind == "dir":
                os.makedirs(p + "/sub")
            elif kind == "link":
                os.symlink(d + "2", p)
            elif kind == "dangling":
                os.symlink("/nonexistent/x", p)
            else:
                open(p, "w").close()
            mine.add(n)
        exactly(ck, outcome(FilesystemClient("file").ls, d + "/" * g.r.randint(0, 1)), mine, "file", ns)
        for n in mine:
            if os.path.isdir(os.path.join(d, n)) and not os.path.islink(os.path.join(d, n)):
                exactly(ck, outcome(FilesystemClient("file").ls, os.path.join(d, n) + "/"), {"sub"}, "file", (n, ns))
        for o in (outcome(FilesystemClient("file").ls, d + "/absent"), outcome(FilesystemClient("file").ls, next((os.path.join(d, n) for n in mine if os.path.isfile(os.path.join(d, n))), d + "/absent"))):
            ck.expect(not o.ok, "something that isn't a directory was listed", f"{o}", ns)
        shutil.rmtree(d)
        shutil.rmtree(d + "2")
    elif k == "memory":
        import fsspec

        fs = fsspec.filesystem("memory")
        fs.store.clear()
        fs.pseudo_dirs[:] = [""]
        mine = {n.replace("/", "").strip() for n in ns} - {"", "."}
        for n in mine:
            fs.pipe_file(f"/d/{n}", b"x")
            fs.pipe_file(f"/d2/{n}x", b"x")
        if mine:
            exactly(ck, outcome(FilesystemClient("memory").ls, "/d/"), mine, "memory file", ns)
        fs.store.clear()
    else:
        with world.World(g.r, scratch=w.scratch) as w2:
            w2.subjects = {n: [] for n in ns}
            with ConfluentRegistryClient.create(url="http://h") as c:
                exactly(ck, outcome(c.ls), set(ns), "subject", ns)


def front_ends(ck, g, s, path, want, http):
    """The same listing through the CLI and the gateway."""
    ck.event("listings through the other front ends")
    c = CliRunner().invoke(cli.app, ["ls", s.url(path)])
    o = outcome(json.loads, c.stdout)
    exactly(ck, o, want, s.system + " (CLI)", (s.url(path), c.stdout[:500]))
    if s.system != "file" or s.scheme == "file":
        world.configure([s.url() if s.system != "file" else "file:///"])
        h = http("GET", "/gateway/ls/" + asgi.tail(s.url(path, creds=False)))
        world.configure([])
        if ck.expect(h.status == 200, f"{s.system} (gateway) listing failed", f"{s.url(path)}: {h}", s.url(path)):
            exactly(ck, outcome(h.json), want, s.system + " (gateway)", s.url(path))


def walk(ck, g, s, http):
    """From the root through every listed child."""
    slash = g.coin(0.2) and s.system != "sqlite"
    for path, want in s.listing.items():
        u = s.url(path, slash=slash)
        ck.case(key=(u, tuple(sorted(want))), sample=u, family=s.system + " by URL")
        o = outcome(commands.ls, u, strict=False)
        if not want or g.coin(0.1):
            front_ends(ck, g, s, path, want, http)
        if exactly(ck, o, want, s.system, u):
            for n in o.value:
                child = (*path, n)
                ck.expect(child in s.listing or child in s.leaves, "harness", child)
    for path, want in s.leaves.items():
        u = s.url(path, slash=slash)
        ck.case(key=(u, repr(want)), sample=u, family=s.system + " leaf by URL")
        o = outcome(commands.schema, u, strict=False)
        if want is None:
            ck.expect(not o.ok, "unsupported type accepted", f"{u}: {o}")
            continue
        if ck.expect(o.ok, "listed child can't be read", f"{u}: {o}", u):
            ck.event("leaves read")
            ck.expect(tour.compare(want, o.value) is None, "wrong leaf read", f"{u}: {tour.compare(want, o.value)}", u)
        if s.system == "hive":
            exactly(ck, outcome(commands.ls, u, strict=False), {path[-1]}, "hive table itself", u)
        elif s.system not in ("confluent",):
            o = outcome(commands.ls, u, strict=False)
            ck.expect(not o.ok, "level below the leaves accepted", f"ls {u}: {o}", u)
        if s.depth:
            o = outcome(commands.ls, s.url((*path, g.r.choice(["a", "b", path[-1]]))), strict=False)
            ck.expect(not o.ok, "level below the leaves accepted", f"ls below {u}: {o}", u)


def run(ck):
    g = Gen(ck.rng)
    ck.need("names compared", 5000)
    ck.need("leaves read", 800)
    ck.need("listings through the other front ends", 200)
    for k in tour.BUILD:
        ck.need(k + " by URL", 50)
    servers = {f: dbfake.Server(f, ck.rng) for f in ("postgresql", "mysql", "snowflake")}
    http = asgi.Http(app)
    with world.World(g.r) as w:
        world.configure([])
        for i in ck.loop(4800, 90000):
            c = i // 8 % 3
            if i % 40 < 8:
                refresh(g)
            if c == 0:
                by_client(ck, g, servers)
            elif c == 1:
                others(ck, g, w)
            else:
                s = tour.BUILD[g.r.choice(list(tour.BUILD))](g, w)
                walk(ck, g, s, http)
                tour.cleanup(s)
            w.clear()
    http.close()
