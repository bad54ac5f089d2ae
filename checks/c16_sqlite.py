"""C16: SQLite tables, on real databases."""
import hashlib, json, os, re, sqlite3, tempfile, shutil
from recap import types as T
from recap.clients import create_client
from recap.clients.sqlite import SQLiteClient
from rv import model as M
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C16", "exploration"
TECHNIQUE = "runtime monitoring: real SQLite databases with an authoriser that records every action, SQLite's own CAST as affinity oracle"
RULE = ("seeded random real SQLite databases (any table and column names, declared types made of affinity keywords and other words, lengths and precisions written every way, generated columns, "
        "primary keys, defaults, WITHOUT ROWID, temporary look-alikes) read through the client; the affinity expected is measured by casting values in SQLite itself; every action SQLite authorises is recorded and "
        "the database file hashed before and after; non-trivial = distinct table")
ASSUMPTIONS = ["primary key columns are not nullable", "columns of NUMERIC affinity may hold every storage class, NULL included", "a declared float precision of up to 23 means 32 bits"]
MAX = 2147483647
WRITES = {sqlite3.SQLITE_INSERT, sqlite3.SQLITE_UPDATE, sqlite3.SQLITE_DELETE, sqlite3.SQLITE_CREATE_INDEX, sqlite3.SQLITE_CREATE_TABLE, sqlite3.SQLITE_CREATE_TRIGGER, sqlite3.SQLITE_CREATE_VIEW, sqlite3.SQLITE_CREATE_VTABLE,
          sqlite3.SQLITE_DROP_INDEX, sqlite3.SQLITE_DROP_TABLE, sqlite3.SQLITE_DROP_TRIGGER, sqlite3.SQLITE_DROP_VIEW, sqlite3.SQLITE_DROP_VTABLE, sqlite3.SQLITE_ALTER_TABLE, sqlite3.SQLITE_REINDEX, sqlite3.SQLITE_ANALYZE, sqlite3.SQLITE_ATTACH, sqlite3.SQLITE_DETACH}
WORDS = ["INT", "INTEGER", "BIGINT", "TINYINT", "CHAR", "VARCHAR", "CHARACTER", "VARYING", "NCHAR", "TEXT", "CLOB", "BLOB", "REAL", "DOUBLE", "FLOAT", "PRECISION", "NUMERIC", "DECIMAL", "BOOLEAN", "DATE", "DATETIME",
         "STRING", "POINT", "FLOATING", "UNSIGNED", "BIG", "LONG", "JSON", "x", "money", "Xint", "ext", "loa", "INTEXT", "REALBLOB", "CHARINT", "BLOBCHAR", "doubt", "floaty", "my_type", "uuid"]
NAMES = ["t", "T2", "order", "select", "a b", 'q"uote', "it's", "x;y", "[br]", "`tick`", "日本", "1st", "", " ", "--", "a.b", "a/b", "%", "_", "main", "sqlitex", 'x"); DROP TABLE keep; --', "table_xinfo", "é" * 40, "\\", "a'b\"c", "%s", "?", "\t"]


def q(s):
    return '"' + s.replace('"', '""') + '"'


def declared(g):
    """A declared type as written in the DDL; (text, first parameter or None)."""
    r = g.r
    if g.coin(0.08):
        return "", None
    words = [r.choice(WORDS) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    words = [w if g.coin(0.6) else r.choice([w.lower(), w.capitalize()]) for w in words]
    sep = r.choice([" ", " ", "  "])
    text = sep.join(words)
    if g.coin(0.08):
        return '"' + text + '"', None
    p = None
    if g.coin(0.5):
        p = r.choice([1, 8, 23, 24, 25, 53, 255, 10000, MAX])
        if g.coin(0.3):
            s = r.choice([0, 2, 10])
            text += r.choice(["({},{})", "({}, {})", " ( {} , {} )"]).format(p, s)
        else:
            text += r.choice(["({})", " ({})", "( {} )"]).format(p)
    return text, p


def affinity(db, decl):
    """What SQLite itself makes of a declared type."""
    if not decl:
        return "blob"
    a, b = db.execute(f"select typeof(cast('1' as {decl})), typeof(cast('1.5' as {decl}))").fetchone()
    return {("integer", "integer"): "integer", ("integer", "real"): "numeric", ("real", "real"): "real", ("text", "text"): "text", ("blob", "blob"): "blob"}[(a, b)]


def expected(db, decl, p):
    a = affinity(db, decl)
    if a == "integer":
        return M.integer(64)
    if a == "real":
        return M.flt(32 if p and p <= 23 else 64)
    if a == "text":
        return M.string(p or MAX)
    if a == "blob":
        return M.byts(p or MAX)
    return M.union([M.null(), M.integer(64), M.flt(64), M.string(MAX), M.byts(MAX)])


def table(g, db, name, ck):
    """Creates the table; returns the expected fields."""
    r = g.r
    cols, fields = [], []
    lower = set()
    n = r.choice([1, 2, 3, 5, 9])
    pk = r.choice([None, "column", "table", None])
    strictpk = None
    for i in range(n):
        while True:
            cn = r.choice(NAMES) if g.coin() else g.ident()
            if cn.casefold() not in lower:
                break
        lower.add(cn.casefold())
        decl, p = declared(g)
        notnull = g.coin(0.3)
        default = r.choice([None, None, None, "5", "'x'", "'it''s'", "(1+2)", "CURRENT_TIMESTAMP", "NULL", "-1.5", "x'00'", "''"])
        generated = i > 0 and g.coin(0.08)
        is_pk = pk == "column" and i == 0
        ddl = f"{q(cn)} {decl}"
        if is_pk:
            ddl += " PRIMARY KEY"
        if generated:
            default, is_pk = None, False
            ddl += f" GENERATED ALWAYS AS ({q(cols[0][0])}) " + r.choice(["VIRTUAL", "STORED"])
        if notnull:
            ddl += " NOT NULL"
        if default is not None and not generated:
            ddl += f" DEFAULT {default}"
        cols.append((cn, ddl, generated))
        node = expected(db, decl, p)
        ck.event("affinity " + (node["k"] if node["k"] != "union" else "numeric"))
        fields.append([cn, node, notnull or is_pk, default, generated])
    tail = ""
    extra = ""
    if pk == "table":
        keys = r.sample([c for c in cols if not c[2]], r.randint(1, len([c for c in cols if not c[2]])))
        extra = ", PRIMARY KEY (" + ", ".join(q(k[0]) for k in keys) + ")"
        for f in fields:
            if f[0] in [k[0] for k in keys]:
                f[2] = True
        if g.coin(0.4):
            tail = " WITHOUT ROWID"
    elif pk == "column" and g.coin(0.3):
        tail = " WITHOUT ROWID"
    db.execute(f"CREATE TABLE {q(name)} ({', '.join(c[1] for c in cols)}{extra}){tail}")
    out = []
    for cn, node, notnull, default, generated in fields:
        if default == "(1+2)":
            default = "1+2"
        if not notnull and node["k"] != "union":
            node = M.union([M.null(), node])
        if not notnull or default is not None:
            node["x"]["default"] = default
        node["x"]["name"] = cn
        out.append(node)
    return out


def digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest(), sorted(os.listdir(os.path.dirname(path)))


def run(ck):
    g = Gen(ck.rng)
    ck.need("tables read", 500)
    for a in ("int", "float", "string", "bytes", "numeric"):
        ck.need("affinity " + a, 100)
    ck.need("actions authorised", 500)
    scratch = tempfile.mkdtemp(prefix="rv-sqlite-")
    try:
        for i in ck.loop(4000, 40000):
            path = os.path.join(scratch, "db.sqlite")
            if os.path.exists(path):
                os.unlink(path)
            db = sqlite3.connect(path)
            want, lower = {}, set()
            for _ in range(g.r.randint(1, 4)):
                name = g.r.choice(NAMES) if g.coin(0.7) else g.ident()
                if name.casefold() in lower or name.casefold().startswith("sqlite_"):
                    continue
                lower.add(name.casefold())
                want[name] = table(g, db, name, ck)
            if g.coin(0.3) and "v" not in lower:
                db.execute("CREATE VIEW v AS SELECT 1 AS a")
            db.commit()
            ddl = [r[0] for r in db.execute("select sql from sqlite_schema where type='table'")]
            before = digest(path)
            for name, fields in want.items():
                ck.case(key=(name, ddl), sample=ddl[:2], family="table")
                traced = []
                if g.coin(0.7):
                    con = sqlite3.connect(path)
                    con.set_authorizer(lambda what, a, b, where, trigger: traced.append((what, a, b, where)) or sqlite3.SQLITE_OK)
                    o = outcome(lambda: SQLiteClient(con).schema(name))
                    ck.expect(con.total_changes == 0 and not con.in_transaction, "reading changed the database", name, ddl)
                    con.close()
                    ck.event("actions authorised", len(traced))
                    for s in traced:
                        ck.expect(s[0] not in WRITES or s[3] == "temp", "statement that isn't a query", s, ddl)
                else:
                    def via_url():
                        with create_client("sqlite:///" + path) as c:
                            return c.schema(name)
                    o = outcome(via_url)
                exp = M.struct(fields)
                if not ck.expect(o.ok, "table refused", f"{o}: {name!r} {ddl}", ddl):
                    continue
                ck.event("tables read")
                got = M.snap_resolved(o.value)
                ck.expect(M.same(exp, got), "table misread", f"{M.diff(exp, got)}: {name!r} {ddl}", ddl)
                back = outcome(lambda: M.snap_resolved(T.from_dict(json.loads(json.dumps(T.to_dict(o.value))))))
                ck.expect(back.ok and M.same(M.normal(exp), M.normal(back.value)), "result can't be serialised and read again", f"{back}: {ddl}", ddl)
            for bad in ("no such table", "sqlite_schema2", list(want)[0] + "x", "v"):
                if bad not in want:
                    con = sqlite3.connect(path)
                    o = outcome(lambda: SQLiteClient(con).schema(bad))
                    con.close()
                    ck.event("absent tables")
                    ck.expect(not o.ok, "absent table read", f"{bad!r}: {o}", ddl)
            db.close()
            ck.expect(digest(path) == before, "reading changed the database file", f"{before} {digest(path)}", ddl)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
