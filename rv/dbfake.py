"""Stand-ins for database servers: catalogs held in an in-memory DuckDB that executes
whatever SQL the code under test sends, behind DB-API connections that log every call."""
from __future__ import annotations

import collections
import re

import duckdb

_PLACE = re.compile(r"""('(?:[^']|'')*'|"(?:[^"]|"")*"|--[^\n]*)|%\((\w+)\)s|%s|%%""")

PG_COLUMNS = [
    ("table_catalog", "varchar"), ("table_schema", "varchar"), ("table_name", "varchar"), ("column_name", "varchar"), ("ordinal_position", "integer"),
    ("column_default", "varchar"), ("is_nullable", "varchar"), ("data_type", "varchar"), ("character_maximum_length", "bigint"), ("character_octet_length", "bigint"),
    ("numeric_precision", "integer"), ("numeric_precision_radix", "integer"), ("numeric_scale", "integer"), ("datetime_precision", "integer"), ("interval_type", "varchar"),
    ("udt_catalog", "varchar"), ("udt_schema", "varchar"), ("udt_name", "varchar"), ("dtd_identifier", "varchar"), ("is_identity", "varchar"), ("is_generated", "varchar"),
]
MYSQL_COLUMNS = [
    (n.upper(), t) for n, t in PG_COLUMNS[:10]
] + [("NUMERIC_PRECISION", "bigint"), ("NUMERIC_SCALE", "bigint"), ("DATETIME_PRECISION", "integer"), ("CHARACTER_SET_NAME", "varchar"), ("COLLATION_NAME", "varchar"),
     ("COLUMN_TYPE", "varchar"), ("COLUMN_KEY", "varchar"), ("EXTRA", "varchar"), ("PRIVILEGES", "varchar"), ("COLUMN_COMMENT", "varchar"), ("GENERATION_EXPRESSION", "varchar")]
SNOWFLAKE_COLUMNS = [(n.upper(), t) for n, t in PG_COLUMNS[:10]] + [
    ("NUMERIC_PRECISION", "integer"), ("NUMERIC_PRECISION_RADIX", "integer"), ("NUMERIC_SCALE", "integer"), ("DATETIME_PRECISION", "integer"), ("COLLATION_NAME", "varchar"), ("IS_IDENTITY", "varchar"), ("COMMENT", "varchar")]

PG_TABLES = {
    "pg_namespace": [("oid", "integer"), ("nspname", "varchar"), ("nspowner", "integer")],
    "pg_class": [("oid", "integer"), ("relname", "varchar"), ("relnamespace", "integer"), ("relkind", "varchar")],
    "pg_attribute": [("attrelid", "integer"), ("attname", "varchar"), ("atttypid", "integer"), ("attnum", "integer"), ("attndims", "integer"), ("atttypmod", "integer"), ("attisdropped", "boolean")],
    "pg_type": [("oid", "integer"), ("typname", "varchar"), ("typnamespace", "integer"), ("typtype", "varchar")],
    "pg_enum": [("oid", "integer"), ("enumtypid", "integer"), ("enumsortorder", "float"), ("enumlabel", "varchar")],
}


def lit(v):
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    return "'" + str(v).replace("'", "''") + "'"


class DatabaseError(Exception):
    pass


class InjectedFault(Exception):
    pass


class Server:
    """One database server. `databases` {db: {schema: {table: [column, ...]}}}; a column is
    {"row": {...information_schema.columns...}, and for PostgreSQL "ndims", "enum" (labels or None)}."""

    def __init__(self, flavor, rng):
        self.flavor, self.rng = flavor, rng
        self.con = duckdb.connect(":memory:")
        self.con.execute("set threads=1")
        self.upper = flavor != "postgresql"
        self.columns = {"postgresql": PG_COLUMNS, "mysql": MYSQL_COLUMNS, "snowflake": SNOWFLAKE_COLUMNS}[flavor]
        u = (lambda s: s.upper()) if self.upper else (lambda s: s)
        self.tables = {
            "rv_information_schema.columns": self.columns,
            "rv_information_schema.tables": [(u(n), "varchar") for n in ("table_catalog", "table_schema", "table_name", "table_type")],
            "rv_information_schema.schemata": [(u(n), "varchar") for n in ("catalog_name", "schema_name", "schema_owner")],
        }
        self.con.execute("create schema rv_information_schema")
        if flavor == "postgresql":
            self.con.execute("create schema rv_pg_catalog")
            for t, c in PG_TABLES.items():
                self.tables["rv_pg_catalog." + t] = c
            self.tables["rv_pg_catalog.pg_database"] = [("oid", "integer"), ("datname", "varchar"), ("datistemplate", "boolean"), ("datallowconn", "boolean")]
        elif flavor == "snowflake":
            self.tables["rv_information_schema.databases"] = [("DATABASE_NAME", "varchar"), ("DATABASE_OWNER", "varchar")]
        else:
            self.tables["rv_information_schema.catalogs"] = [("CATALOG_NAME", "varchar")]
        for t, c in self.tables.items():
            self.con.execute(f"create table {t} ({', '.join(f'{n} {ty}' for n, ty in c)})")
        if flavor == "postgresql":
            self.con.execute("set search_path='main,rv_pg_catalog'")
        self.databases = {}
        self.pg_db = None
        self.log = []
        self.open = 0
        self.fault = None

    def _put(self, table, rows):
        rows = list(rows)
        self.rng.shuffle(rows)
        self.con.execute(f"delete from {table}")
        cols = self.tables[table]
        if rows:
            self.con.execute(f"insert into {table} values " + ",".join("(" + ",".join(lit(r.get(n)) for n, _ in cols) + ")" for r in rows))

    def load(self, databases):
        self.databases = databases
        self.pg_db = None
        u = (lambda d: {k.upper(): v for k, v in d.items()}) if self.upper else (lambda d: d)
        cols, tabs, schemas = [], [], []
        for db, ss in databases.items():
            for s, ts in ss.items():
                schemas.append(u({"catalog_name": db, "schema_name": s, "schema_owner": self.rng.choice(["a", "postgres", None])}))
                for t, cs in ts.items():
                    tabs.append(u({"table_catalog": db, "table_schema": s, "table_name": t, "table_type": self.rng.choice(["BASE TABLE", "BASE TABLE", "VIEW", "SYSTEM VIEW", "FOREIGN", "LOCAL TEMPORARY", "MATERIALIZED VIEW", "EXTERNAL TABLE"])}))
                    for c in cs:
                        cols.append(u({**c["row"], "table_catalog": db, "table_schema": s, "table_name": t}))
        self._put("rv_information_schema.columns", cols)
        self._put("rv_information_schema.tables", tabs)
        self._put("rv_information_schema.schemata", schemas)
        if self.flavor == "postgresql":
            self._put("rv_pg_catalog.pg_database", [{"oid": i, "datname": d, "datistemplate": self.rng.random() < 0.2, "datallowconn": self.rng.random() < 0.8} for i, d in enumerate(databases)])
        elif self.flavor == "snowflake":
            self._put("rv_information_schema.databases", [{"DATABASE_NAME": d, "DATABASE_OWNER": self.rng.choice(["", "SYSADMIN", None])} for d in databases])
        else:
            self._put("rv_information_schema.catalogs", [{"CATALOG_NAME": d} for d in databases])

    def _use(self, db):
        if self.flavor != "postgresql" or db == self.pg_db:
            return
        self.pg_db = db
        oids = self.rng.sample(range(1000, 90000), 1000 + sum(3 + sum(4 + len(c.get("enum") or ()) for c in cs) for ts in self.databases.get(db, {}).values() for cs in ts.values()) + 3 * sum(map(len, [self.databases, self.databases.get(db, {})])))
        ns, cl, at, ty, en = [], [], [], [], []
        base = {}
        for s, ts in self.databases.get(db, {}).items():
            n = oids.pop()
            ns.append({"oid": n, "nspname": s, "nspowner": 10})
            for t, cs in ts.items():
                c = oids.pop()
                cl.append({"oid": c, "relname": t, "relnamespace": n, "relkind": self.rng.choice("rrrvmpf")})
                at.append({"attrelid": c, "attname": "ctid", "atttypid": 27, "attnum": -1, "attndims": 0, "atttypmod": -1, "attisdropped": False})
                for col in cs:
                    if col.get("enum") is not None:
                        o = oids.pop()
                        ty.append({"oid": o, "typname": col["row"]["udt_name"], "typnamespace": n, "typtype": "e"})
                        order = sorted(self.rng.uniform(0, 100) for _ in col["enum"])
                        for lab, so in zip(col["enum"], order):
                            en.append({"oid": oids.pop(), "enumtypid": o, "enumsortorder": so, "enumlabel": lab})
                    else:
                        key = col["row"].get("udt_name") or col["row"]["data_type"]
                        if key not in base:
                            base[key] = oids.pop()
                            ty.append({"oid": base[key], "typname": key, "typnamespace": 11, "typtype": "b"})
                        o = base[key]
                    at.append({"attrelid": c, "attname": col["row"]["column_name"], "atttypid": o, "attnum": col["row"]["ordinal_position"], "attndims": col.get("ndims", 0), "atttypmod": -1, "attisdropped": False})
        # an enum type nobody uses
        o = oids.pop()
        ty.append({"oid": o, "typname": "unused", "typnamespace": 11, "typtype": "e"})
        en += [{"oid": oids.pop(), "enumtypid": o, "enumsortorder": 1.0, "enumlabel": "unused"}]
        for t, rows in (("pg_namespace", ns), ("pg_class", cl), ("pg_attribute", at), ("pg_type", ty), ("pg_enum", en)):
            self._put("rv_pg_catalog." + t, rows)

    def translate(self, sql, params):
        named = isinstance(params, dict)
        out_params = []

        def place(m):
            if m.group(1):
                return m.group(1)
            if m.group(0) == "%%":
                return "%"
            if m.group(2):
                out_params.append(params[m.group(2)])
            else:
                out_params.append(params[len(out_params)])
            return "?"

        if params:
            sql = _PLACE.sub(place, sql)
            if not named and len(out_params) != len(params):
                raise DatabaseError("not all arguments converted")
        sql = re.sub(r"\binformation_schema\s*\.", "rv_information_schema.", sql, flags=re.I)
        sql = re.sub(r"\bpg_catalog\s*\.", "rv_pg_catalog.", sql, flags=re.I)
        sql = re.sub(r"\b\w+\.(\w+)\.\*", r"\1.*", sql)
        return sql, out_params

    def event(self, what, *detail):
        self.log.append((what, *detail))
        if self.fault is not None:
            self.fault(what, len(self.log))

    def connect(self, db=None):
        self.open += 1
        return Connection(self, db)


class Connection:
    def __init__(self, server, db):
        self.server, self.db = server, db
        self.closed = 0

    def _check(self):
        if self.closed:
            self.server.log.append(("use after close",))
            raise DatabaseError("connection already closed")

    def cursor(self, *a, **k):
        self._check()
        self.server.event("cursor")
        return Cursor(self)

    def commit(self):
        self._check()
        self.server.event("commit")

    def rollback(self):
        self._check()
        self.server.event("rollback")

    def close(self):
        if not self.closed:
            self.server.open -= 1
            self.closed = 1
            self.server.log.append(("close",))

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        # psycopg2 ends the transaction and stays open, the others close
        if self.server.flavor == "postgresql":
            self.server.log.append(("end of transaction",))
        else:
            self.close()

    def __del__(self):
        pass


Described = collections.namedtuple("Described", "name type_code display_size internal_size precision scale null_ok")


class Cursor:
    arraysize = 1

    def __init__(self, con):
        self.connection = con
        self.rows = None
        self.description = None
        self.pos = 0
        self.closed = False

    def execute(self, sql, params=None, **k):
        self.connection._check()
        s = self.connection.server
        s.event("execute", sql, params)
        s._use(self.connection.db)
        q, p = s.translate(sql, params)
        try:
            r = s.con.execute(q, p)
            self.description = [Described(*d) for d in r.description]
            self.rows = r.fetchall()
        except duckdb.Error as e:
            raise DatabaseError(f"{e}\n{q}") from None
        self.pos = 0
        return self

    def executemany(self, sql, seq):
        for p in seq:
            self.execute(sql, p)

    def _ready(self):
        self.connection._check()
        if self.rows is None or self.closed:
            raise DatabaseError("no results to fetch")
        self.connection.server.event("fetch")

    def fetchall(self):
        self._ready()
        out, self.pos = self.rows[self.pos:], len(self.rows)
        return out

    def fetchone(self):
        self._ready()
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchmany(self, size=1):
        self._ready()
        out = self.rows[self.pos : self.pos + size]
        self.pos += len(out)
        return out

    def __iter__(self):
        while True:
            r = self.fetchone()
            if r is None:
                return
            yield r

    @property
    def rowcount(self):
        return len(self.rows) if self.rows is not None else -1

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
