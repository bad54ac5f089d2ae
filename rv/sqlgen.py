"""Generators of SQL columns: the catalog row a server would report, with the Recap type of the column."""
from __future__ import annotations

from rv import model as M

GB = 1073741824
NAMES = ["id", "ID", "a", "b", "a_b", "axb", "a%b", "value", "order", "select", "Größe", "1st", "col 1", "x-y", "x.y", "x_y", 'q"uote', "it's", "日本", "_", "é", "name", "type", "table_name", "ordinal_position", "default", "a" * 60, "%s", "{x}", "\\", "`b`"]
SPACES = ["a", "b", "A", "a_b", "axb", "public", "Public", "a%", "a'b", "information", "x y", "def"]


def unit(p):
    return "second" if p == 0 else "millisecond" if p <= 3 else "microsecond" if p <= 6 else "nanosecond"


def case(r, s):
    return r.choice([s, s, s.upper(), s.capitalize()])


# attributes of a column that say nothing about its type
NOISE = {
    "interval_type": ["YEAR", None], "udt_catalog": ["a", None], "udt_schema": ["pg_catalog", "public", None], "dtd_identifier": ["1", "12", None], "is_identity": ["YES", "NO"], "is_generated": ["ALWAYS", "NEVER"],
    "character_set_name": ["utf8mb4", "latin1", "binary", None], "collation_name": ["utf8mb4_0900_ai_ci", "C", None], "column_key": ["", "PRI", "UNI", "MUL"], "privileges": ["select,insert", ""],
    "extra": ["", "auto_increment", "DEFAULT_GENERATED on update CURRENT_TIMESTAMP", "VIRTUAL GENERATED", "INVISIBLE"], "column_comment": ["", "x", "unsigned"], "comment": [None, "x"], "generation_expression": ["", "(`a` + 1)"],
}


def finish(g, n, row):
    """nullability and default -> (row, node)."""
    r = g.r
    nullable = r.random() < 0.5
    default = r.choice([None, None, None, "0", "'x'::text", "now()", "", "NULL", "nextval('s'::regclass)", "é"])
    if g.coin(0.2):
        default = g.text()
    for k, vs in NOISE.items():
        if g.coin(0.4):
            row[k] = r.choice(vs) if g.coin(0.9) or None in vs[:1] else g.text()
    row["is_nullable"] = r.choice(["YES", "YES", "yes", "Yes"]) if nullable else r.choice(["NO", "no"])
    row["column_default"] = default
    if n is not None:
        if nullable:
            if n["k"] == "union":
                # already a union: null is added to its members
                ts = n["types"] if any(t["k"] == "null" for t in n["types"]) else [M.null()] + n["types"]
                n = dict(n, types=ts)
            else:
                n = M.union([M.null(), n])
        if nullable or default is not None:
            n["x"]["default"] = default
    return row, n


PG_ELEMENTS = {
    "int8": lambda: M.integer(64), "int4": lambda: M.integer(32), "int2": lambda: M.integer(16), "float8": lambda: M.flt(64), "float4": lambda: M.flt(32), "bool": lambda: M.boolean(),
    "text": lambda: M.string(GB), "varchar": lambda: M.string(GB), "json": lambda: M.string(GB), "jsonb": lambda: M.string(GB), "bpchar": None, "uuid": lambda: M.string(36, False, logical="build.recap.UUID"),
    "bytea": lambda: M.byts(GB), "char": lambda: M.string(GB, False), "bit": lambda: M.byts(GB, False),
}
PG_BAD = ["date", "time without time zone", "interval", "inet", "point", "xml", "money", "tsvector", "oid", "USER-DEFINED", "citext", "intbig", "int16", "real8", "bool8", "hstore", "uuidx", "ARRAY?"]


def pg_column(g, bad=0.0, enforce=False):
    r = g.r
    row = {"data_type": None, "udt_name": None}
    col = {"row": row, "ndims": 0, "enum": None}
    if r.random() < bad:
        t = r.choice(PG_BAD)
        if t == "ARRAY?":
            row["data_type"], row["udt_name"], col["ndims"] = "ARRAY", "_" + r.choice(["inet", "date", "mood", "point"]), 1
        else:
            row["data_type"] = t
            row["udt_name"] = t.lower()
        finish(g, None, row)
        return col, None
    k = r.choice(["int", "int", "float", "bool", "vary", "text", "json", "char", "uuid", "bytea", "bit", "varbit", "ts", "num", "array", "array", "enum", "enum"])
    if k == "int":
        t, b = r.choice([("bigint", 64), ("int8", 64), ("bigserial", 64), ("serial8", 64), ("integer", 32), ("int", 32), ("int4", 32), ("serial", 32), ("serial4", 32), ("smallint", 16), ("int2", 16), ("smallserial", 16), ("serial2", 16)])
        row.update(data_type=case(r, t), numeric_precision=b, numeric_precision_radix=2, numeric_scale=0)
        n = M.integer(b)
    elif k == "float":
        t, b = r.choice([("double precision", 64), ("float8", 64), ("real", 32), ("float4", 32)])
        row.update(data_type=case(r, t), numeric_precision=53 if b == 64 else 24, numeric_precision_radix=2)
        n = M.flt(b)
    elif k == "bool":
        row["data_type"] = case(r, r.choice(["boolean", "bool"]))
        n = M.boolean()
    elif k in ("vary", "text"):
        ln = g.intval(1, 10485760, [1, 2, 10, 255, 1000, 10485760])
        if k == "text" or r.random() < 0.2:
            row.update(data_type=case(r, "text" if k == "text" else "character varying"), character_octet_length=GB)
            n = M.string(GB)
        else:
            row.update(data_type=case(r, r.choice(["character varying", "varchar"])), character_maximum_length=ln, character_octet_length=ln * 4)
            n = M.string(ln * 4)
    elif k == "json":
        row["data_type"] = r.choice(["json", "jsonb"])
        n = M.string(None)
    elif k == "char":
        ln = g.intval(1, 10485760, [1, 2, 10, 255, 1000])
        row.update(data_type=case(r, r.choice(["character", "char"])), character_maximum_length=ln, character_octet_length=ln * 4)
        n = M.string(ln * 4, False)
    elif k == "uuid":
        row["data_type"] = "uuid"
        n = M.string(36, False, logical="build.recap.UUID")
    elif k == "bytea":
        row["data_type"] = "bytea"
        n = M.byts(GB)
    elif k == "varbit":
        row.update(data_type="bit varying", character_maximum_length=r.choice([None, 1, 9, 1000]))
        n = M.byts(GB)
    elif k == "bit":
        ln = g.intval(1, 83886080, [1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 1000])
        row.update(data_type="bit", character_maximum_length=ln)
        n = M.byts((ln + 7) // 8, False)
    elif k == "ts":
        p = r.choice([0, 1, 2, 3, 4, 5, 6, 6])
        row.update(data_type=case(r, r.choice(["timestamp without time zone", "timestamp with time zone", "timestamp", "timestamptz"])), datetime_precision=p)
        n = M.integer(64, logical="build.recap.Timestamp", x={"unit": unit(p)})
    elif k == "num":
        p = g.intval(1, 1000, [1, 10, 38, 1000]) if g.coin(0.8) else None
        s = None if p is None else r.choice([0, 0, 2, p, -2, r.randint(0, p)])
        row.update(data_type=case(r, r.choice(["numeric", "decimal"])), numeric_precision=p, numeric_precision_radix=10, numeric_scale=s)
        n = M.byts(32, False, logical="build.recap.Decimal", x={"precision": p, "scale": s})
    elif k == "array":
        t = r.choice([t for t, f in PG_ELEMENTS.items() if f])
        col["ndims"] = g.few(1, 1, 2, 3, 6, most=6, far=6)
        row.update(data_type="ARRAY", udt_name="_" + t)
        e = PG_ELEMENTS[t]()
        if enforce:
            n = M.union([M.null(), e])
            for _ in range(col["ndims"]):
                n = M.lst(n)
        else:
            n = M.lst(M.union([e, {"k": "rec", "alias": "ARRAY"}]), alias="ARRAY")
    else:
        labels = r.sample(["sad", "ok", "happy", "a", "b", "A", "z", "Z", "1", "", "é", "it's", "null", "y x", "0", " a", "a ", "A "], r.randint(1, 8))
        for _ in range(g.few(0, 0, 0, 1, 2, most=60, far=1200)):
            if (lab := g.text()[:40]) not in labels:
                labels.insert(r.randint(0, len(labels)), lab)
        col["enum"] = labels
        row.update(data_type="USER-DEFINED", udt_name=r.choice(["mood", "state", "kind"]) + str(r.randint(0, 3)))
        n = M.enum(labels)
    row["udt_name"] = row["udt_name"] or row["data_type"].lower()
    row, n = finish(g, n, row)
    return col, n


MYSQL_BAD = ["date", "time", "geometry", "point", "bigints", "long", "real", "fixed", "vector", "serial", "boolean", "int4"]


def mysql_column(g, bad=0.0):
    r = g.r
    row = {"data_type": None}
    if r.random() < bad:
        row.update(data_type=r.choice(MYSQL_BAD))
        row["column_type"] = row["data_type"]
        finish(g, None, row)
        return {"row": row}, None
    k = r.choice(["int", "int", "int", "float", "text", "varchar", "char", "blob", "varbinary", "binary", "bit", "ts", "dec", "year", "enum"])
    if k == "int":
        t, b = r.choice([("bigint", 64), ("int", 32), ("integer", 32), ("mediumint", 24), ("smallint", 16), ("tinyint", 8)])
        u = r.random() < 0.4
        disp = r.choice(["", f"({r.choice([1, 4, 10, 11, 20])})"])
        row.update(data_type=case(r, t), column_type=t + disp + (r.choice([" unsigned", " UNSIGNED", " unsigned zerofill"]) if u else ""), numeric_precision={64: 20 if u else 19, 32: 10, 24: 7, 16: 5, 8: 3}[b], numeric_scale=0)
        n = M.integer(b, not u)
    elif k == "float":
        t, p, b = r.choice([("double", 22, 64), ("double", 10, 64), ("float", 12, 32), ("float", 7, 32), ("float", 23, 32), ("float", 24, 64), ("float", 53, 64)])
        row.update(data_type=case(r, t), column_type=t + r.choice(["", " unsigned"]), numeric_precision=p)
        n = M.flt(b)
    elif k == "text":
        t, ln = r.choice([("tinytext", 255), ("text", 65535), ("mediumtext", 16777215), ("longtext", 4294967295), ("json", None)])
        row.update(data_type=case(r, t), column_type=t, character_maximum_length=ln, character_octet_length=ln)
        n = M.string(ln)
    elif k in ("varchar", "char"):
        ln = g.intval(1, 16383, [1, 10, 255, 16383])
        w = r.choice([1, 3, 4])
        row.update(data_type=case(r, k), column_type=f"{k}({ln})", character_maximum_length=ln, character_octet_length=ln * w)
        n = M.string(ln * w, k == "varchar")
    elif k == "enum":
        t = r.choice(["enum", "set"])
        vals = r.sample(["x", "yy", "unsigned", "zzz", "int unsigned", "a)", "é", "y z"], 2)
        ln = max(map(len, vals))
        row.update(data_type=t, column_type=f"{t}({','.join(repr(v) for v in vals)})", character_maximum_length=ln, character_octet_length=ln * 4)
        n = M.string(ln * 4, False)
    elif k == "blob":
        t, ln = r.choice([("tinyblob", 255), ("blob", 65535), ("mediumblob", 16777215), ("longblob", 4294967295)])
        row.update(data_type=case(r, t), column_type=t, character_maximum_length=ln, character_octet_length=ln)
        n = M.byts(ln)
    elif k in ("varbinary", "binary"):
        ln = g.intval(1, 65535, [1, 16, 255, 1000])
        row.update(data_type=case(r, k), column_type=f"{k}({ln})", character_maximum_length=ln, character_octet_length=ln)
        n = M.byts(ln, k == "varbinary")
    elif k == "bit":
        p = r.randint(1, 64)
        row.update(data_type="bit", column_type=f"bit({p})", numeric_precision=p)
        n = M.byts(8, False)
    elif k == "ts":
        t = r.choice(["timestamp", "datetime"])
        p = r.randint(0, 6)
        row.update(data_type=case(r, t), column_type=t + (f"({p})" if p else ""), datetime_precision=p)
        n = M.integer(64, logical="build.recap.Timestamp", x={"unit": unit(p)})
    elif k == "dec":
        p = g.intval(1, 65, [1, 10, 38, 65])
        s = r.choice([0, 0, 1, min(p, 30), r.randint(0, min(p, 30))])
        t = r.choice(["decimal", "dec", "numeric"])
        row.update(data_type=case(r, t), column_type=f"decimal({p},{s})" + r.choice(["", " unsigned"]), numeric_precision=p, numeric_scale=s)
        n = M.byts(32, False, logical="build.recap.Decimal", x={"precision": p, "scale": s})
    else:
        row.update(data_type="year", column_type="year")
        n = M.integer(16, False)
    row, n = finish(g, n, row)
    return {"row": row}, n


SNOW_BAD = ["VARIANT", "OBJECT", "ARRAY", "GEOGRAPHY", "GEOMETRY", "VECTOR", "MAP", "INTERVAL", "JSON", "UUID", "BIT"]


def snowflake_column(g, bad=0.0):
    r = g.r
    row = {"data_type": None}
    if r.random() < bad:
        row["data_type"] = r.choice(SNOW_BAD)
        finish(g, None, row)
        return {"row": row}, None
    k = r.choice(["float", "bool", "num", "num", "num", "text", "text", "char", "bin", "date", "ts", "ts", "time", "time"])
    if k == "float":
        row["data_type"] = case(r, r.choice(["FLOAT", "FLOAT4", "FLOAT8", "DOUBLE", "DOUBLE PRECISION", "REAL"]))
        n = M.flt(64)
    elif k == "bool":
        row["data_type"] = case(r, "boolean")
        n = M.boolean()
    elif k == "num":
        p = r.randint(1, 38)
        s = r.choice([0, 0, min(2, p), p - 1, min(p, 37), r.randint(0, min(p, 37))])
        row.update(data_type=case(r, r.choice(["NUMBER", "DECIMAL", "NUMERIC", "INT", "INTEGER", "BIGINT", "SMALLINT", "TINYINT", "BYTEINT", f"NUMBER({p},{s})"])), numeric_precision=p, numeric_precision_radix=10, numeric_scale=s)
        if r.random() < 0.1:
            row.update(numeric_precision=None, numeric_scale=None)
            p, s = 38, 0
            row["data_type"] = "NUMBER"
        n = M.byts(16, False, logical="build.recap.Decimal", x={"precision": p, "scale": s})
    elif k in ("text", "char"):
        ln = g.intval(1, 4194304, [1, 10, 255, 4194304])
        dt = r.choice(["TEXT", "VARCHAR", "STRING", "NVARCHAR", "NVARCHAR2", "CHAR VARYING", "NCHAR VARYING"] if k == "text" else ["CHAR", "NCHAR", "CHARACTER"])
        row.update(data_type=case(r, dt), character_maximum_length=ln, character_octet_length=ln * 4)
        n = M.string(ln * 4)
        if r.random() < 0.1:
            row.update(character_maximum_length=None, character_octet_length=None)
            n = M.string(16777216 if k == "text" else 1)
    elif k == "bin":
        ln = g.intval(1, 8388608, [1, 100, 8388608])
        row.update(data_type=case(r, r.choice(["BINARY", "VARBINARY", "BLOB"])), character_maximum_length=ln, character_octet_length=ln)
        n = M.byts(ln)
        if r.random() < 0.1:
            row.update(character_maximum_length=None, character_octet_length=None)
            n = M.byts(8388608)
    elif k == "date":
        row["data_type"] = case(r, "date")
        n = M.integer(32, logical="build.recap.Date", x={"unit": "day"})
    else:
        p = r.randint(0, 9)
        style = r.random()
        dt = "TIME" if k == "time" else r.choice(["TIMESTAMP_NTZ", "TIMESTAMP_LTZ", "TIMESTAMP_TZ", "TIMESTAMP", "DATETIME", "TIMESTAMPNTZ"])
        if style < 0.6:
            row["datetime_precision"] = p
        elif style < 0.8:
            dt += f"({p})"
        else:
            p = 9
        row["data_type"] = case(r, dt)
        n = M.integer(64 if k == "ts" else 32, logical="build.recap.Timestamp" if k == "ts" else "build.recap.Time", x={"unit": unit(p)})
    row, n = finish(g, n, row)
    return {"row": row}, n


COLUMN = {"postgresql": pg_column, "mysql": mysql_column, "snowflake": snowflake_column}


def table(g, flavor, bad=0.0, **k):
    """(columns, expected fields or None when the table can't be read)."""
    r = g.r
    k0 = g.few(0, 1, 2, 3, 5, 8, most=30, far=1200, rare=0.03)
    names = r.sample(NAMES, min(k0, len(NAMES)))
    while len(names) < k0 or g.coin(0.2):
        nm = r.choice([g.name, g.text, g.lookalike])()[:60]
        if nm and nm not in names and nm != "ctid":
            names.append(nm)
        elif f"c{len(names)}" not in names:
            names.append(f"c{len(names)}")
    r.shuffle(names)
    bad = min(bad, 0.2 / max(1, len(names)))
    cols, fields, ok = [], [], True
    pos = 0
    for nm in names:
        c, n = COLUMN[flavor](g, bad, **k)
        pos += r.choice([1, 1, 2, 9])
        c["row"].update(column_name=nm, ordinal_position=pos)
        cols.append(c)
        if n is None:
            ok = False
        else:
            n["x"]["name"] = nm
            fields.append(n)
    return cols, (fields if ok else None)


def catalog(g, flavor, ndb=2, nschema=3, ntable=3, bad=0.03, **k):
    """{db: {schema: {table: columns}}} and {(db, schema, table): fields}. Names are drawn
    from the same small pool at every level, so swapped or loose filters show."""
    r = g.r
    out, want = {}, {}
    pool = r.sample(SPACES, 4)
    dbs = ["def"] if flavor == "mysql" else r.sample(pool, min(ndb, 4))
    for d in dbs:
        out[d] = {}
        for s in r.sample(pool, min(nschema, 4)):
            out[d][s] = {}
            for t in r.sample(pool, r.randint(0, min(ntable, 4))):
                cols, fields = table(g, flavor, bad, **k)
                out[d][s][t] = cols
                want[(d, s, t)] = fields
    return out, want
