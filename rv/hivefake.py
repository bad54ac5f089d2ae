"""Hive tables and a recording stand-in for pymetastore's HMS client."""
from __future__ import annotations

from pymetastore.hive_metastore.ttypes import Date, Decimal
from pymetastore.htypes import (HCharType, HDecimalType, HListType, HMapType, HPrimitiveType, HStructType, HUnionType, HVarcharType, PrimitiveCategory as P)
from pymetastore.metastore import HColumn, HStorage, HTable, StorageFormat
from pymetastore.stats import (BinaryTypeStats, BooleanTypeStats, ColumnStats, DateTypeStats, DecimalTypeStats, DoubleTypeStats, LongTypeStats, StringTypeStats)

from rv import model as M

PRIM = {
    P.BOOLEAN: lambda: M.boolean(), P.BYTE: lambda: M.integer(8), P.SHORT: lambda: M.integer(16), P.INT: lambda: M.integer(32), P.LONG: lambda: M.integer(64),
    P.FLOAT: lambda: M.flt(32), P.DOUBLE: lambda: M.flt(64), P.STRING: lambda: M.string(None), P.BINARY: lambda: M.byts(2147483647),
    P.DATE: lambda: M.integer(32, logical="build.recap.Date", x={"unit": "day"}),
    P.TIMESTAMP: lambda: M.integer(64, logical="build.recap.Timestamp", x={"unit": "nanosecond", "timezone": "UTC"}),
    P.TIMESTAMPLOCALTZ: lambda: M.integer(64, logical="build.recap.Timestamp", x={"unit": "nanosecond", "timezone": None}),
    P.INTERVAL_YEAR_MONTH: lambda: M.byts(12, logical="build.recap.Interval", x={"signed": True, "unit": "month"}),
    P.INTERVAL_DAY_TIME: lambda: M.byts(12, logical="build.recap.Interval", x={"signed": True, "unit": "second"}),
    P.VOID: lambda: M.null(),
}


def htype(g, depth=3):
    r = g.r
    k = r.choice(["prim"] * 5 + ["decimal", "varchar", "char"] + (["list", "map", "struct", "union"] * 2 if depth > 0 else []))
    if g.coin(0.004 if not g.wide else 0.0002):
        return HPrimitiveType(r.choice([P.UNKNOWN, P.UNKNOWN, P.DECIMAL, P.VARCHAR, P.CHAR]))
    if k == "prim":
        return HPrimitiveType(r.choice(list(PRIM)))
    if k == "decimal":
        p = g.intval(1, 38, range(1, 39))
        return HDecimalType(p, r.randint(0, p))
    if k == "varchar":
        return HVarcharType(r.choice([1, 2, 255, 256, 65535, r.randint(1, 65535)]))
    if k == "char":
        return HCharType(r.choice([1, 254, 255, r.randint(1, 255)]))
    if k == "list":
        t = HListType(htype(g, depth - 1))
        for _ in range(g.few(0, most=8, far=40, rare=0.02)):
            t = HListType(t)
        return t
    if k == "map":
        return HMapType(htype(g, 0), htype(g, depth - 1))
    n = r.choice([1, 2, 3, 4])
    if k == "struct":
        n = g.few(0, 1, 2, 3, most=12, far=300)
        g.wide = g.wide or n > 20
        depth = 1 if n > 12 else depth
        return HStructType([g.ident() if g.coin(0.7) else g.word() or "e" for _ in range(n)], [htype(g, depth - 1) for _ in range(n)])
    ts = [htype(g, depth - 1) for _ in range(n)]
    if g.coin(0.3):
        ts.insert(r.randint(0, n), r.choice(ts))
    return HUnionType(ts)


def expected(t, name=None, doc=None):
    """Node of a Hive type, or M.Refused."""
    if isinstance(t, HPrimitiveType):
        if t.primitive_type not in PRIM:
            raise M.Refused(str(t))
        n = PRIM[t.primitive_type]()
    elif isinstance(t, HDecimalType):
        n = M.byts(16, False, logical="build.recap.Decimal", x={"precision": t.precision, "scale": t.scale})
    elif isinstance(t, HVarcharType):
        n = M.string(t.length)
    elif isinstance(t, HCharType):
        n = M.string(t.length, False)
    elif isinstance(t, HListType):
        n = M.lst(expected(t.element_type))
    elif isinstance(t, HMapType):
        n = M.mp(expected(t.key_type), expected(t.value_type))
    elif isinstance(t, HStructType):
        n = M.struct([expected(c, nm) for nm, c in zip(t.names, t.types)])
    else:
        ts = [M.null()]
        for m in t.types:
            e = expected(m)
            for x in e["types"] if e["k"] == "union" else [e]:
                if not any(M.same(x, y) for y in ts):
                    ts.append(x)
        n = M.union(ts, x={"default": None})
    if n["k"] not in ("null", "union"):
        n = M.union([M.null(), n], x={"default": None})
    if name is not None:
        n["x"]["name"] = name
    n["doc"] = doc
    return n


def table(g, db, name, depth=3):
    """(HTable, expected fields or None)"""
    r = g.r
    cols, seen = [], set()
    k = g.few(1, 2, 3, 5, 8, most=40, far=1200)
    g.wide = k > 20
    for i in range(k):
        cn = g.ident().lower() if g.coin(0.7) else (g.word() or "n")
        if i > 60:
            depth = 0
        if cn in seen:
            continue
        seen.add(cn)
        cols.append(HColumn(cn, htype(g, depth), r.choice([None, "", None, "a comment", g.text() or None])))
    t = HTable(database_name=db, name=name, table_type=r.choice(["MANAGED_TABLE", "EXTERNAL_TABLE", "VIRTUAL_VIEW", "MATERIALIZED_VIEW"]), columns=cols, partition_columns=[], storage=HStorage(StorageFormat("s", "i", "o")), parameters=r.choice([{}, {"EXTERNAL": "TRUE"}, {"comment": "x"}, {"transactional": "true"}]))
    try:
        return t, [expected(c.type, c.name, c.comment or None) for c in cols]
    except M.Refused:
        return t, None


def stats(g, t):
    """([ColumnStats], {column: expected attributes})"""
    r = g.r
    out, want = [], {}
    num = lambda: r.choice([0, 1, -1, 7, 2**40, r.randint(0, 10**6)])
    maybe = lambda f: None if g.coin(0.25) else f()
    for c in t.columns:
        k = r.choice(["long", "double", "string", "bool", "binary", "decimal", "date", "none", "absent", "absent"])
        if k == "absent":
            continue
        nulls = abs(num())
        if k == "none":
            s, w = None, None
        elif k in ("long", "double"):
            f = num if k == "long" else (lambda: r.choice([0.0, -0.5, 1e300, 3.25]))
            lo, hi, card = maybe(f), maybe(f), abs(num())
            s = (LongTypeStats if k == "long" else DoubleTypeStats)(cardinality=card, numNulls=nulls, lowValue=lo, highValue=hi)
            w = {"low": lo, "high": hi, "cardinality": card}
        elif k == "string":
            s = StringTypeStats(maxColLen=(a := abs(num())), avgColLen=(b := r.choice([0.0, 1.5])), cardinality=(c3 := abs(num())), numNulls=nulls)
            w = {"max_length": a, "average_length": b, "cardinality": c3}
        elif k == "bool":
            s = BooleanTypeStats(numTrues=(a := abs(num())), numFalses=(b := abs(num())), numNulls=nulls)
            w = {"true_count": a, "false_count": b}
        elif k == "binary":
            s = BinaryTypeStats(maxColLen=(a := abs(num())), avgColLen=(b := r.choice([0.0, 1.5])), numNulls=nulls)
            w = {"max_length": a, "average_length": b}
        elif k == "decimal":
            lo, hi = maybe(lambda: Decimal(2, b"\x01" + bytes([r.randint(0, 255)]))), maybe(lambda: Decimal(0, b"\x7f"))
            s = DecimalTypeStats(cardinality=(a := abs(num())), numNulls=nulls, lowValue=lo, highValue=hi)
            w = {"cardinality": a, "low": lo, "high": hi}
        else:
            lo, hi = maybe(num), maybe(num)
            s = DateTypeStats(cardinality=(a := abs(num())), numNulls=nulls, lowValue=None if lo is None else Date(lo), highValue=None if hi is None else Date(hi))
            w = {"cardinality": a, "low": lo, "high": hi}
        out.append(ColumnStats(isTblLevel=True, dbName=t.database_name, tableName=t.name, columnName=c.name, columnType=k, stats=s))
        if w is not None:
            # an unknown bound may be left out or be null
            want[c.name] = dict(w, null_count=nulls)
    r.shuffle(out)
    return out, want


class FakeHMS:
    """`data`: database -> table -> HTable; `stats_of`: (database, table) -> [ColumnStats]."""

    def __init__(self, data, stats_of=None, log=None, fault=lambda what: None):
        self.data, self.stats_of, self.fault = data, stats_of or {}, fault
        self.log = log if log is not None else []
        self.closed = False

    def _use(self, what, *args):
        self.log.append(("use", id(self), what, args, self.closed))
        self.fault(what)

    def list_databases(self):
        self._use("list_databases")
        return list(self.data)

    def list_tables(self, database_name):
        self._use("list_tables", database_name)
        if database_name not in self.data:
            raise LookupError(f"NoSuchObject {database_name}")
        return list(self.data[database_name])

    def get_table(self, database_name, table_name):
        self._use("get_table", database_name, table_name)
        try:
            return self.data[database_name][table_name]
        except KeyError:
            raise LookupError(f"NoSuchObject {database_name}.{table_name}")

    def get_table_stats(self, table, columns=None):
        self._use("get_table_stats", table.database_name, table.name)
        names = [c.name for c in columns or table.columns]
        return [s for s in self.stats_of.get((table.database_name, table.name), []) if s.columnName in names]


class Connecting:
    """What HMS.create() returns: a context manager that opens the connection."""

    def __init__(self, host, port, make, log):
        self.host, self.port, self.make, self.log = host, port, make, log
        self.client = None

    def __enter__(self):
        self.client = self.make(self.host, self.port)
        self.log.append(("open", id(self.client), self.host, self.port))
        return self.client

    def __exit__(self, *a):
        self.log.append(("close", id(self.client)))
        self.client.closed = True
