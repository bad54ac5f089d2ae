"""The common part of the PostgreSQL, MySQL and Snowflake checks."""
from __future__ import annotations

import json
import re

from recap import types as T
from rv import dbfake, model as M, sqlgen
from rv.core import outcome
from rv.gen import Gen


def canonical(t):
    """Resolved snapshot; the aliases that name array types are arbitrary."""
    n = M.snap_resolved(t)

    def f(n, up=()):
        if n["k"] == "rec":
            return {"k": "rec", "alias": "ARRAY" if up and n["alias"] == up[-1] else n["alias"]}
        if n["k"] == "list" and n["alias"]:
            up = up + (n["alias"],)
            n = dict(n, alias="ARRAY")
        return M.map_children(n, lambda c: f(c, up))

    return f(n)


# the first word of a statement, after comments
WRITE = re.compile(r"(?:\s|--[^\n]*\n|/\*.*?\*/|;)*(?:INSERT|UPDATE|DELETE|MERGE|REPLACE|UPSERT|CREATE|ALTER|DROP|TRUNCATE|GRANT|REVOKE|COPY|COMMENT|RENAME|LOCK|VACUUM|REINDEX)\b", re.I | re.S)


def run(ck, flavor, client, quick, thorough, read, options=lambda g: ({}, {})):
    """client(connection, **options) -> client; read(client, db, schema, table)."""
    g = Gen(ck.rng)
    server = dbfake.Server(flavor, ck.rng)
    ck.need("tables read", 500)
    ck.need("columns read", 2000)
    ck.need("refusals expected", 30)
    ck.need("tables of other schemas present", 300)
    for i in ck.loop(quick, thorough):
        gen_opts, client_opts = options(g)
        cat, want = sqlgen.catalog(g, flavor, **gen_opts)
        server.load(cat)
        for (d, s, t), fields in want.items():
            server.log.clear()
            con = server.connect(d)
            ck.case(key=(cat[d][s][t], d, s, t), sample=None if not cat[d][s][t] else (d, s, t, [c["row"] for c in cat[d][s][t]]), family="table")
            ck.event("tables of other schemas present", sum(1 for k in want if k[2] == t and k != (d, s, t)))
            o = outcome(lambda: read(client(con, **client_opts), d, s, t))
            where = (d, s, t, cat[d][s][t])
            if any(e[0] == "execute" and WRITE.match(str(e[1])) for e in server.log):
                ck.violate("statement that isn't a query", [e for e in server.log if e[0] == "execute"], where)
            if fields is None:
                ck.event("refusals expected")
                ck.expect(not o.ok, "unsupported type accepted", f"{o}: {where}", where)
                continue
            if not ck.expect(o.ok, "table refused", f"{o}: {where}", where):
                continue
            ck.event("tables read")
            ck.event("columns read", len(fields))
            exp = M.struct(fields)
            got = outcome(canonical, o.value)
            if ck.expect(got.ok, "unresolvable reference", f"{got}: {where}", where):
                ck.expect(M.same(exp, got.value), "table misread", f"{M.diff(exp, got.value)}: {where}", where)
            back = outcome(lambda: canonical(T.from_dict(json.loads(json.dumps(T.to_dict(o.value))))))
            ck.expect(back.ok and M.same(M.normal(exp), M.normal(back.value)), "result can't be serialised and read again",
                      f"{back if not back.ok else M.diff(M.normal(exp), M.normal(back.value))}: {where}", where)
