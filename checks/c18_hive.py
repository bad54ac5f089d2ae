"""C18: Hive tables and their statistics."""
import copy, json
from recap import types as T
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.converters.hive_metastore import HiveMetastoreConverter
from rv import hivefake, model as M
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C18", "exploration"
TECHNIQUE = "runtime monitoring: reference model of Hive's types over pymetastore tables and statistics, with a recording metastore client"
RULE = ("seeded random pymetastore tables (every primitive, lengths, precisions, nested lists, maps, structs and unions with repeated members, unsupported types at any depth, comments), read by the converter and "
        "by the client through a recording metastore with look-alike tables, with statistics of every kind in shuffled order, missing for some columns; every attribute of every field compared with the model; "
        "non-trivial = distinct table")
ASSUMPTIONS = ["repeated members of a Hive union are kept once", "a statistic the metastore reports as unknown is absent or null"]
BOUNDS = ("low", "high")


def drop_unknown(x):
    return {k: v for k, v in x.items() if not (k in BOUNDS and v is None)}


def run(ck):
    g = Gen(ck.rng)
    ck.need("tables read", 1000)
    ck.need("refusals expected", 20)
    ck.need("columns with statistics", 500)
    ck.need("columns without statistics in a table with statistics", 100)
    ck.need("union types", 200)
    for i in ck.loop(16000, 150000):
        db, tn = g.ident(), g.ident()
        t, want = hivefake.table(g, db, tn, g.r.choice([0, 1, 2, 3]))
        before = repr(t)
        ck.case(key=before, sample=before, family="table")
        include = g.coin(0.5)
        sts, ws = hivefake.stats(g, t)
        if g.coin(0.3) and not include:
            o = outcome(lambda: HiveMetastoreConverter().to_recap(t))
        else:
            other = {n: hivefake.table(g, d, n, 1)[0] for d, n in [(db, tn + "x"), (db + "x", tn)]}
            data = {db: {tn: t, tn + "x": other[tn + "x"]}, db + "x": {tn: other[tn]}}
            for t2, d2, n2 in [(other[tn + "x"], db, tn + "x"), (other[tn], db + "x", tn)]:
                t2.database_name, t2.name = d2, n2
                for c in t.columns:  # the same column names, so that a mixed-up statistic finds a field
                    if g.coin(0.5) and c.name not in [x.name for x in t2.columns]:
                        t2.columns.append(copy.deepcopy(c))
            by = {(db, tn): sts, (db, tn + "x"): hivefake.stats(g, other[tn + "x"])[0], (db + "x", tn): hivefake.stats(g, other[tn])[0]}
            hms = hivefake.FakeHMS(data, by)
            o = outcome(lambda: HiveMetastoreClient(hms).schema(db, tn, include) if include or g.coin() else HiveMetastoreClient(hms).schema(db, tn))
        ck.expect(repr(t) == before, "the table was modified", before, before)
        if want is None:
            ck.event("refusals expected")
            ck.expect(not o.ok, "unsupported type accepted", f"{o}: {before}", before)
            continue
        if not ck.expect(o.ok, "table refused", f"{o}: {before} {sts}", before):
            continue
        ck.event("tables read")
        got = M.snap(o.value)
        exp = M.struct(want, x={"name": tn})
        ck.event("union types", sum(1 for n in M.walk(exp) if n["k"] == "union" and len(n["types"]) > 2))
        if include:
            for f in exp["fields"]:
                w = ws.get(f["x"]["name"])
                ck.event("columns with statistics" if w else "columns without statistics in a table with statistics")
                f["x"] = drop_unknown({**f["x"], **(w or {})})
            for f, w in zip(got["fields"], want):
                if "low" in f["x"] or "high" in f["x"]:
                    f["x"] = drop_unknown(f["x"])
        ck.expect(M.same(exp, got), "table misread", f"{M.diff(exp, got)}: {before} {sts if include else ''}", before)
        if not include:
            back = outcome(lambda: M.snap_resolved(T.from_dict(json.loads(json.dumps(T.to_dict(o.value))))))
            ck.expect(back.ok and M.same(M.normal(exp), M.normal(back.value)), "result can't be serialised and read again",
                      f"{back if not back.ok else M.diff(M.normal(exp), M.normal(back.value))}: {before}", before)
