"""C17: BigQuery tables."""
import json
from google.cloud import bigquery
from recap import types as T
from recap.clients.bigquery import BigQueryClient
from recap.converters.bigquery import BigQueryConverter
from rv import bqfake, model as M
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C17", "exploration"
TECHNIQUE = "runtime monitoring: reference model of BigQuery's types over google.cloud.bigquery schema objects, with a recording API client"
RULE = ("seeded random BigQuery schemas of real google.cloud.bigquery.SchemaField objects (every field type and synonym, nested records, every mode, lengths, precisions, scales, descriptions, default "
        "expressions, unsupported types at any depth, as built and as parsed from the API), read by the converter and by the client through a recording API client with look-alike tables in other datasets "
        "and projects; every attribute of every field compared with the model; non-trivial = distinct schema")
ASSUMPTIONS = ["numerics declared without precision have the type's maximum precision and scale 0, times are 32 bits wide (both pinned by the existing tests)"]


def run(ck):
    g = Gen(ck.rng)
    ck.need("schemas read", 1000)
    ck.need("refusals expected", 50)
    ck.need("nested fields", 1000)
    for i in ck.loop(16000, 150000):
        fields, want = bqfake.schema(g, g.r.choice([0, 1, 2, 3, 4]))
        ck.case(key=repr(fields), sample=[f.to_api_repr() for f in fields][:4], family="schema")
        before = [f.to_api_repr() for f in fields]
        if g.coin(0.7):
            o = outcome(lambda: BigQueryConverter().to_recap(fields))
        else:
            # (identifiers as BigQuery allows them, so that a reference may be passed as text)
            p, d, t = g.ident(), g.ident(), g.ident()
            other = lambda: bqfake.schema(g, 0)[0]
            data = {p: {d: {t: fields, t + "x": other()}, d + "x": {t: other()}}, p + "x": {d: {t: other()}}}
            o = outcome(lambda: BigQueryClient(bqfake.FakeClient(data)).schema(p, d, t))
        ck.expect([f.to_api_repr() for f in fields] == before, "the schema was modified", before, before)
        if want is None:
            ck.event("refusals expected")
            ck.expect(not o.ok, "unsupported type accepted", f"{o}: {before}", before)
            continue
        if not ck.expect(o.ok, "schema refused", f"{o}: {before}", before):
            continue
        ck.event("schemas read")
        exp = M.struct(want)
        ck.event("nested fields", sum(1 for n in M.walk(exp) if n["k"] == "struct") - 1)
        got = M.snap(o.value)
        ck.expect(M.same(exp, got), "schema misread", f"{M.diff(exp, got)}: {before}", before)
        back = outcome(lambda: M.snap_resolved(T.from_dict(json.loads(json.dumps(T.to_dict(o.value))))))
        ck.expect(back.ok and M.same(M.normal(exp), M.normal(back.value)), "result can't be serialised and read again",
                  f"{back if not back.ok else M.diff(M.normal(exp), M.normal(back.value))}: {before}", before)
