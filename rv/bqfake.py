"""BigQuery schemas and a recording stand-in for google.cloud.bigquery.Client."""
from __future__ import annotations

from google.cloud import bigquery

from rv import model as M

INTS = ["INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT"]
BAD = ["GEOGRAPHY", "INTERVAL", "RANGE", "ARRAY", "NULL", "VARCHAR", "BOOLEANS", "UINT64", "FLOAT32", "TIMESTAMP_NS", "", "RECORDS", "XJSON"]


def field(g, depth=3, names=None):
    """(SchemaField, expected node or None if it has to be refused)."""
    r = g.r
    name = r.choice(names) if names and g.coin(0.3) else (g.ident() if g.coin(0.7) else g.word() or "n")
    kinds = ["STRING", "JSON", "BYTES", "INT", "FLOAT", "BOOLEAN", "TIMESTAMP", "DATETIME", "TIME", "DATE", "NUMERIC", "BIGNUMERIC"]
    if depth > 0:
        kinds += ["RECORD"] * 4
    k = r.choice(kinds)
    if g.coin(0.01 if not g.wide else 0.0002):
        k = "BAD"
    kw = {}
    sub = ()
    if k == "BAD":
        ft, n = r.choice(BAD), None
    elif k in ("STRING", "JSON", "BYTES"):
        ft = k
        length = None
        if k != "JSON" and g.coin():
            length = kw["max_length"] = g.intval(1, M.I63, [1, 2, 255, 65535, 65536, 10485760])
        n = M.byts(length) if k == "BYTES" else M.string(length)
    elif k == "INT":
        ft, n = r.choice(INTS), M.integer(64)
    elif k == "FLOAT":
        ft, n = r.choice(["FLOAT", "FLOAT64"]), M.flt(64)
    elif k == "BOOLEAN":
        ft, n = k, M.boolean()
    elif k in ("TIMESTAMP", "DATETIME"):
        ft, n = k, M.integer(64, logical="build.recap.Timestamp", x={"unit": "microsecond"})
    elif k == "TIME":
        ft, n = k, M.integer(32, logical="build.recap.Time", x={"unit": "microsecond"})
    elif k == "DATE":
        ft, n = k, M.integer(32, logical="build.recap.Date", x={"unit": "day"})
    elif k in ("NUMERIC", "BIGNUMERIC"):
        big = k == "BIGNUMERIC"
        ft = r.choice(["BIGNUMERIC", "BIGDECIMAL"] if big else ["NUMERIC", "DECIMAL"])
        p, s = (76 if big else 38), 0
        c = r.random()
        if c < 0.7:
            s = r.randint(0, 38 if big else 9)
            p = r.randint(max(1, s), min(76 if big else 38, s + (38 if big else 29)))
            kw["precision"] = p
            if s or g.coin():
                kw["scale"] = s
        n = M.byts(32 if big else 16, False, logical="build.recap.Decimal", x={"precision": p, "scale": s})
    else:
        ft = r.choice(["RECORD", "STRUCT"])
        sub, subn = schema(g, depth - 1, names)
        n = None if subn is None else M.struct(subn)
    mode = r.choice(["NULLABLE", "REQUIRED", "REPEATED", "NULLABLE"])
    desc = g.text() or None if g.coin(0.3) else None
    default = r.choice(["CURRENT_TIMESTAMP()", "'x'", "0", "NULL", "[]", "1.5"]) if g.coin(0.25) else None
    if default is not None and g.coin(0.2):
        default = g.text() or None
    if g.coin(0.1):
        kw["policy_tags"] = bigquery.PolicyTagList(["projects/p/locations/l/taxonomies/1/policyTags/2"])
    if desc is not None:
        kw["description"] = desc
    if default is not None:
        kw["default_value_expression"] = default
    f = bigquery.SchemaField(name, ft, mode, fields=sub, **kw)
    if g.coin(0.5):  # as it comes from the API
        f = bigquery.SchemaField.from_api_repr(f.to_api_repr())
    if n is not None:
        if mode == "REPEATED":
            n = M.lst(n)
        elif mode == "NULLABLE":
            n = M.union([M.null(), n], x={"default": None})
        n["x"]["name"] = name
        if desc is not None:
            n["doc"] = desc
        if default is not None:
            n["x"]["default"] = default
    return f, n


def schema(g, depth=3, names=None):
    k = g.few(0, 1, 1, 2, 3, 6, most=30, far=1200)
    wide = g.wide
    g.wide = wide or k > 20
    pairs = [field(g, depth if k < 30 else 0, names) for i in range(k)]
    g.wide = wide
    return [p[0] for p in pairs], None if any(p[1] is None for p in pairs) else [p[1] for p in pairs]


class Item:
    def __init__(self, **k):
        self.__dict__.update(k)


class FakeClient:
    """The calls recap may make; `data`: project -> dataset -> table -> [SchemaField]."""

    def __init__(self, data, log=None, fault=lambda what: None):
        self.data, self.log, self.fault = data, log if log is not None else [], fault
        self.log.append(("open", id(self)))
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True
        self.log.append(("close", id(self)))

    def _use(self, what, *args):
        self.log.append(("use", id(self), what, args, self.closed))
        self.fault(what)

    def list_projects(self, *a, **k):
        self._use("list_projects")
        for p in list(self.data)[:k.get("max_results")]:
            self.fault("row")
            yield Item(project_id=p, friendly_name="f-" + p, numeric_id="1")

    @staticmethod
    def _ds(project_or_ref, dataset=None):
        return project_or_ref, dataset

    def list_datasets(self, project=None, *a, **k):
        self._use("list_datasets", project)
        if project not in self.data:
            raise LookupError(f"404 {project}")
        return [Item(dataset_id=d, project=project, full_dataset_id=f"{project}:{d}") for d in list(self.data[project])[:k.get("max_results")]]

    def dataset(self, dataset_id, project=None):
        return bigquery.DatasetReference(project, dataset_id)

    def list_tables(self, dataset, *a, **k):
        if isinstance(dataset, str):
            dataset = bigquery.DatasetReference.from_string(dataset)
        self._use("list_tables", dataset.project, dataset.dataset_id)
        try:
            ts = self.data[dataset.project][dataset.dataset_id]
        except KeyError:
            raise LookupError("404")
        return iter([Item(table_id=t, dataset_id=dataset.dataset_id, project=dataset.project) for t in list(ts)[:k.get("max_results")]])

    def get_table(self, table, *a, **k):
        if isinstance(table, str):
            table = bigquery.TableReference.from_string(table)
        self._use("get_table", table.project, table.dataset_id, table.table_id)
        try:
            fields = self.data[table.project][table.dataset_id][table.table_id]
        except KeyError:
            raise LookupError("404")
        t = bigquery.Table(table, schema=list(fields))
        return t
