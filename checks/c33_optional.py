"""C33: only the libraries of the systems and formats in use are needed."""
import importlib, json, os, sys
import fsspec, google.cloud, recap
from recap import commands
from rv import core, tour, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C33", "exploration"
TECHNIQUE = "runtime monitoring: forked processes in which generated sets of optional libraries can't be imported read, list and convert generated systems; outcomes compared with those of the complete installation"
RULE = ("seeded random subsets of the optional dependencies (the extras of pyproject.toml and the drivers that have none) are missing; then a process imports modules in random order, lists and reads 1-3 random systems and files, and writes every format; "
        "non-trivial = distinct (missing set, operation kinds)")
ASSUMPTIONS = ["the app extra is there or missing as a whole; without it, only types and converters are used", "a missing library is one that raises ImportError when imported"]
GROUPS = {
    "kafka": ["confluent_kafka", "confluent_kafka.schema_registry"], "proto": ["proto_schema_parser"], "hive": ["pymetastore"], "bigquery": ["google.cloud.bigquery"], "json": ["referencing", "httpx"],
    "app": ["fastapi", "pydantic", "pydantic_settings", "typer", "uvicorn", "rich", "dotenv", "fsspec"], "psycopg2": ["psycopg2"], "mysql": ["mysql"], "snowflake": ["snowflake.connector"],
}
MODULES = {
    "recap.types": (), "recap.converters.avro": (), "recap.converters.json_schema": ("json",), "recap.converters.protobuf": ("proto",), "recap.converters.dbapi": (), "recap.converters.mysql": (), "recap.converters.postgresql": (),
    "recap.converters.snowflake": (), "recap.converters.sqlite": (), "recap.converters.bigquery": ("bigquery",), "recap.converters.hive_metastore": ("hive",), "recap.settings": ("app",), "recap.clients": ("app",), "recap.commands": ("app",),
    "recap.clients.fs": ("app",), "recap.clients.confluent_registry": ("app", "kafka"), "recap.clients.postgresql": ("app", "psycopg2"), "recap.clients.mysql": ("app", "mysql"), "recap.clients.snowflake": ("app", "snowflake"), "recap.clients.sqlite": ("app",),
    "recap.clients.bigquery": ("app", "bigquery"), "recap.clients.hive_metastore": ("app", "hive"), "recap.storage.registry": ("app",), "recap.cli": ("app",), "recap.server.app": ("app",),
}
SYSTEM = {"postgresql": ("psycopg2",), "mysql": ("mysql",), "snowflake": ("snowflake",), "sqlite": (), "bigquery": ("bigquery",), "hive": ("hive",), "confluent": ("kafka",), "file": ()}
FORMAT = {"recap": (), "avro": (), "json": ("json",), "protobuf": ("proto",), "AVRO": (), "JSON": ("json",), "PROTOBUF": ("proto",)}
KIND = {e: k for k, es in tour.EXT.items() for e in es}


def block(missing):
    for m in [m for m in sys.modules if m == "recap" or m.startswith("recap.")]:
        del sys.modules[m]
    for g in missing:
        for lib in GROUPS[g]:
            for m in [m for m in sys.modules if m.startswith(lib + ".")]:
                sys.modules[m] = None
            sys.modules[lib] = None
            if "." in lib:
                package, _, name = lib.rpartition(".")
                if sys.modules.get(package) is not None:
                    vars(sys.modules[package]).pop(name, None)


def once(commands, op):
    kind, u, f = op
    o = outcome(commands.ls, u, strict=False) if kind == "ls" else outcome(commands.schema, u, commands.SchemaFormat(f), strict=False)
    if o.ok:
        return ["ok", sorted(o.value) if kind == "ls" else json.loads(json.dumps(o.value))]
    return ["import error" if isinstance(o.error, ImportError) else "raised", type(o.error).__name__]


def child(missing, modules, ops):
    block(missing)
    out = {"modules": [], "ops": []}
    for m in modules:
        o = outcome(importlib.import_module, m)
        out["modules"].append("ok" if o.ok else "import error" if isinstance(o.error, ImportError) else repr(o.error)[:300])
    if "app" not in missing:
        c = importlib.import_module("recap.commands")
        out["ops"] = [once(c, op) for op in ops]
    return out


def forked(*args):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                out = child(*args)
            except BaseException as e:
                out = {"failed": repr(e)[:1000]}
            with os.fdopen(wr, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def judge(ck, g, w):
    r = ck.rng
    kinds = r.sample(list(tour.BUILD), r.choice([1, 2, 3]))
    w.prefix = ""
    sources = [(k, tour.BUILD[k](g, w)) for k in kinds]
    world.configure([])
    ops, needs = [], []
    for k, s in sources:
        for p in s.all_paths():
            if p not in s.leaves:
                ops.append(("ls", s.url(p), None))
                needs.append({*SYSTEM[k]})
            elif s.leaves[p] is not None:
                own = ()
                if k == "file":
                    own = FORMAT[KIND[p[-1].rpartition(".")[2].lower()]]
                elif k == "confluent":
                    own = FORMAT[w.subjects[p[-1]][-1][0]]
                for f in ("recap", "avro", "json", "protobuf"):
                    ops.append(("schema", s.url(p), f))
                    needs.append({*SYSTEM[k], *own, *FORMAT[f]})
    if len(ops) > 40:
        keep = sorted(r.sample(range(len(ops)), 40))
        ops, needs = [ops[i] for i in keep], [needs[i] for i in keep]
    want = [once(commands, op) for op in ops]
    modules = r.sample(list(MODULES), r.randint(1, len(MODULES)))
    if r.random() < 0.4:
        # all but one, or all but what one thing needs
        have = r.choice([{r.choice(list(GROUPS))}, {*r.choice(needs)} if needs else set(), {*MODULES[r.choice(modules)]}])
        missing = [x for x in GROUPS if x not in have and (x != "app" or r.random() < 0.3)]
    else:
        missing = [x for x in GROUPS if r.random() < (0.15 if x == "app" else 0.4)]
    out = forked(missing, modules, ops)
    ck.case(key=(missing, modules, [(o[0], o[2]) for o in ops], kinds), family="some libraries are missing" if missing else "complete", sample=(missing, kinds, modules[:5]))
    if not ck.expect("failed" not in out, "process failed", f"without {missing}: {out}", missing):
        return
    gone = set(missing)
    for m, o in zip(modules, out["modules"]):
        lack = gone & set(MODULES[m])
        ck.event("imports that lack something" if lack else "imports that don't")
        ck.expect(o == "ok" or (lack and o == "import error"), "module can't be imported", f"{m} without {missing}: {o}", (m, missing))
    for op, n, a, b in zip(ops, needs, out["ops"], want):
        lack = gone & n
        ck.event("operations that lack something" if lack else "operations that don't")
        ck.expect(a == b or (lack and a[0] == "import error"), "needs a library that it doesn't use", f"{op} without {missing}: {repr(a)[:300]} instead of {repr(b)[:300]}", (op, missing))
    for k, s in sources:
        w.clear()
        tour.cleanup(s)


def run(ck):
    import recap.cli, recap.server.app
    g = Gen(ck.rng)
    for name, n in (("imports that lack something", 300), ("imports that don't", 1500), ("operations that lack something", 500), ("operations that don't", 1000)):
        ck.need(name, n)
    with world.World(g.r) as w:
        for i in ck.loop(400, 6000):
            judge(ck, g, w)
