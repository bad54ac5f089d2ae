"""C31: concurrent calls don't influence each other."""
import copy, importlib, json, os, pkgutil, random, threading, time
import recap
from recap import commands
from recap import types as T
from recap.server.app import app
from recap.converters.avro import AvroConverter
from recap.converters.json_schema import JSONSchemaConverter
from recap.converters.protobuf import ProtobufConverter
from checks import c03_aliases
from rv import asgi, core, model as M, purity as Pu, tour, world
from rv.core import outcome
from rv.gen import Gen
from rv.sched import Run, Scheduler

PID, LEVEL = "C31", "exploration"
TECHNIQUE = "runtime monitoring: controlled scheduling of threads at line granularity (seeded interleavings of recap's own code), outcomes compared with those alone, ownership monitor on connections"
RULE = ("seeded random sets of 2-4 threads, each making 1-3 library calls, commands or gateway requests, run in random interleavings in which a thread can be suspended at every line of recap's code; independent calls, calls that share "
        "their arguments (types, references, definitions), and commands on overlapping systems in and outside of strict mode; every outcome compared with the same call alone, every connection with the request of the "
        "thread that opened it; non-trivial = distinct interleaving of distinct calls")
ASSUMPTIONS = ["a converter instance is used by one thread at a time (they keep the state of the schema they're working on)", "other libraries are not interrupted"]
FORMATS = ["recap", "recap", "avro", "json", "protobuf"]


def preload():
    for m in pkgutil.walk_packages(recap.__path__, "recap."):
        outcome(importlib.import_module, m.name)


def go(ck, sched, jobs, at=None):
    r = Run(sched, random.Random(ck.rng.random()), ck.rng.choice([0.02, 0.1, 0.3, 1.0, None, None, None, None]) if at is None else None, at)
    out = r.run(jobs)
    ck.event("switches between threads", r.switches)
    ck.event("lines at which threads can be suspended", r.points)
    if r.stuck_events:
        ck.event("waits for another thread", r.stuck_events)
    return out, r.hash.hexdigest(), r.lines


def show(o):
    return repr(o)[:600]


def schedules(ck, sweep, n):
    """How to run it: sweep = the first thread is suspended once, at every line in turn; else n random ones."""
    if not sweep:
        for _ in range(n):
            yield None
        return
    end = time.monotonic() + (3 if ck.tier == "quick" else 30)
    lines = yield 0
    todo = ck.rng.sample(range(1, lines + 1), lines)
    while todo and time.monotonic() < end:
        yield todo.pop()
        ck.event("lines swept")
    ck.event("sweeps")
    ck.event("sweeps of some lines" if todo else "sweeps of all lines")


def calls(ck, sched, shared, sweep=False):
    """Library calls."""
    k = 2 if sweep else ck.rng.choice([2, 2, 3, 4])
    if shared:
        op = Pu.operation(ck.seed, ck.rng.randrange(10**6))
        ops = [[op] * ck.rng.choice([1, 1, 1 if sweep else 2]) for _ in range(k)]
        args = op[1]()
        same = lambda o: args
    else:
        one = Pu.operation(ck.seed, ck.rng.randrange(10**6))
        # other calls of the same kind are most likely to share something
        n = len(Pu.FAMILIES)
        near = lambda: Pu.operation(ck.seed, ck.rng.randrange(10**6 // n) * n + Pu.FAMILIES.index(one[0])) if ck.rng.random() < 0.5 else Pu.operation(ck.seed, ck.rng.randrange(10**6))
        ops = [[near() for _ in range(1 if sweep else ck.rng.choice([1, 2, 3]))] for _ in range(k)]
        same = None
    want = [[Pu.evaluate(o)[0] for o in os_] for os_ in ops]
    plan = schedules(ck, sweep, 1)
    at = next(plan)
    while True:
        lines = calls_once(ck, sched, shared, ops, want, same, at)
        try:
            at = plan.send(lines)
        except StopIteration:
            return


def calls_once(ck, sched, shared, ops, want, same, at):
    made = [[same(o) if same else o[1]() for o in os_] for os_ in ops]

    def job(i):
        return lambda: [Pu.again(o, a) for o, a in zip(ops[i], made[i])]

    out, h, lines = go(ck, sched, [job(i) for i in range(len(ops))], at)
    ck.case(key=(h, want), family="calls that share their arguments" if shared else "independent calls", sample=[[o[0] for o in os_] for os_ in ops])
    for i, (o, w) in enumerate(zip(out, want)):
        ck.event("outcomes compared", len(w))
        what = [x[0] for x in ops[i]]
        if ck.expect(o[0] == "returned", "harness", f"{what}: {o}"):
            for f, a, b in zip(what, o[1], w):
                if a != b:
                    ck.violate("outcome depends on other threads", f"{f} next to {[[x[0] for x in y] for y in ops]}: {show(a)} instead of {show(b)}", (what, show(a), show(b)))
    return lines


def refs(t):
    out = []
    for p in c03_aliases.proxies(t, []):
        try:
            out.append(p.resolve())
        except Exception as e:
            out.append(type(e).__name__)
    return out


READ = {
    "to_dict": T.to_dict, "long form": lambda t: T.to_dict(t, clean=False, alias=False), "resolve": refs, "avro": lambda t: AvroConverter().from_recap(t), "json": lambda t: JSONSchemaConverter().from_recap(t),
    "protobuf": lambda t: ProtobufConverter().from_recap(t), "make_nullable": lambda t: [t.make_nullable(), t.is_nullable()], "copy": copy.deepcopy, "equal": lambda t: [t == t, t != copy.deepcopy(t)], "validate": lambda t: t.validate(),
}


def shared_type(ck, sched, g):
    """Different uses of one type."""
    d = M.definition(c03_aliases.document(g), ck.rng, 0.05)
    o = outcome(T.from_dict, copy.deepcopy(d))
    if not o.ok:
        return
    t = o.value
    before = Pu.plain(T.from_dict(copy.deepcopy(d)))
    if len(repr(before)) > 30000:
        # (references to references to ...)
        return
    k = ck.rng.choice([2, 2, 3, 4])
    plans = [[ck.rng.choice(["resolve", "resolve", *READ]) for _ in range(ck.rng.choice([1, 1, 2]))] for _ in range(k)]
    use = lambda name, t: Pu.again((name, None, READ[name]), (t,))
    want = [[use(n, T.from_dict(copy.deepcopy(d))) for n in plan] for plan in plans]
    if any(w == ["raised", "RecursionError"] for row in want for w in row):
        # (unions of themselves: how far one gets, and how many references that resolves, depends on the stack)
        return
    out, h, _ = go(ck, sched, [lambda plan=plan: [use(n, t) for n in plan] for plan in plans])
    ck.case(key=(h, d), family="uses of one type", sample=(plans, d))
    for o, w, plan in zip(out, want, plans):
        if not ck.expect(o[0] == "returned", "harness", f"{plan}: {o}"):
            continue
        for n, a, b in zip(plan, o[1], w):
            ck.event("outcomes compared")
            ck.expect(a == b, "outcome depends on other threads", f"{n} next to {plans}: {show(a)} instead of {show(b)}", (plans, d))
    ck.expect(Pu.plain(t) == before, "type changed", f"{plans}: {show(Pu.plain(t))} instead of {show(before)}", (plans, d))


def systems(ck, sched, w, g, sweep=False):
    kinds = ck.rng.sample(list(tour.BUILD), ck.rng.choice([1, 2, 2, 3]))
    if ck.rng.random() < 0.5:
        # that share most of their code
        kinds = ck.rng.sample([k for k in tour.BUILD if k in ("postgresql", "mysql", "snowflake")], 2)
    w.prefix = ""
    sources = [tour.BUILD[k](g, w) for k in kinds]
    strict = ck.rng.random() < 0.5
    urls = [s.url() for s in sources]
    if not strict or not outcome(world.configure, urls).ok:
        strict = False
        world.configure([])
    todo = []
    for s in sources:
        for p in s.all_paths():
            if p in s.leaves:
                if s.leaves[p] is not None:
                    for f in FORMATS[1:]:
                        todo.append((s, p, f))
            else:
                todo.append((s, p, "ls"))
    if not todo:
        return
    http_ok = strict and not sweep
    k = 2 if sweep else ck.rng.choice([2, 2, 3, 4])
    plans = []
    only = ck.rng.choice([None, None, "schema", "schema" if sweep else "ls"])
    todo = [x for x in todo if only is None or (x[2] == "ls") == (only == "ls")] or todo
    by = {}
    for x in todo:
        by.setdefault(x[0], []).append(x)
    for i in range(k):
        plan = []
        for _ in range(1 if sweep else ck.rng.choice([1, 1, 2, 3])):
            s, p, f = ck.rng.choice(by[list(by)[i % len(by)]])
            # strict mode: the configured credentials are added
            u = s.url(p, creds=not strict)
            plan.append((s, p, f, u, http_ok and ck.rng.random() < 0.4))
        plans.append(plan)

    def request(s, p, f, u, http):
        if http:
            h = asgi.Http(app)
            try:
                if f == "ls":
                    r = h("GET", "/gateway/ls/" + asgi.tail(u))
                else:
                    r = h("GET", "/gateway/schema/" + asgi.tail(u), headers=[("content-type", {"recap": "application/x-recap+json", "avro": "application/avro+json", "json": "application/schema+json", "protobuf": "application/x-protobuf"}[f])])
            finally:
                h.close()
            return ["http", r.status, r.body if r.status == 200 else None]
        o = outcome(commands.ls, u, strict=strict) if f == "ls" else outcome(commands.schema, u, commands.SchemaFormat(f), strict=strict)
        return ["ok", json.loads(json.dumps(o.value))] if o.ok else ["raised", type(o.error).__name__ if hasattr(o, "error") else repr(o)[:200]]

    # alone
    want = []
    for plan in plans:
        row = []
        for s, p, f, u, http in plan:
            r = request(s, p, f, u, http)
            row.append(r)
            if r[0] == "ok" and f == "ls":
                ck.expect(sorted(r[1]) == sorted(s.listing[p]), "wrong listing", f"{u}: {r}", u)
        want.append(row)
    w.clear()
    plan_ = schedules(ck, sweep, ck.rng.choice([3, 5, 8]))
    at = next(plan_)
    while True:
        w.clear()
        owners = {}
        current = {}
        real_connect, real_step = w.connect_event, w.step

        def connect_event(system, where, raw):
            i = real_connect(system, where, raw)
            owners[i] = (threading.get_ident(), system, where, current.get(threading.get_ident()))
            return i

        strays = []

        def step(system, what, ident=None, detail=None):
            if ident in owners and owners[ident][0] != threading.get_ident():
                strays.append((system, what, ident))
            return real_step(system, what, ident, detail)

        w.connect_event, w.step = connect_event, step

        def job(plan):
            def f():
                out = []
                for x in plan:
                    current[threading.get_ident()] = x
                    out.append(request(*x))
                return out
            return f

        try:
            out, h, lines = go(ck, sched, [job(p) for p in plans], at)
        finally:
            del w.connect_event, w.step
        ck.case(key=(h, [[x[3] for x in p] for p in plans]), family="requests in strict mode" if strict else "requests", sample=[[x[2:4] for x in p] for p in plans])
        for o, wt, plan in zip(out, want, plans):
            if not ck.expect(o[0] == "returned", "harness", f"{o}"):
                continue
            for a, b, x in zip(o[1], wt, plan):
                ck.event("outcomes compared")
                ck.event("gateway outcomes compared" if x[4] else "command outcomes compared")
                ck.expect(a == b, "answer depends on other requests", f"{x[2]} {x[3]} next to {[[y[2:4] for y in p] for p in plans]}: {show(a)} instead of {show(b)}", x[3])
        for i, (tid, system, where, x) in owners.items():
            if x is None or system == "confluent":
                continue
            ck.event("connections compared")
            s, p = x[0], x[1]
            if not ck.expect(system == s.system, "connection of another request", f"{x[3]}: {system}", x[3]):
                continue
            for a, v in s.where(p).items():
                got = where.get(a)
                ok = (got or None) == (v or None) if a != "host" else (got or "").casefold() == (v or "").casefold()
                ck.expect(ok, "connection of another request", f"{x[3]}: {a} {got!r} instead of {v!r}", x[3])
        ck.expect(not strays, "connection used by another request", f"{strays}", None)
        ck.expect(not w.still_open(), "connection left open", f"{w.still_open()}", None)
        ck.expect(not [e for e in w.events if e[0] == "use after close"], "connection used after it was closed", f"{w.events}"[:2000], None)
        try:
            at = plan_.send(lines)
        except StopIteration:
            break
    for s in sources:
        tour.cleanup(s)


def run(ck):
    g = Gen(ck.rng)
    preload()
    for name, n in (("switches between threads", 100000), ("independent calls", 300), ("calls that share their arguments", 300), ("uses of one type", 500), ("requests", 100), ("requests in strict mode", 100), ("connections compared", 300), ("outcomes compared", 3000), ("gateway outcomes compared", 50), ("sweeps", 50), ("lines swept", 1500)):
        ck.need(name, n)
    with world.World(g.r) as w, Scheduler(os.path.join(core.REPO, "recap")) as sched:
        # whatever is built on first use
        for i in range(len(Pu.FAMILIES)):
            Pu.evaluate(Pu.operation(ck.seed, i))
        h = asgi.Http(app)
        h("GET", "/gateway/ls/x")
        h.close()
        for i in ck.loop(128, 2000):
            (lambda c: calls(ck, sched, c == 1, True) if c < 2 else systems(ck, sched, w, g, True))(i // ck.shard[1] % 5)
        for i in ck.loop(1200, 15000):
            c = i // ck.shard[1] % 4
            if c == 0:
                calls(ck, sched, False)
            elif c == 1:
                calls(ck, sched, True)
            elif c == 2:
                for _ in range(4):
                    shared_type(ck, sched, g)
            else:
                systems(ck, sched, w, g)
