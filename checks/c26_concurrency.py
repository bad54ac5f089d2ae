"""C26: concurrent registry requests."""
import asyncio, functools, json, os, shutil, sys, tempfile, time
from unittest import mock
import anyio.to_thread
import fsspec
from fsspec.implementations.local import LocalFileSystem
from recap.server.app import app
from recap.storage.registry import RegistryStorage
from recap.types import from_dict
from rv import asgi, lin, reg, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C26", "exploration"
TECHNIQUE = "runtime monitoring: recorded HTTP histories under controlled and stressed schedules, decided by an offline linearizability checker and an immutability monitor on the storage"
RULE = ("seeded random sets of 2-7 concurrent HTTP requests (register, register an explicit version, read, list) on few names against the ASGI application: in one mode a scheduler decides when each body chunk arrives and "
        "how many event loop turns thread pool work takes, in another real thread pool threads run with delays injected into storage operations; each history is checked for linearizability against a versioned map "
        "with real-time order, versions must be unique, and every stored file must keep its first content; non-trivial = distinct history (operations and schedule)")
ASSUMPTIONS = ["one server process", "a request takes effect between its first and last event as seen by the ASGI server"]
TYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool"]


def freeze(m):
    return tuple(sorted((n, tuple(sorted(vs.items()))) for n, vs in m.items()))


def step(state, op):
    m = {n: dict(vs) for n, vs in state}
    k, n = op[0], op[1]
    vs = m.get(n, {})
    if k == "post":
        v = max(vs, default=0) + 1
        m.setdefault(n, {})[v] = op[2]
        return freeze(m), lambda r: r == (200, v)
    if k == "put":
        if op[3] in vs:
            return state, lambda r: r[0] == 409
        m.setdefault(n, {})[op[3]] = op[2]
        return freeze(m), lambda r: r == (200, op[3])
    if k == "get":
        want = (200, (vs[max(vs)], max(vs))) if vs else 404
    elif k == "version":
        want = (200, (vs[op[2]], op[2])) if op[2] in vs else 404
    elif k == "versions":
        want = (200, tuple(sorted(vs))) if vs else 404
    else:
        want = (200, tuple(sorted(m)))
    return state, lambda r: r == want if want != 404 else r[0] == 404


def result(op, r):
    if r.status != 200:
        return (r.status, r.body)
    try:
        d = r.json()
        if op[0] in ("post", "put"):
            return (200, d)
        if op[0] in ("get", "version"):
            return (200, (canonical(d[0]), d[1]))
        return (200, tuple(d))
    except Exception as e:
        return (200, repr(e))


def canonical(d):
    return reg.key_of(from_dict(d))


KEYS = None


def keys():
    global KEYS
    if KEYS is None:
        KEYS = {t: canonical(t) for t in TYPES}
    return KEYS


def plan(g):
    names = g.r.sample(["a", "b", "a b", "é", "a.b"], g.r.choice([1, 1, 2]))
    ops = []
    for _ in range(g.r.randint(2, 7)):
        k = g.r.choice(["post"] * 4 + ["put"] * 4 + ["get", "version", "versions", "ls"])
        n = g.r.choice(names)
        t = g.r.choice(TYPES)
        ops.append({"post": ("post", n, keys()[t]), "put": ("put", n, keys()[t], g.r.choice([1, 1, 2, 2, 3, 5])), "get": ("get", n), "version": ("version", n, g.r.choice([1, 2, 3])), "versions": ("versions", n), "ls": ("ls", None)}[k] + (t,))
    return ops


def http_of(op):
    q = asgi.seg(op[1]) if op[1] else ""
    t = op[-1]
    body = b""
    path, method = {"post": (f"/registry/{q}", "POST"), "put": (f"/registry/{q}/versions/{op[3] if op[0] == 'put' else ''}", "PUT"), "get": (f"/registry/{q}", "GET"), "version": (f"/registry/{q}/versions/{op[2]}", "GET"),
                    "versions": (f"/registry/{q}/versions", "GET"), "ls": ("/registry/", "GET")}[op[0]]
    if method != "GET":
        body = json.dumps({"type": t}).encode() if len(t) % 2 else t.encode()
    return method, path, body


class Watch:
    """What a version holds must never change."""

    def __init__(self, root):
        self.root, self.first, self.bad = root, {}, []

    def look(self):
        now = {(n, v): k for n, vs in final_state(self.root) for v, k in vs}
        for p, c in now.items():
            if self.first.setdefault(p, c) != c:
                self.bad.append((p, self.first[p], c))
        for p in self.first:
            if p not in now:
                self.bad.append((p, self.first[p], "gone"))


async def controlled(g, ops, clock, hist, watch, turns):
    """A scheduler releases one body chunk or lets the loop run, until all requests are answered."""
    gates = {}
    waiting = {}

    def gate(i):
        async def wait(j):
            if len(gates) and (i, j) in gates:
                f = asyncio.get_running_loop().create_future()
                waiting[(i, j)] = f
                await f
        return wait

    async def one(i, op):
        method, path, body = http_of(op)
        cuts = sorted(g.r.sample(range(len(body) + 1), min(len(body) + 1, g.r.choice([0, 1, 2])))) if body else []
        chunks = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
        for j in range(len(chunks)):
            if g.coin(0.8):
                gates[(i, j)] = True
        inv = clock()
        r = await asgi.call(app, method, path, chunks=chunks, gate=gate(i))
        hist.append((inv, clock(), op, r))
        watch.look()

    todo = list(enumerate(ops))
    tasks = []
    while todo or waiting or not all(t.done() for t in tasks):
        c = g.r.random()
        if todo and (c < 0.4 or not tasks):
            i, op = todo.pop(0)
            tasks.append(asyncio.ensure_future(one(i, op)))
        elif waiting and c < 0.8:
            k = g.r.choice(sorted(waiting))
            waiting.pop(k).set_result(None)
        for _ in range(g.r.choice([0, 1, 2, 5, 12])):
            await asyncio.sleep(0)
        turns[0] += 1
        if turns[0] > 20000:
            raise RuntimeError("the schedule doesn't end")
    for t in tasks:
        t.result()


def inline(g):
    """Thread pool work as event loop turns."""
    async def run_sync(func, *args, **k):
        for _ in range(g.r.choice([0, 0, 1, 3, 7])):
            await asyncio.sleep(0)
        out = func(*args)
        for _ in range(g.r.choice([0, 0, 1, 3])):
            await asyncio.sleep(0)
        return out
    return run_sync


async def stressed(g, ops, clock, hist, watch):
    """Real threads, with delays in the storage."""
    async def one(i, op):
        method, path, body = http_of(op)
        await asyncio.sleep(g.r.choice([0, 0, 0.001]))
        inv = clock()
        r = await asgi.call(app, method, path, chunks=[body])
        hist.append((inv, clock(), op, r))
    await asyncio.gather(*(one(i, op) for i, op in enumerate(ops)))
    watch.look()


def slow(g, f):
    @functools.wraps(f)
    def wrapped(*a, **k):
        time.sleep(g.r.choice([0, 0.0005, 0.002]))
        return f(*a, **k)
    return wrapped


def judge(ck, ops, before, hist, watch, root, mode):
    text = [(a, b, op[:-1], result(op, r)) for a, b, op, r in hist]
    ck.case(key=(tuple((o[0], o[1], o[3] if o[0] == "put" else None) for o in ops), tuple((h[2][0], h[3][0]) for h in text)), sample=text, family=f"{mode} histories")
    overlap = sum(1 for x in range(len(hist)) for y in range(x) if hist[x][0] < hist[y][1] and hist[y][0] < hist[x][1])
    ck.event("overlapping pairs", overlap)
    ck.event("writes", sum(op[0] in ("post", "put") for op in ops))
    ck.event("conflicts answered 409", sum(h[3][0] == 409 for h in text))
    bad = [h for h in text if h[3][0] not in (200, 404, 409)]
    ck.expect(not bad, "unexpected status", f"{bad}: {text}", text)
    got = [(op[1], r[1]) for _, _, op, r in text if op[0] in ("post", "put") and r[0] == 200]
    ck.expect(len(set(map(str, got))) == len(got), "two registrations got the same version", f"{got}: {text}", text)
    ck.expect(not watch.bad, "a stored version changed", f"{watch.bad}: {text}", text)
    ck.event("histories decided")
    order = lin.linearizable([(a, b, op, r) for a, b, op, r in text], before, step)
    ck.expect(order is not None, "not linearizable", f"state {before}; {text}", text)
    return order


def final_state(root):
    return freeze(reg.state(root))


def run(ck):
    g = Gen(ck.rng)
    keys()
    ck.need("histories decided", 1500)
    ck.need("overlapping pairs", 5000)
    ck.need("conflicts answered 409", 300)
    ck.need("stressed histories", 100)
    ck.need("controlled histories", 1000)
    scratch = tempfile.mkdtemp(prefix="rv-c26-")
    loop = asyncio.new_event_loop()
    try:
        for i in ck.loop(6400, 60000):
            root = os.path.join(scratch, f"r{i}")
            world.configure([], registry="file://" + root)
            now = [0]

            def clock():
                now[0] += 1
                return now[0]

            # some versions are there before
            s = RegistryStorage(root)
            for _ in range(g.r.choice([0, 0, 1, 2])):
                s.put(g.r.choice(["a", "b", "é"]), from_dict(g.r.choice(TYPES)))
            before = final_state(root)
            watch = Watch(root)
            watch.look()
            hist = []
            ops = plan(g)
            if i // 8 % 12 == 0:
                mode = "stressed"
                sys.setswitchinterval(1e-5)
                try:
                    with mock.patch.object(LocalFileSystem, "open", slow(g, LocalFileSystem.open)), mock.patch.object(LocalFileSystem, "ls", slow(g, LocalFileSystem.ls)), mock.patch.object(LocalFileSystem, "mkdirs", slow(g, LocalFileSystem.mkdirs)):
                        loop.run_until_complete(stressed(g, ops, clock, hist, watch))
                finally:
                    sys.setswitchinterval(0.005)
            else:
                mode = "controlled"
                with mock.patch.object(anyio.to_thread, "run_sync", inline(g)):
                    loop.run_until_complete(controlled(g, ops, clock, hist, watch, [0]))
            order = judge(ck, ops, before, hist, watch, root, mode)
            if order is not None:
                st = before
                for j in order:
                    st = step(st, hist[j][2])[0]
                # what's stored must be what some linearization leaves; reads decide among them
                o = outcome(final_state, root)
                final = [(op, r) for op, r in [(("ls", None, "x"), (200, tuple(sorted(n for n, _ in o.value))))]] if o.ok else []
                ck.expect(o.ok, "registry can't be read afterwards", f"{o}: {hist}")
                if o.ok:
                    more = [(a, b, op, result(op, r)) for a, b, op, r in hist]
                    t = clock()
                    for n, vs in o.value:
                        more.append((clock(), clock(), ("versions", n, "x"), (200, tuple(v for v, _ in vs))))
                        for v, k in vs:
                            more.append((clock(), clock(), ("version", n, v, "x"), (200, (k, v))))
                    more.append((clock(), clock(), ("ls", None, "x"), final[0][1]))
                    ck.expect(lin.linearizable(more, before, step) is not None, "what is stored afterwards fits no order of the requests", f"state {before}; {more}", more)
            shutil.rmtree(root, ignore_errors=True)
    finally:
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
        shutil.rmtree(scratch, ignore_errors=True)
