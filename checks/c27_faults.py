"""C27: a failed registration leaves the registry as it was."""
import errno, functools, json, os, shutil, tempfile
import fsspec
from fsspec.implementations.local import LocalFileOpener, LocalFileSystem
from fsspec.implementations.memory import MemoryFile, MemoryFileSystem
from fsspec.spec import AbstractFileSystem
from recap.server.app import app
from recap.storage.registry import RegistryStorage
from recap.types import IntType, ListType, StructType, UnionType, EnumType
from rv import asgi, model as M, reg, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C27", "fault_enumeration"
TECHNIQUE = "runtime monitoring: fault and crash injection at every storage operation of a registration, with a full read-back compared with the state before"
RULE = ("for seeded random registries and registrations (new or existing name, automatic, explicit new or explicit existing version; library and HTTP), the storage operations of the registration are recorded, then the registration is repeated with a "
        "fault before, after or halfway through every single one of them (errors of four kinds; on a local directory also process death), with a client disconnect at every body chunk, and with refused bodies, content types and unserialisable types; "
        "then everything is read back through a fresh storage object and a later registration must succeed; non-trivial = distinct (registration, fault point, fault kind, outcome)")
ASSUMPTIONS = ["storage errors are not reported by the storage as 'file not found'", "a fault or crash after the name's directory was made may leave the name listed without versions", "files the filesystem writes out completely before moving them into place survive a process crash"]

ERRORS = [lambda: OSError(errno.ENOSPC, "No space left on device"), lambda: PermissionError(errno.EACCES, "denied"), lambda: TimeoutError("timed out"), lambda: ConnectionError("reset")]
FS_OPS = ["ls", "mkdirs", "makedirs", "mkdir", "open", "exists", "isfile", "isdir", "info", "find", "glob", "walk", "rm", "rm_file", "rmdir", "mv", "mv_file", "move", "copy", "cp_file", "cp", "pipe", "pipe_file", "cat", "cat_file", "put", "put_file", "touch", "write_text",
          "write_bytes", "read_text", "read_bytes", "listdir", "created", "modified", "size", "stat"]
FILE_OPS = ["write", "flush", "close", "commit", "discard", "writelines", "truncate"]


class Injector:
    """Counts storage operations; acts at one of them."""

    def __init__(self, at=None, when=None, act=None):
        self.at, self.when, self.act = at, when, act
        self.n, self.depth, self.log, self.fired = 0, 0, [], False
        self.saved = []

    def wrap(self, cls, name, is_file):
        if name not in dir(cls):
            return
        f = getattr(cls, name)
        own = name in vars(cls)
        inj = self

        @functools.wraps(f)
        def op(self_, *a, **k):
            if inj.depth and not is_file or (is_file and inj.depth > 1):
                return f(self_, *a, **k)
            n = inj.n
            inj.n += 1
            inj.log.append(name)
            hit = inj.at == n and not inj.fired
            inj.depth += 1
            try:
                if hit and inj.when == "before":
                    inj.fired = True
                    inj.act()
                if hit and inj.when == "half" and name == "write" and a:
                    inj.fired = True
                    f(self_, a[0][: len(a[0]) // 2])
                    flush = getattr(self_, "f", self_)
                    if hasattr(flush, "flush"):
                        flush.flush()
                    inj.act()
                out = f(self_, *a, **k)
                if hit and not inj.fired:
                    inj.fired = True
                    inj.act()
                return out
            finally:
                inj.depth -= 1

        self.saved.append((cls, name, own, vars(cls).get(name)))
        setattr(cls, name, op)

    def __enter__(self):
        for cls in (LocalFileSystem, MemoryFileSystem):
            for n in FS_OPS:
                self.wrap(cls, n, False)
        for cls in (LocalFileOpener, MemoryFile):
            for n in FILE_OPS:
                self.wrap(cls, n, True)
        return self

    def __exit__(self, *a):
        for cls, name, own, f in reversed(self.saved):
            if own:
                setattr(cls, name, f)
            else:
                delattr(cls, name)


def fail(kind):
    def act():
        raise ERRORS[kind]()
    return act


def die():
    os._exit(77)


class Case:
    """A registry with some content, and one registration."""

    def __init__(self, g, scratch, i, via):
        self.via = via
        self.backend = g.r.choice(["file", "file", "memory"])
        self.dir = os.path.join(scratch, f"o{i}")
        self.url = f"file://{self.dir}/reg" if self.backend == "file" else f"memory://o{i}/reg"
        pool = [n for n in reg.NAMES if n and "/" not in n and len(n) < 30 and n not in (".", "..")]
        self.names = g.r.sample(pool, g.r.randint(0, 3))
        self.content = [(n, reg.typ(g), v) for n in self.names for v in g.r.sample([1, 2, 3, 10], g.r.randint(1, 3))]
        self.name = g.r.choice(self.names) if self.names and g.coin(0.6) else g.r.choice(pool)
        self.node = reg.typ(g)
        have = [v for n, _, v in self.content if n == self.name]
        self.version = None if g.coin(0.5) else g.r.choice(([1, 4, 11] if via == "http" or not have else have + [4]))
        self.before = {}
        for n, t, v in self.content:
            self.before.setdefault(n, {})[v] = reg.key(t)
        have = self.before.get(self.name, {})
        self.stored = self.version if self.version is not None else max(have, default=0) + 1
        self.refused = via == "http" and self.version in have
        self.after = {n: dict(vs) for n, vs in self.before.items()}
        if not self.refused:
            self.after.setdefault(self.name, {})[self.stored] = reg.key(self.node)

    def fresh(self):
        if self.backend == "file":
            shutil.rmtree(self.dir, ignore_errors=True)
        else:
            reg.wipe_memory()
        s = RegistryStorage(self.url)
        for n, t, v in self.content:
            s.put(n, M.build(t), v)
        return s

    def request(self):
        import recap.types
        body = json.dumps(recap.types.to_dict(M.build(self.node))).encode()
        path = f"/registry/{asgi.seg(self.name)}"
        return ("POST", path, body) if self.version is None else ("PUT", f"{path}/versions/{self.version}", body)

    def run(self, storage, http):
        """The registration: (succeeded, what was answered)."""
        if self.via == "library":
            t = M.build(self.node)
            o = outcome(storage.put, self.name, t) if self.version is None else outcome(storage.put, self.name, t, self.version)
            return o.ok and o.value == self.stored, repr(o), o.ok
        method, path, body = self.request()
        world.configure([], registry=self.url)
        r = http(method, path, body=body)
        return r.status == 200 and r.body == str(self.stored).encode(), repr(r), r.status == 200

    def __repr__(self):
        return f"{self.via} on {self.backend}: {self.before} then {self.name!r} version {self.version}"


def audit(ck, c, ok, answer, accepted, what, phantoms):
    """What is stored now, compared with before and after."""
    o = outcome(reg.state, c.url)
    if not ck.expect(o.ok, "registry can't be read after a failed registration", f"{c}; {what}: {answer}; {o}", what):
        return
    now = o.value
    if phantoms:
        now = {n: vs for n, vs in now.items() if vs or n != c.name}
    full = now == c.after
    same = now == c.before
    w = {"case": repr(c), "fault": what, "answer": answer, "now": repr(now), "before": repr(c.before), "after": repr(c.after)}
    ck.event("read-backs")
    if c.refused:
        ck.expect(same, "a refused registration changed the registry", w, w)
        return
    if accepted:
        ck.expect(ok, "wrong version reported", w, w)
        if not full:
            ck.violate("a failed registration was reported as a success", w, w)
    elif full and not same:
        ck.event("failed, but stored completely")
    elif not same:
        others = {n: {v: k for v, k in vs.items() if (n, v) != (c.name, c.stored)} for n, vs in now.items()}
        was = {n: {v: k for v, k in vs.items() if (n, v) != (c.name, c.stored)} for n, vs in c.before.items()}
        others = {n: vs for n, vs in others.items() if vs}
        was = {n: vs for n, vs in was.items() if vs}
        if others != was:
            ck.violate("a failed registration changed other types or versions", w, w)
        elif c.stored in now.get(c.name, {}):
            ck.violate("a failed registration left a partial version", w, w)
        else:
            ck.violate("a failed registration changed what's listed", w, w)
    # later registrations
    s = RegistryStorage(c.url)
    t = M.integer(7 + len(answer) % 40)
    o = outcome(s.put, c.name, M.build(t))
    want = max(now.get(c.name, {}), default=0) + 1
    if ck.expect(o.ok and o.value == want, "no registration after a failed one", f"{c}; {what}: later put -> {o}, not {want}", w):
        p = outcome(s.get, c.name)
        ck.expect(p.ok and p.value and reg.key_of(p.value[0]) == reg.key(t) and p.value[1] == want, "no registration after a failed one", f"{c}; {what}: later get -> {p}", w)
    ck.event("later registrations")


def storage_faults(ck, g, c, http):
    s = c.fresh()
    with Injector() as inj:
        ok, answer, accepted = c.run(s, http)
    ck.expect(ok or c.refused, "registration without faults failed", f"{c}: {answer}")
    audit(ck, c, ok, answer, accepted, "no fault", False)
    points = inj.log
    ck.event("storage operations", len(points))
    for at, name in enumerate(points):
        for when in ("before", "after") + (("half",) if name == "write" else ()):
            kind = g.r.randrange(len(ERRORS))
            s = c.fresh()
            with Injector(at, when, fail(kind)) as inj:
                ok, answer, accepted = c.run(s, http)
            what = f"error {kind} {when} operation {at} ({name}) of {points}"
            if not inj.fired:
                ck.event("fault points not reached again")
                continue
            ck.event("faults injected")
            ck.case(key=(repr(c.before), c.name, c.version, c.via, at, when, kind, accepted), sample={"case": repr(c), "fault": what, "answer": answer}, family=f"fault {when} {name}")
            audit(ck, c, ok, answer, accepted, what, True)


def crashes(ck, g, c):
    if c.backend != "file":
        return
    s = c.fresh()
    with Injector() as inj:
        c.run(s, None)
    points = inj.log
    for at, name in enumerate(points):
        for when in ("before", "after") + (("half",) if name == "write" else ()):
            s = c.fresh()
            pid = os.fork()
            if pid == 0:
                try:
                    with Injector(at, when, die):
                        c.run(s, None)
                finally:
                    os._exit(0)
            st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            if st != 77:
                ck.event("fault points not reached again")
                continue
            ck.event("crashes injected")
            what = f"crash {when} operation {at} ({name}) of {points}"
            ck.case(key=(repr(c.before), c.name, c.version, "crash", at, when), sample={"case": repr(c), "fault": what}, family=f"crash {when} {name}")
            audit(ck, c, False, "crashed", False, what, True)
            sweep_tmp()


def sweep_tmp():
    """Unfinished temporary files of crashed children lie in this check's own temporary directory."""
    d = tempfile.gettempdir()
    for f in os.listdir(d):
        if f.startswith("tmp") and os.path.isfile(os.path.join(d, f)):
            os.unlink(os.path.join(d, f))


def disconnects(ck, g, c, http):
    method, path, body = c.request()
    cuts = sorted(g.r.sample(range(1, len(body)), min(len(body) - 1, g.r.choice([0, 1, 2, 5])))) if len(body) > 1 else []
    chunks = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
    if g.coin(0.2):
        chunks.append(b"")
    for at in range(len(chunks)):
        c.fresh()
        world.configure([], registry=c.url)
        r = http(method, path, chunks=chunks, disconnect_after=at)
        ck.event("disconnects")
        ck.case(key=(repr(c.before), c.name, c.version, "disconnect", at, len(chunks)), sample={"case": repr(c), "chunks": [len(x) for x in chunks], "disconnect": at}, family="disconnect")
        o = outcome(reg.state, c.url)
        ck.expect(o.ok and o.value == c.before, "an incomplete request changed the registry", f"{c}: disconnected before chunk {at} of {chunks}; {o.value} instead of {c.before}", [c.before, o])
    # and after all, it can still be sent
    c.fresh()
    ok, answer, accepted = c.run(None, http)
    audit(ck, c, ok, answer, accepted, "resent after disconnects", False)


BODIES = [b"", b"{", b"[", b"null", b"1", b"true", b"[]", b"{}", b"\xff\xfe", b'"', b'{"type": "int"}', b'{"type": "int", "bits": 0}', b'{"type": "int", "bits": "x"}', b'{"type": "nope"}', b'{"type": "list"}', b'{"type": "struct", "fields": 3}', b'{"type": "struct", "fields": [{"type": "int"}]}',
          b'{"type": "union", "types": []}', b'{"type": "enum"}', b'{"type": "map", "keys": "string"}', b'["int32", {"type": "x"}]', b'{"type": {"type": "int"}}', b'{"bits": 32}', b'{"type": "int", "bits": 32', b'{"type": "enum", "symbols": [1]}', b'{"type": "string", "bytes": -1}', b"[" * 3000, b'{"a":' * 3000,
          b'{"type": "struct", "fields": [{"name": "a", "type": "int32"}, {"name": "b", "type": "nope"', b'{"type": "list", "values": {"type": "list", "values": {"type": "int"}}}', b"\x00", b"NaN", b'{"type": "int", "bits": 1e400}', b'{"type": "int", "bits": NaN}', b"1" * 5000, b'"\\ud800"', b'{"type": "int32", "x": "\\ud800"}']
CTYPES = ["application/json", "text/plain", "application/x-recap+json; charset=utf-8", "application/octet-stream", "application/schema+json", "*/*", "application/x-recap", "x"]


def refused(ck, g, c, http):
    method, path, body = c.request()
    headers = []
    if g.coin(0.25):
        headers = [("content-type", g.r.choice(CTYPES))]
    else:
        body = g.r.choice(BODIES) if g.coin(0.5) else body[: g.r.randrange(len(body))] if g.coin(0.5) else bytes(b if g.coin(0.97) else g.r.randrange(256) for b in body)
    c.fresh()
    world.configure([], registry=c.url)
    r = http(method, path, headers=headers, body=body)
    o = outcome(reg.state, c.url)
    w = {"case": repr(c), "headers": headers, "body": repr(body), "answer": repr(r), "now": repr(o)}
    ck.case(key=(repr(c.before), c.name, c.version, body, tuple(headers), r.status), sample=w, family="bodies")
    if r.status == 200:
        ck.event("odd bodies accepted")
        got = {n: {v: k for v, k in vs.items() if (n, v) != (c.name, c.stored)} for n, vs in o.value.items()} if o.ok else None
        was = {n: {v: k for v, k in vs.items() if (n, v) != (c.name, c.stored)} for n, vs in c.before.items()}
        ck.expect(o.ok and {n: v for n, v in got.items() if v} == {n: v for n, v in was.items() if v}, "a registration changed other types or versions", w, w)
        ck.expect(o.ok and c.stored in o.value.get(c.name, {}) and not o.value[c.name][c.stored].startswith("unreadable"), "an accepted type can't be read", w, w)
    else:
        ck.event("bodies refused")
        ck.expect(o.ok and o.value == c.before, "a refused body changed the registry", w, w)
    r = http(method.replace("PUT", "POST"), f"/registry/{asgi.seg(c.name)}", body=b"bool")
    ck.expect(r.status == 200 or not o.ok, "no registration after a refused one", f"{w}; {r}", w)


class Odd:
    pass


def unserialisable(ck, g, c):
    bad = [Odd(), {1, 2}, b"x", 1j, {(1, 2): 3}, Odd, [Odd()], {"k": {1}}, float]
    x = g.r.choice(bad)
    t = g.r.choice([lambda: IntType(32, foo=x), lambda: ListType(IntType(8, default=x)), lambda: StructType([IntType(8, name="a"), IntType(9, name="b", extra=x)]), lambda: UnionType([IntType(8), IntType(9, zed=x)]), lambda: EnumType(["A"], note=x), lambda: StructType([ListType(IntType(8), name="l", w=x)])])()
    s = c.fresh()
    o = outcome(s.put, c.name, t) if c.version is None else outcome(s.put, c.name, t, c.version)
    now = outcome(reg.state, c.url)
    ck.event("unserialisable types")
    ck.case(key=(repr(c.before), c.name, c.version, repr(type(x)), type(t).__name__), sample={"case": repr(c), "value": repr(x), "answer": repr(o)}, family="unserialisable")
    if o.ok:
        ck.event("unserialisable types accepted")
        ck.expect(now.ok and not str(now.value.get(c.name, {}).get(c.stored, "unreadable")).startswith("unreadable"), "an accepted type can't be read", f"{c} {t} {now}")
    else:
        ck.expect(now.ok and now.value == c.before, "an unserialisable type changed the registry", f"{c}: {o}; {now} instead of {c.before}", [repr(c), repr(t)])
    ck.expect(s.put(c.name, IntType(8)) >= 1, "no registration after a refused one", repr(c))


def run(ck):
    g = Gen(ck.rng)
    ck.need("faults injected", 3000)
    ck.need("crashes injected", 200)
    ck.need("disconnects", 150)
    ck.need("bodies refused", 500)
    ck.need("unserialisable types", 150)
    ck.need("later registrations", 3000)
    scratch = tempfile.mkdtemp(prefix="rv-c27-")
    os.makedirs(scratch + "/tmp")
    tempfile.tempdir = scratch + "/tmp"
    http = asgi.Http(app)
    try:
        for i in ck.loop(1200, 12000):
            k = i // 8 % 12
            via = "http" if k in (0, 1, 2, 3, 4) else "library"
            c = Case(g, scratch, i, via)
            if k in (0, 1, 5, 6, 7, 8):
                storage_faults(ck, g, c, http)
            elif k == 9:
                crashes(ck, g, c)
            elif k == 2:
                disconnects(ck, g, c, http)
            elif k in (3, 4):
                for _ in range(6):
                    refused(ck, g, c, http)
            else:
                for _ in range(2):
                    unserialisable(ck, g, c)
            shutil.rmtree(c.dir, ignore_errors=True)
            sweep_tmp()
    finally:
        tempfile.tempdir = None
        http.close()
        shutil.rmtree(scratch, ignore_errors=True)
