"""C25: the registry as a versioned map."""
import os, random, shutil, tempfile
import fsspec
from recap.storage.registry import RegistryStorage
from rv import model as M, reg
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C25", "exploration"
TECHNIQUE = "runtime monitoring: model-based online checker of registry operation sequences, with a watch on the filesystem around the storage location"
RULE = ("seeded random sequences of put (with and without explicit versions), get, versions, latest and ls over hostile names (separators, dot segments, percent escapes and what they encode to, spaces and plus signs, "
        "control characters, unicode, glob and shell characters, names of the registry's own files) and random types, on a local directory (also by way of a filesystem configured by arguments) and an in-memory filesystem, by several storage objects on the same location; "
        "every result compared with a versioned-map model, everything read back at the end, every file outside of the location compared with before; non-trivial = distinct operation sequence")
ASSUMPTIONS = ["names and versions the storage can't hold may be refused, if the refusal changes nothing", "storing an explicit version that exists replaces it at this level (the HTTP API refuses it, C28)"]


def run(ck):
    g = Gen(ck.rng)
    ck.need("puts", 2000)
    ck.need("reads of stored versions", 1500)
    ck.need("reads of absent versions", 500)
    ck.need("explicit versions", 500)
    ck.need("names at once", 1000)
    ck.need("long histories", 50)
    ck.need("long names", 50)
    ck.need("storages with arguments", 200)
    scratch = tempfile.mkdtemp(prefix="rv-reg-")
    try:
        for i in ck.loop(8000, 120000):
            one(ck, g, scratch, i)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def one(ck, g, scratch, i):
    backend = g.r.choice(["file", "file", "memory"])
    outer = os.path.join(scratch, f"o{i}")
    os.makedirs(outer + "/sibling")
    for n in ("a", "sibling/x", "etc"):
        open(os.path.join(outer, n), "w").write("not yours")
    rootname = g.r.choice(["reg", "reg.d", "r-1", "deep/er/reg", "a%b" if backend == "memory" else "reg"])
    if backend == "file":
        url = g.r.choice(["file://", ""]) + f"{outer}/{rootname}" + g.r.choice(["", "/"])
    else:
        reg.wipe_memory()
        url = f"memory://outer{i}/{rootname}"
        fsspec.filesystem("memory").pipe_file(f"/outer{i}/a", b"not yours")
        fsspec.filesystem("memory").pipe_file(f"/outer{i}/{rootname}x/a/1.json", b"{}")
    kw = {}
    if backend == "file" and g.coin(0.25):
        # the same place, by way of the filesystem's own arguments
        kw = {"path": outer, "target_protocol": "file"}
        url = f"dir://{rootname}"
        ck.event("storages with arguments")
    before = reg.tree(outer)
    stores = [RegistryStorage(url, **kw)]
    model = {}
    trace = [("open", url, kw)]
    few = [reg.name(g) for _ in range(g.r.randint(1, 6))]
    # names that differ only in how they are written
    if g.coin(0.5):
        n = g.r.choice(few)
        few += [n.upper(), n + "/", n.replace(" ", "+"), n.replace("%", "%25"), n + ".json"][: g.r.randint(1, 5)]
    if g.coin(0.08):
        # long names that differ at their end or start only
        n = reg.long_name(g) if g.coin(0.7) or backend == "file" else reg.long_name(g) * g.r.choice([2, 5, 20])
        few = [n + "a", n + "b", n, "c" + n][: g.r.randint(2, 4)] + few[:2]
        ck.event("long names")

    def check_read(s, n, v, what="get"):
        o = outcome(s.get, n, v) if v is not None or g.coin() else outcome(s.get, n)
        have = model.get(n, {})
        if v is None:
            want = (have[max(have)], max(have)) if have else None
        else:
            want = (have[v], v) if v in have else None
        if not n:
            return
        if want is None:
            ck.event("reads of absent versions")
            ck.expect(not o.ok or o.value is None, "absent version read", f"get({n!r}, {v}) -> {o}; {trace}", trace)
        else:
            ck.event("reads of stored versions")
            if ck.expect(o.ok and isinstance(o.value, tuple) and len(o.value) == 2, "stored version not found", f"get({n!r}, {v}) -> {o}, stored {want[1]}; {trace}", trace):
                t, gv = o.value
                ck.expect(type(gv) is int and gv == want[1], "wrong version returned", f"get({n!r}, {v}) -> version {gv}, not {want[1]}; {trace}", trace)
                ck.expect(reg.key_of(t) == want[0], "another type came back", f"get({n!r}, {v}) -> {reg.key_of(t)} instead of {want[0]}; {trace}", trace)

    def check_versions(s, n):
        o = outcome(s.versions, n)
        want = sorted(model.get(n, {}))
        if not n:
            return
        if not want:
            ck.expect(not o.ok or not o.value, "versions of an absent name", f"versions({n!r}) -> {o}; {trace}", trace)
        else:
            ck.expect(o.ok and list(o.value) == want, "wrong versions", f"versions({n!r}) -> {o} instead of {want}; {trace}", trace)
        o = outcome(s.latest, n)
        ck.expect((o.ok and o.value == (want[-1] if want else None)) or (not o.ok and not want), "wrong latest version", f"latest({n!r}) -> {o} instead of {want[-1:]}; {trace}", trace)

    def check_ls(s):
        o = outcome(s.ls)
        ck.expect(o.ok and list(o.value) == sorted(model), "wrong names listed", f"ls() -> {o} instead of {sorted(model)}; {trace}", trace)
        ck.event("names at once", len(model))

    if g.coin(0.006):
        # a crowd: many names, or very many versions of one
        ck.event("crowds")
        k = g.span(40, 1100)
        trace.append(("crowd", k))
        one = few[0] if g.coin() and few[0] else None
        for j in range(k):
            n = one or f"n{j}"
            node = M.integer(1 + j % 64, x={"j": j})
            o = outcome(stores[0].put, n, M.build(node))
            want = max(model.get(n, {}), default=0) + 1
            if not ck.expect(o.ok and o.value == want, "wrong version stored", f"put #{j} of {n!r} -> {o}, not {want}; {trace}", trace):
                break
            model.setdefault(n, {})[want] = reg.key(node)
    # now and then a name with a long history
    many = g.coin(0.08)
    if many:
        few = few[:2]
        ck.event("long histories")
    for _ in range(g.r.randint(12, 40) if many else g.r.randint(1, 14)):
        s = g.r.choice(stores)
        op = g.r.choice(["put", "put", "put", "put", "get", "versions", "ls", "open"]) if not many else g.r.choice(["put", "put", "put", "put", "put", "get", "versions"])
        n = g.r.choice(few) if g.coin(0.8) or many else reg.name(g)
        if op == "open":
            stores.append(RegistryStorage(url, **kw))
        elif op == "put":
            node = reg.typ(g)
            t = M.build(node)
            v = (g.r.choice([1, 2, 3, 5, 9, 10, 11, 99, 100, 0, 2**31, 10**12]) if not many else g.r.randint(1, 60)) if g.coin(0.1 if many else 0.3) else None
            have = model.get(n, {})
            trace.append(("put", n, v))
            o = outcome(s.put, n, t, v) if v is not None else outcome(s.put, n, t)
            ck.event("puts")
            if v is not None:
                ck.event("explicit versions")
            want = v if v is not None else max(have, default=0) + 1
            if o.ok:
                ck.expect(o.value == want and type(o.value) is int, "wrong version stored", f"put({n!r}, {v}) -> {o}, not {want}; {trace}", trace)
                model.setdefault(n, {})[want] = reg.key(node)
            else:
                ck.event("puts refused")
                trace.append(("refused", repr(o)))
                ck.expect(not reg.holds(n, backend == "memory"), "name refused", f"put({n!r}, {v}) -> {o}; {trace}", trace)
        elif op == "get":
            v = g.r.choice([None, None, 1, 2, 3, 7, 10, 11, -1, 0])
            trace.append(("get", n, v))
            check_read(s, n, v)
        elif op == "versions":
            trace.append(("versions", n))
            check_versions(s, n)
        else:
            trace.append(("ls",))
            check_ls(s)
    ck.case(key=repr(trace), sample=trace, family=f"sequences on {backend}")
    # read everything back, with a fresh object too
    for s in (g.r.choice(stores), RegistryStorage(url, **kw)):
        check_ls(s)
        for n in set(model) | set(few):
            check_versions(s, n)
            check_read(s, n, None)
            for v in list(model.get(n, {}))[-8 if many else -4:]:
                check_read(s, n, v)
    after = reg.tree(outer)
    if backend == "file":
        root = os.path.join(outer, rootname)
        out = {p: c for p, c in after.items() if not (p.startswith(root + "/") or (p.endswith("/") and root.startswith(p[:-1])))}
        was = {p: c for p, c in before.items() if not (p.startswith(root + "/") or (p.endswith("/") and root.startswith(p[:-1])))}
        ck.expect(out == was, "files outside of the storage location changed", f"{set(out.items()) ^ set(was.items())}; {trace}", trace)
    else:
        fs = fsspec.filesystem("memory")
        out = [p for p in fs.store if not p.startswith(f"/outer{i}/{rootname}/") and p not in (f"/outer{i}/a", f"/outer{i}/{rootname}x/a/1.json")]
        ck.expect(not out, "files outside of the storage location changed", f"{out}; {trace}", trace)
        ck.expect(after == before, "files outside of the storage location changed", f"{set(after) ^ set(before)}; {trace}", trace)
    shutil.rmtree(outer, ignore_errors=True)
