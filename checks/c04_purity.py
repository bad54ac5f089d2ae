"""C04: no side effects."""
import copy, json, os, pickle, random, subprocess, sys, time
from recap import types as T
from rv import core, model as M, purity as Pu

PID, LEVEL = "C04", "exploration"
TECHNIQUE = "runtime monitoring: argument snapshots around every call, results compared across call orders, pristine processes and hash seeds, re-inspection of earlier results"
RULE = ("seeded random library calls of every kind (definitions, serialising, cleaning, aliasing, comparing, nullability, resolving, all readers and writers; about a quarter of the inputs invalid), each evaluated "
        "alone in a freshly forked process, in a different random order in every worker with earlier results scrambled by their receiver, and in order in processes with other hash seeds; outcomes compared, "
        "and many more repeated on their own arguments; arguments inspected after every call against a second copy, earlier results inspected again later; non-trivial = distinct call")
ASSUMPTIONS = ["a failing call's exception type, not its text, is part of the outcome", "converters are fresh for every call"]


SLOW = ("protobuf read", "postgresql", "mysql", "snowflake")


def in_child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as fh:
                pickle.dump(f(), fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def scramble(r, v, depth=0):
    """What a caller might do with a result it got."""
    if isinstance(v, dict):
        for x in list(v.values()):
            scramble(r, x, depth)
        v["scrambled"] = True
        if r.random() < 0.3:
            v.pop(r.choice(list(v)), None)
    elif isinstance(v, list):
        for x in list(v):
            scramble(r, x, depth)
        if r.random() < 0.5:
            v.append("scrambled")
        else:
            v.clear()
    elif isinstance(v, T.RecapType):
        for a in ("values", "keys", "fields", "types"):
            x = getattr(v, a, None)
            if isinstance(x, (list, T.RecapType)):
                scramble(r, x, depth)
        if isinstance(v, T.ProxyType):
            if depth == 0:
                try:
                    t = v.resolve()
                except Exception:
                    t = None
                scramble(r, t, 1)
        v.extra_attrs["scrambled"] = 1
        v.doc = "scrambled"
        if hasattr(v, "bits"):
            v.bits = 3
        if hasattr(v, "symbols"):
            v.symbols.append("scrambled")


def run(ck):
    n = ck.n(1470, 8400)
    seed = ck.seed
    ck.data["digests"] = []
    ck.need("calls that returned", 2000)
    ck.need("calls that raised", 500)
    ck.need("results in pristine processes", n)
    ck.need("earlier results inspected again", 2000)
    ck.need("probes", 2000)
    ck.need("calls repeated on their own arguments", 5000)
    # 1. alone in a process
    for i in ck.share(range(n)):
        d = in_child(lambda: (lambda e: (Pu.digest(e[0]), Pu.short(e[0])))(Pu.evaluate(Pu.operation(seed, i))))
        ck.event("results in pristine processes")
        ck.data["digests"].append((i, d[0], "alone", d[1]))
        if time.monotonic() > ck.deadline:
            break
    # 2. with other hash seeds
    if ck.shard[0] < (2 if ck.tier == "quick" else 4):
        env = dict(os.environ, PYTHONHASHSEED=str(1000 + ck.shard[0] + seed), PYTHONPATH=os.pathsep.join([core.REPO, core.VERIF]), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen([sys.executable, "-c", "from rv import purity; purity.main()", str(seed), str(n)], env=env, stdout=subprocess.PIPE, cwd=os.environ["HOME"])
    else:
        p = None
    # small calls that are repeated all the time
    probes = Pu.probes()
    expected = in_child(lambda: [Pu.probe(p) for p in probes])
    for q, e in zip(probes, expected):
        ck.expect(e[0] == "returned", "harness", f"{q[1]}: {e}")

    def again(family=None):
        for q, e in zip(probes, expected):
            if ck.rng.random() < (0.6 if q[0] == family else 0.05 if q[0] not in SLOW else 0.01):
                ck.event("probes")
                now = Pu.probe(q)
                ck.expect(now == e, "outcome depends on what happened before", f"{q[1]}: {M.diff(e, now)}")

    # 3. in random orders
    order = list(range(n)) + ck.rng.sample(range(n), n // 3)
    ck.rng.shuffle(order)
    kept = []
    for i in order:
        op = Pu.operation(seed, i)
        want_args = Pu.plain(op[1]())
        got, v, args = Pu.evaluate(op)
        ck.case(key=i, sample=want_args, family=op[0])
        ck.event("calls that " + got[0])
        ck.data["digests"].append((i, Pu.digest(got), f"worker {ck.shard[0]}", Pu.short(got)))
        after = Pu.plain(args)
        ck.expect(after == want_args, "arguments modified", f"{op[0]}: {M.diff(want_args, after)}", want_args)
        if got[0] == "raised" or ck.rng.random() < 0.1:
            again(op[0])
        if v is not None:
            if ck.rng.random() < 0.15:
                scramble(ck.rng, v)
            else:
                kept.append((i, op[0], v, got[1]))
        if len(kept) > 40 or ck.rng.random() < 0.02:
            for j, fam, v, was in kept:
                ck.event("earlier results inspected again")
                now = Pu.plain(v)
                ck.expect(now == was, "an earlier result changed", f"{fam} (call {j}): {M.diff(was, now)}", was)
            kept = ck.rng.sample(kept, 20) if len(kept) > 20 else kept
        if time.monotonic() > ck.deadline:
            ck.notes["watchdog"] = "stopped early"
            break
    # 4. more calls, twice each with the same arguments: first the arguments, then the outcomes
    me, of = ck.shard
    for k in range(ck.n(4000, 60000)):
        if time.monotonic() > ck.deadline:
            break
        i = n + k * of + me
        op = Pu.operation(seed, i)
        if op[0] in SLOW and k % 10:
            continue
        want_args = Pu.plain(op[1]())
        got, v, args = Pu.evaluate(op)
        ck.case(key=i, sample=want_args, family=op[0])
        ck.event("calls repeated on their own arguments")
        after = Pu.plain(args)
        if ck.expect(after == want_args, "arguments modified", f"{op[0]}: {M.diff(want_args, after)}", want_args):
            again = Pu.again(op, args)
            ck.expect(again == got, "the same call on the same arguments gives something else", f"{op[0]}: {M.diff(got, again)}", want_args)
            ck.expect(v is None or Pu.plain(v) == got[1], "an earlier result changed", f"{op[0]}: {Pu.short(got)}", want_args)
    if p is not None:
        out = p.communicate()[0]
        if p.returncode == 0:
            for i, d in json.loads(out).items():
                ck.event("results with other hash seeds")
                ck.data["digests"].append((int(i), d, f"hash seed {ck.shard[0]}", ""))
        else:
            raise RuntimeError("the process with another hash seed failed")


def final(ck):
    by = {}
    for i, d, where, text in ck.data.get("digests", []):
        by.setdefault(i, {}).setdefault(d, []).append((where, text))
    ck.event("calls compared", len(by))
    for i, ds in sorted(by.items()):
        if len(ds) > 1:
            try:
                ck.expect(False, "outcome depends on what happened before", f"call {i} ({Pu.operation(ck.seed, i)[0]}): " + "; ".join(f"{[w for w, _ in ws][:9]} -> {next((t for _, t in ws if t), '')[:400]}" for ws in ds.values()),
                          Pu.plain(Pu.operation(ck.seed, i)[1]()))
            except core.Stop:
                return
        else:
            ck.event("monitor evaluations")
