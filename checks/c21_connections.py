"""C21: connection lifecycle."""
import os
from importlib import import_module
from recap import clients, commands
from recap.clients import create_client
from recap.commands import SchemaFormat
from rv import sqlgen, tour, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C21", "fault_enumeration"
TECHNIQUE = "runtime monitoring: online checker of the open/use/close trace of instrumented drivers, with a fault injected at every driver step"
RULE = ("seeded random systems of every kind; each listing, read (in every output format, including schemas a format can't express and columns recap can't convert), refused request and use of a plain client is run once "
        "without faults, then once for every driver step with that step failing (connect, cursor, execute, fetch, API call, HTTP request), and in random sequences of commands; the monitor requires that every opened "
        "connection is closed when the command ends, that nothing uses a closed connection, that no connection serves two commands and that injected faults reach the caller; non-trivial = distinct (command, failing step)")
ASSUMPTIONS = ["a connection that the driver refused to open isn't open"]


KEPT = []  # what commands obtained from Client.create: closing must not depend on the garbage collector


def keep_contexts():
    for path in set(clients.CLIENTS.values()):
        module, name = path.rsplit(".", 1)
        cls = getattr(import_module(module), name)

        def create(*a, _create=cls.create, **k):
            context = _create(*a, **k)
            KEPT.append(context)
            return context

        cls.create = staticmethod(create)


class Boom(Exception):
    pass


def monitor(ck, w, what, seen, o, faulted):
    ck.event("traces checked")
    opened = w.opened()
    ck.event("connections opened", len(opened))
    if w.still_open():
        ck.violate("connection left open", f"{what}: {w.still_open()} after {o}; trace {w.events[-12:]}", what)
    late = [e for e in w.events if e[0] == "use after close"]
    if late:
        ck.violate("connection used after it was closed", f"{what}: {w.events[-12:]}", what)
    closed = set()
    for e in w.events:
        if e[0] == "close":
            closed.add(e[2])
        elif e[0] == "use" and e[2] in closed:
            ck.violate("connection used after it was closed", f"{what}: {w.events[-12:]}", what)
    own = {e[2] for e in opened}
    used = {e[2] for e in w.events if e[0] in ("use", "close", "request") and e[2] is not None}
    ck.expect(used <= own, "connection of another command used", f"{what}: {used - own}", what)
    if faulted:
        ck.expect(not o.ok, "failure not reported", f"{what}: {o}", what)
    ck.event("monitor evaluations", 3)


def command(ck, w, what, f, seen):
    w.clear()
    w.fault = None
    o = outcome(f)
    steps = w.count
    monitor(ck, w, what, seen, o, False)
    ck.case(key=what, sample=what, family="commands")
    for n in range(1, steps + 1):
        kind = ck.rng.choice([Boom, KeyError, OSError, TimeoutError, ValueError])
        hit = []

        def fault(system, step, count):
            if count == n:
                hit.append(step)
                raise kind("injected")

        w.clear()
        w.fault = fault
        try:
            o2 = outcome(f)
        finally:
            w.fault = None
        if not hit:
            continue
        ck.event("faults injected")
        ck.event("fault at " + hit[0])
        ck.case(key=(what, n), family="faulted commands")
        monitor(ck, w, (what, f"fault at step {n} ({hit[0]})"), seen, o2, True)
        ck.event("contexts kept alive", len(KEPT))
        KEPT.clear()
    return o


def use_client(url, args, boom):
    """A caller's own failure inside create_client must close the connection too."""
    with create_client(url) as c:
        c.ls(*args)
        if boom:
            raise boom("caller")
        c.ls(*args)


def run(ck):
    g = Gen(ck.rng)
    seen = set()
    ck.need("traces checked", 3000)
    ck.need("faults injected", 1500)
    ck.need("connections opened", 2000)
    for s in ("connect", "execute", "fetch", "cursor", "request"):
        ck.need("fault at " + s, 100)
    ck.need("contexts kept alive", 1000)
    keep_contexts()
    kinds = [k for k in tour.BUILD if k != "file"]
    for k in kinds:
        ck.need("commands on " + k, 100)
    with world.World(g.r) as w:
        world.configure([])
        for i in ck.loop(3000, 30000):
            k = g.r.choice(kinds)
            s = tour.sql(g, w, k, bad=0.15) if k in ("postgresql", "mysql", "snowflake") else tour.BUILD[k](g, w)
            if k == "hive" and g.coin(0.3):
                for d in w.hive:
                    for t in w.hive[d].values():
                        t.columns.append(object())  # something no converter knows
                        break
            paths = s.all_paths()
            todo = []
            for p in g.r.sample(paths, min(3, len(paths))):
                u = s.url(p)
                if p in s.leaves:
                    for f in g.r.sample(list(SchemaFormat), 2):
                        todo.append((f"schema {u} as {f.value}", lambda u=u, f=f: commands.schema(u, f, strict=False)))
                    if k == "hive":
                        todo.append((f"schema {u} with stats", lambda u=u: commands.schema(u + "?include_stats=true", strict=False)))
                    if g.coin(0.3):
                        todo.append((f"schema {u} as nothing known", lambda u=u: commands.schema(u, "xml", strict=False)))
                else:
                    todo.append((f"ls {u}", lambda u=u: commands.ls(u, strict=False)))
            # absent things and wrong depths
            absent = (*g.r.choice(list(s.listing)), "absent")
            todo.append((f"ls {s.url(absent)}", lambda: commands.ls(s.url(absent), strict=False)))
            if k not in ("sqlite",):
                todo.append((f"schema {s.url(absent)}", lambda: commands.schema(s.url(absent), strict=False)))
            if k != "bigquery":
                boom = g.r.choice([None, Boom, KeyboardInterrupt, GeneratorExit, SystemExit])
                base, args = {"hive": (s.url(), []), "confluent": (s.url(), []), "sqlite": (s.url(), [])}.get(k, (s.url(), []))

                def own(base=base, args=args, boom=boom):
                    try:
                        use_client(base, args, boom)
                    except (KeyboardInterrupt, GeneratorExit, SystemExit) as e:
                        raise Boom from e

                todo.append((f"client for {base}, {boom}", own))
            for what, f in todo:
                ck.event("commands on " + k)
                command(ck, w, what, f, seen)
            # all of them in a row, with a fault here and there
            w.clear()
            nth = g.r.randint(1, 12)

            def sometimes(system, step, count):
                if count % nth == 0:
                    raise Boom("injected")

            w.fault = sometimes
            for what, f in todo + todo[:2]:
                before = len(w.events)
                o = outcome(f)
                ck.expect(not w.still_open(), "connection left open", f"{what} in a row of commands: {w.still_open()}", what)
                KEPT.clear()
                mine = {e[2] for e in w.events[before:] if e[0] == "connect"}
                old = {e[2] for e in w.events[before:] if e[0] == "use" and e[2] is not None} - mine
                ck.expect(not old, "connection of another command used", f"{what}: {old}", what)
            w.fault = None
            ck.event("command sequences")
            tour.cleanup(s)
