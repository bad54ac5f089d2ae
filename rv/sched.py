"""Runs functions in threads of which one at a time runs; at lines of recap's code a seeded choice decides which
one goes on. Code of other libraries is never interrupted, so only recap's own shared state can matter."""
from __future__ import annotations

import hashlib
import os
import sys
import threading
import time

TOOL = 4
mon = sys.monitoring


def _state(tid):
    try:
        with open(f"/proc/self/task/{tid}/stat", "rb") as f:
            rest = f.read().rpartition(b")")[2].split()
        return rest[0], rest[11], rest[12]
    except OSError:
        return b"X", b"", b""


class Scheduler:
    def __init__(self, root):
        self.root = os.path.join(os.path.realpath(root), "")
        self.ours = {}
        self.active = None

    def __enter__(self):
        mon.use_tool_id(TOOL, "rv-sched")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)

    def _line(self, code, line):
        f = code.co_filename
        mine = self.ours.get(f)
        if mine is None:
            mine = self.ours[f] = os.path.realpath(f).startswith(self.root)
        if not mine:
            return mon.DISABLE
        run = self.active
        if run is not None:
            run.point(code, line)


class Run:
    """One execution: jobs -> results, in a random interleaving."""

    def __init__(self, sched, rng, p, at=None):
        """at: one switch only, from the first thread to the second one, at the at-th line of recap's code that it gets to;
        p: the probability of a switch at a line, or None for 1-3 switches in all, at lines (not times) that are
        equally likely: the others then run on until they're done (or switch)."""
        self.sched, self.rng, self.p = sched, rng, p
        self.seen = set()
        self.at = at
        self.lines = 0
        self.budget = rng.choice([1, 1, 2, 3])
        self.q = self.budget * rng.choice([0.004, 0.01, 0.02])
        self.index = {}
        self.switches = 0
        self.stuck_events = 0
        self.points = 0
        self.hash = hashlib.blake2b(digest_size=8)

    def point(self, code, line):
        i = self.index.get(threading.get_ident())
        if i is None:
            return
        if i in self.stuck:
            # somebody else was let in while this one was blocked
            self.stuck.discard(i)
            self._park(i)
            return
        if self.holder != i:
            return
        self.points += 1
        if self.p is None:
            at = (i, code, line)
            if self.switches >= self.budget or at in self.seen:
                return
            self.seen.add(at)
            self.lines += i == 0
            if self.at is not None:
                p = 1 if i == 0 and self.lines == self.at and not self.switches else 0
            else:
                p = self.q
        else:
            p = self.p if self.switches < 3000 else 0.001
        if self.rng.random() >= p:
            return
        others = [j for j in self.alive if j != i]
        if not others:
            return
        j = self.rng.choice(others)
        self.switches += 1
        self.hash.update(f"{i}>{j}:{code.co_name}:{line};".encode())
        self.holder = j
        self.sems[j].release()
        self._park(i)

    def _park(self, i):
        self.sems[i].acquire()

    def run(self, jobs):
        n = len(jobs)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.stuck = set()
        self.tids = {}
        out = [None] * n
        started = threading.Barrier(n + 1)
        done = threading.Event()

        def body(i):
            self.index[threading.get_ident()] = i
            self.tids[i] = threading.get_native_id()
            started.wait()
            self._park(i)
            try:
                out[i] = ("returned", jobs[i]())
            except BaseException as e:
                out[i] = ("raised", e)
            finally:
                self.index.pop(threading.get_ident(), None)
                self.alive.remove(i)
                self.stuck.discard(i)
                if not self.alive:
                    done.set()
                elif self.holder == i:
                    self.holder = self.rng.choice(self.alive)
                    self.sems[self.holder].release()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        started.wait()
        self.sched.active = self
        self.holder = self.rng.randrange(n) if self.at is None else 0
        self.sems[self.holder].release()
        last, same = None, 0
        try:
            while not done.wait(0.05):
                # is the one that may run blocked by one that may not?
                h = self.holder
                now = (h, self.switches, _state(self.tids[h]))
                same = same + 1 if now == last and now[2][0] == b"S" else 0
                last = now
                if same >= 6 and len(self.alive) > 1 and h in self.alive:
                    self.stuck.add(h)
                    self.stuck_events += 1
                    self.holder = next(j for j in self.rng.sample(self.alive, len(self.alive)) if j != h)
                    self.sems[self.holder].release()
                    same = 0
        finally:
            self.sched.active = None
        for t in threads:
            t.join()
        return out
