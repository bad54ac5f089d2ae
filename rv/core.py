"""Common machinery of all checks: seeds, counters, verdicts, evidence, replay files."""
from __future__ import annotations

import ast
import hashlib
import json
import os
import pickle
import random
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")


def setup_environment() -> str:
    """Import recap from /repo's working tree, with a private home directory."""
    home = tempfile.mkdtemp(prefix="rv-home-")
    for k in list(os.environ):
        if k.upper().startswith("RECAP_"):
            del os.environ[k]
    os.environ["RECAP_HOME"] = home
    os.environ["HOME"] = home
    os.chdir(home)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import recap

    path = os.path.realpath(list(recap.__path__)[0])
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"recap comes from {path}, not from {REPO}")
    return home


# --------------------------------------------------------------------------
# Literals of the code under test, used as a dictionary by the generators. A
# changed threshold or special case in the source shows up here and so gets
# driven, together with its neighbours.
_DICT = None


def source_dictionary():
    global _DICT
    if _DICT is None:
        ints, strs = set(), set()
        root = os.path.join(REPO, "recap")
        for d, _, files in os.walk(root):
            for f in files:
                if not f.endswith(".py"):
                    continue
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                docs = set()
                for n in ast.walk(tree):
                    if isinstance(
                        n, (ast.Module, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)
                    ):
                        if n.body and isinstance(n.body[0], ast.Expr):
                            docs.add(id(n.body[0].value))
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        v = n.value
                        if type(v) is int:
                            ints.update((v - 1, v, v + 1))
                        elif type(v) is str and 0 < len(v) <= 24 and "\n" not in v:
                            strs.add(v)
                        elif type(v) is str:
                            # words of longer texts, such as SQL
                            strs.update(w for w in (x.strip("'\"(),;:") for x in v.split()) if 2 < len(w) <= 24)
                    elif isinstance(n, ast.BinOp):
                        try:
                            v = eval(compile(ast.Expression(n), "<lit>", "eval"), {"__builtins__": {}})
                        except Exception:
                            continue
                        if type(v) is int and abs(v) < 2**80:
                            ints.update((v - 1, v, v + 1))
        _DICT = (sorted(ints), sorted(strs))
    return _DICT


class Stop(Exception):
    """Enough violations were found."""


class Inconclusive(Exception):
    pass


def short(x, n=2000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


class Check:
    MAX_VIOLATIONS = 8

    def __init__(self, pid, level, rule, tier, seed, assumptions=(), shard=(0, 1)):
        self.shard = shard
        self.pid, self.level, self.rule = pid, level, rule
        self.tier, self.seed = tier, seed
        self.assumptions = list(assumptions)
        self.rng = random.Random(f"{pid}:{seed}:{shard[0]}")
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.distinct = set()
        self.events: dict[str, int] = {}
        self.samples: list = []
        self.sample_keys: set = set()
        self.violations: list[dict] = []
        self.vkinds: dict[str, int] = {}
        self.known_seen: dict[str, str] = {}
        self.needs: list[tuple[str, int]] = []
        self.notes: dict = {}
        self.data: dict[str, list] = {}  # collected over all workers for final()
        self.known = load_known(pid)
        # the wall-clock watchdog only ends generation early; it decides nothing
        self.deadline = self.t0 + (float(os.environ.get("RV_DEADLINE", 0)) or (300 if tier == "quick" else 780))

    # ---- workload size ------------------------------------------------
    def n(self, quick, thorough=None):
        v = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 12)
        return max(1, int(v * float(os.environ.get("RV_SCALE", "1"))))

    def loop(self, quick, thorough=None):
        """Case numbers, until the workload is done or the watchdog fires."""
        total = self.n(quick, thorough)
        for i in range(self.shard[0], total, self.shard[1]):
            if time.monotonic() > self.deadline:
                self.notes["watchdog"] = f"stopped at case {i} of {total}"
                return
            yield i

    def share(self, iterable):
        """This worker's share of an enumeration."""
        for i, x in enumerate(iterable):
            if i % self.shard[1] == self.shard[0]:
                yield x

    @property
    def first(self):
        return self.shard[0] == 0

    def state(self):
        return {k: getattr(self, k) for k in ("evaluations", "distinct", "events", "samples", "violations", "vkinds", "known_seen", "needs", "notes", "data")}

    def absorb(self, st):
        self.evaluations += st["evaluations"]
        self.distinct |= st["distinct"]
        for k, v in st["events"].items():
            self.event(k, v)
        seen = {s["family"] for s in self.samples}
        for s in st["samples"]:
            if len(self.samples) < 12 or (s["family"] not in seen and len(self.samples) < 24):
                self.samples.append(s)
                seen.add(s["family"])
        self.violations += st["violations"]
        for k, v in st["vkinds"].items():
            self.vkinds[k] = self.vkinds.get(k, 0) + v
        self.known_seen.update(st["known_seen"])
        for n in st["needs"]:
            if n not in self.needs:
                self.needs.append(n)
        for k, v in st["data"].items():
            self.data.setdefault(k, []).extend(v)
        for k, v in st["notes"].items():
            if isinstance(v, list) and isinstance(self.notes.get(k), list):
                self.notes[k] = sorted(set(map(str, self.notes[k])) | set(map(str, v)))
            elif isinstance(v, int) and isinstance(self.notes.get(k), int):
                self.notes[k] += v
            else:
                self.notes[k] = v

    # ---- observation ----------------------------------------------------
    def case(self, key=None, nontrivial=True, sample=None, family="case"):
        self.evaluations += 1
        self.event(family)
        if nontrivial:
            k = key if key is not None else sample
            h = hashlib.blake2b(repr(k).encode("utf-8", "surrogatepass"), digest_size=8).digest()
            self.distinct.add(h)
        if sample is not None and len(self.samples) < 12:
            c = self.sample_keys
            if family not in c or (len(self.samples) < 6 and self.evaluations % 7 == 0):
                c.add(family)
                self.samples.append({"family": family, "case": short(sample, 900)})

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def need(self, name, minimum):
        """The verdict is inconclusive unless the monitor saw `minimum` events."""
        self.needs.append((name, minimum))

    # ---- verdict --------------------------------------------------------
    def expect(self, ok, kind, message, witness=None):
        self.event("monitor evaluations")
        if ok:
            return True
        self.violate(kind, message, witness)
        return False

    def violate(self, kind, message, witness=None):
        for k in self.known:
            if k["kind"] == kind:
                self.known_seen[kind] = k["what"]
                self.event("known finding " + kind)
                return
        self.vkinds[kind] = self.vkinds.get(kind, 0) + 1
        if self.vkinds[kind] == 1 or (self.vkinds[kind] <= 3):
            self.violations.append(
                {"kind": kind, "message": short(message, 6000), "witness": short(witness, 20000) if witness is not None else None}
            )
        if len(self.vkinds) >= self.MAX_VIOLATIONS or sum(self.vkinds.values()) >= 40:
            raise Stop

    def finish(self) -> int:
        wall = time.monotonic() - self.t0
        missing = [
            (n, m, self.events.get(n, 0)) for n, m in self.needs if self.events.get(n, 0) < m
        ]
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples or ["none"],
                "events": dict(sorted(self.events.items())),
                "known_findings_observed": sorted(self.known_seen),
                "inconclusive": [f"{n}: saw {g}, need {m}" for n, m, g in missing],
                **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": sum(self.vkinds.values()),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)
        for kind, what in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{self.pid}-{self.tier}-{self.seed}.json")
            with open(rp, "w") as f:
                json.dump(
                    {
                        "property": self.pid,
                        "replay_cmd": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check.sh {self.pid} {self.tier}",
                        "counts": self.vkinds,
                        "violations": self.violations,
                    },
                    f,
                    indent=1,
                    default=repr,
                )
            for v in self.violations[:6]:
                print(f"# {self.pid} {v['kind']}: {short(v['message'], 1500)}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(
            f"{self.pid} {self.tier} seed={self.seed}: {self.evaluations} cases, "
            f"{len(self.distinct)} distinct, {self.events.get('monitor evaluations', 0)} monitor evaluations, {wall:.1f}s"
        )
        if missing:
            for n, m, g in missing:
                print(f"INCONCLUSIVE: '{n}' observed {g} times, need {m}")
            return 2
        return 0


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


def from_repo(exc) -> bool:
    """Did this exception come out of the code under test?"""
    root = os.path.realpath(REPO) + os.sep + "recap"
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


WORKERS = 8


def run_check(module, tier, seed) -> int:
    args = (module.PID, module.LEVEL, module.RULE, tier, seed, getattr(module, "ASSUMPTIONS", ()))
    workers = getattr(module, "WORKERS", WORKERS)
    total = Check(*args)
    if workers == 1:
        error = run_shard(module, total)
        errors = [error] if error else []
    else:
        errors = []
        pipes = []
        for w in range(workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    ck = Check(*args, shard=(w, workers))
                    error = run_shard(module, ck)
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump((error, ck.state()), f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wr)
            pipes.append((pid, r))
        for pid, r in pipes:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                errors.append("a worker died")
                continue
            error, st = pickle.loads(data)
            if error:
                errors.append(error)
            total.absorb(st)
    if hasattr(module, "final"):
        module.final(total)
    if errors:
        total.notes["errors"] = errors[:3]
        if not total.violations:
            print(errors[0])
            total.finish()
            return 3
    return total.finish()


def run_shard(module, ck):
    """Returns the traceback if the harness itself failed."""
    try:
        module.run(ck)
    except Stop:
        pass
    except Exception as e:
        tb = traceback.format_exc()
        if from_repo(e) or (e.__cause__ is not None and from_repo(e.__cause__)):
            # Outside of guarded blocks the workload only makes calls that must succeed.
            ck.violations.append({"kind": "unexpected exception", "message": tb, "witness": None})
            ck.vkinds["unexpected exception"] = 1
        else:
            return tb
    return None


class outcome:
    """Result of a call: .ok, .value or .error. RecursionError counts as refusal."""

    __slots__ = ("ok", "value", "error")

    def __init__(self, f, *a, **k):
        try:
            self.value = f(*a, **k)
            self.ok = True
            self.error = None
        except Exception as e:
            self.ok = False
            self.value = None
            self.error = e

    def __repr__(self):
        return f"ok {short(self.value, 600)}" if self.ok else f"raised {type(self.error).__name__}: {short(str(self.error), 300)}"
