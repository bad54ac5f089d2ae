"""What the registry checks share: hostile names, types, and the model of a versioned map."""
from __future__ import annotations

import copy
import os

import fsspec

from recap.storage.registry import RegistryStorage
from rv import model as M
from rv.core import outcome

NAMES = ["a", "A", "b", "a b", "a+b", "a%20b", "a%2Bb", "a/b", "a%2Fb", "a%252Fb", "a\\b", ".", "..", "...", ".a", "a.", "a.json", "1.json", "1", "0", "../a", "../../x", "/a", "/", "//", "a/", "a/..", "a/1.json", "/etc/passwd", "%2E", "%2E%2E", "%2e%2e", "%", "%%", "%zz",
         "é", "e\u0301", "日本語", "🙂", "a\nb", "a\tb", "\x00", "a\x00b", "\x7f", " ", "  ", " a", "a ", "-", "--help", "~", "~root", "$HOME", "*", "?", "a*", "[a]", "{a}", "#", "a#b", "a?b", "a&b", "a=b", "a;b", "a:b", "C:", "con", '"', "'", "`id`", "|", "<", ">", "versions", "registry",
         "a::b", "file://x", "memory://x", "x" * 60, "é" * 20, "+", "++", "_", "a_b", "axb", "latest", "null", "None", "true", "\u202e", "\ufeff", "\u2028"]


def name(g):
    r = g.r
    c = r.random()
    if c < 0.7:
        return r.choice(NAMES)
    if c < 0.73:
        return long_name(g)
    if c < 0.85:
        return g.word()[:60] or "w"
    return "".join(r.choice("ab./%+ \\2FEe~é") for _ in range(r.randint(1, 8)))


def long_name(g):
    w = g.r.choice(["x", "ab", "é", "a.b", "T_", "n/"])
    n = g.span(20, 230)
    return (w * n)[: n // 3 if w == "n/" else n // 6 if w == "é" else n] + g.r.choice(["", "a", "b", "1"])


def holds(n, memory=False):
    """Can a storage hold the name?"""
    if not n or any(0xD800 <= ord(c) < 0xE000 for c in n):
        return False
    return memory or sum(1 if c.isascii() and (c.isalnum() or c in "_.-~ ") else 3 * len(c.encode()) for c in n) <= 240


def typ(g):
    """A random type: node."""
    c = g.r.random()
    if c < 0.3:
        return g.r.choice([M.integer(32), M.string(10), M.ref("int32"), M.ref("uuid"), M.boolean(), M.union([M.null(), M.integer(64)], x={"default": None}), M.struct([]), M.null(), M.enum(["A", "é"]), M.lst(M.integer(8), x={"k": g.r.randint(0, 10**9)})])
    return g.node(depth=g.r.choice([1, 2, 3]))


def key(n):
    """What has to come back: a comparable value."""
    return repr_sorted(M.normal(copy.deepcopy(n)))


def repr_sorted(x):
    if isinstance(x, dict):
        return "{" + ",".join(f"{k!r}:{repr_sorted(x[k])}" for k in sorted(x)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(repr_sorted, x)) + "]"
    return repr(x)


def key_of(t):
    return repr_sorted(M.normal(M.snap(t)))


def tree(path):
    """Every file below a directory, with contents."""
    out = {}
    for d, ds, fs in os.walk(path):
        for x in ds:
            out[os.path.join(d, x) + "/"] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


def wipe_memory():
    fs = fsspec.filesystem("memory")
    fs.store.clear()
    fs.pseudo_dirs[:] = [""]


def state(url):
    """Everything a registry holds, read through a fresh storage object."""
    s = RegistryStorage(url)
    out = {}
    for n in s.ls():
        vs = outcome(s.versions, n)
        if not vs.ok or not isinstance(vs.value, (list, type(None))):
            out[n] = {0: f"versions unreadable: {vs}"}
            continue
        out[n] = {}
        for v in vs.value or []:
            o = outcome(s.get, n, v)
            try:
                out[n][v] = key_of(o.value[0]) if o.ok and o.value[1] == v else f"unreadable: {o}"
            except Exception as e:
                out[n][v] = f"unreadable: {o} {e!r}"
    return out
