"""C05: make_nullable / is_nullable."""
import copy
from recap import types as T
from rv import model as M
from rv.core import outcome
from rv.gen import Gen
from checks.c01_roundtrip import systematic

PID, LEVEL = "C05", "exploration"
RULE = ("every kind x attribute combination plus seeded random types of depth <=3, made nullable once, twice and after an intermediate serialisation; result, "
        "original and nullability report compared with a reference model; non-trivial = distinct type")


def nullable(n):
    n = copy.deepcopy(n)
    x = {"default": n["x"].pop("default", None)}
    if "name" in n["x"]:
        x["name"] = n["x"].pop("name")
    doc, n["doc"] = n["doc"], None
    if n["k"] == "union":
        n["doc"] = doc
        n["x"].update(x)
        if not any(t["k"] == "null" for t in n["types"]):
            n["types"].insert(0, M.null())
        return n
    types = [n] if n["k"] == "null" else [M.null(), n]
    return M.union(types, doc=doc, x=x)


def is_nullable(n):
    return n["k"] == "null" or (n["k"] == "union" and any(t["k"] == "null" for t in n["types"]))


def judge(ck, n, family):
    ck.case(sample=n, family=family)
    reg = T.RecapTypeRegistry()
    t = M.build(copy.deepcopy(n), reg)
    ck.expect(t.is_nullable() is is_nullable(n), "nullability report", f"{t.is_nullable()} for {n}", n)
    o = outcome(t.make_nullable)
    if not ck.expect(o.ok, "make_nullable raised", f"{o}", n):
        return
    want = nullable(n)
    got = M.snap(o.value)
    ck.expect(M.same(want, got), "nullable form", f"{M.diff(want, got)}", n)
    ck.expect(M.same(M.snap(t), n), "original changed", f"{M.diff(n, M.snap(t))}", n)
    ck.expect(o.value.is_nullable() is True, "not nullable afterwards", f"{got}", n)
    again = outcome(o.value.make_nullable)
    if ck.expect(again.ok, "make_nullable raised", f"second time: {again}", n):
        ck.expect(M.same(M.snap(again.value), want), "not idempotent", f"{M.diff(want, M.snap(again.value))}", n)
        ck.expect(M.same(M.snap(o.value), want), "first result changed", f"{M.diff(want, M.snap(o.value))}", n)
        # adding a member to one result must not reach the other, or the original
        again.value.types.append(T.BoolType(name="added"))
        ck.expect(M.same(M.snap(o.value), want), "results share state", f"{M.diff(want, M.snap(o.value))}", n)
        o.value.types.append(T.BoolType(name="added"))
        o.value.extra_attrs["added"] = 1
        ck.expect(M.same(M.snap(t), n), "result shares state with the original", f"{M.diff(n, M.snap(t))}", n)
    third = outcome(t.make_nullable)
    if ck.expect(third.ok, "make_nullable raised", f"third time: {third}", n):
        ck.expect(M.same(M.snap(third.value), want), "history dependent", f"{M.diff(want, M.snap(third.value))}", n)


def run(ck):
    g = Gen(ck.rng)
    ck.need("monitor evaluations", 5000)
    for n in ck.share(systematic()):
        judge(ck, n, "systematic")
        judge(ck, M.union([copy.deepcopy(n), M.null(doc="x")]), "systematic")
        judge(ck, M.union([M.integer(8), copy.deepcopy(n)], alias="a.U", x={"name": "q"}), "systematic")
    for i in ck.loop(40000, 400000):
        n = g.node(depth=ck.rng.choice([0, 1, 2, 3]))
        if g.coin(0.3):
            n["x"]["name"] = g.word()
        judge(ck, n, "random")
