"""C28: status and content of the registry's HTTP API."""
import copy, json, os, shutil, tempfile
from recap.server.app import app
from rv import asgi, model as M, reg, world
from rv.core import outcome
from rv.gen import Gen
from checks.c02_reader import ambiguous, mutate

PID, LEVEL = "C28", "exploration"
TECHNIQUE = "runtime monitoring: model-based online checker of HTTP request sequences against the ASGI application, with an independent reader deciding which bodies are type definitions"
RULE = ("seeded random sequences of HTTP requests (register, register an explicit version, read latest / a version / versions / names, other methods and paths) over hostile names, versions, content types and bodies (well formed, shorthand, bare names, one "
        "injected defect, truncated, garbage bytes, wrong encodings, numbers that aren't JSON, deep nesting) sent in random chunks; each answer's status and content is compared with a versioned-map model and the final state read back; non-trivial = distinct (request, state)")
ASSUMPTIONS = ["names without a slash, names and versions short enough for a file name", "nesting up to 30 levels", "references to undefined names inside of a type may be accepted or refused with 400", "which of 400, 409 and 415 wins when several apply is left open"]

GARBAGE = [b"{", b"[", b"null", b"1", b"true", b"false", b"1.5", b"{}", b"\xff\xfe", b"\x80", b'{"type": "int"}', b'{"type": "int", "bits": 0}', b'{"type": "int", "bits": "x"}', b'{"type": "list"}', b'{"type": "struct", "fields": [{"name": "a"}]}', b'{"type": "union"}',
           b'{"type": "enum"}', b'{"type": "map", "keys": "string"}', b'["int32", {"type": "list"}]', b'{"type": {"type": "int", "bits": 8}}', b'{"bits": 32}', b'{"type": "string", "bytes": -1}', b"[" * 100000, b'{"a":' * 100000, b"NaN", b"Infinity", b"-1", b"1" * 5000,
           b'{"type": "int32", "x": NaN}', b'{"type": "int32", "x": Infinity}', b'{"type": "int32", "default": -Infinity}', b'{"type": "int32", "default": 1e999}', b'"\\ud800"', b'{"type": "int32", "doc": "\\udfff"}', b'{"type": "int", "bits": 1' + b"0" * 5000 + b"}", b'{"type": "int32", "alias": "x"}',
           b'{"type": "int", "bits": 8, "alias": "x"}', b'{"type": "int", "bits": 8, "alias": "int32"}', b'{"type": "string", "variable": false}', b'{"type": "int", "bits": 2147483648}', b'{"type": null}', b'{"type": 3}', b'[null]', b'[3]', b'{"type": "list", "values": null}']
OTHER = ["application/json", "text/plain", "application/octet-stream", "application/schema+json", "application/avro+json", "*/*", "application/x-recap", "x", "application/x-protobuf", "multipart/form-data", "application/x-recap+jsonx", "text/x-recap+json", "application/x-www-form-urlencoded"]
POOL = [n for n in reg.NAMES if n and "/" not in n and not any(0xD800 <= ord(c) < 0xE000 for c in n)]


def dangling(n):
    try:
        M.expand(n, {a["alias"]: a for a in M.walk(n) if a["k"] != "ref" and a.get("alias")})
        return False
    except (M.Refused, RecursionError):
        return True


def body(g):
    """(bytes, 'good' | 'bad' | 'open', node)"""
    c = g.r.random()
    if c < 0.2:
        return g.r.choice(GARBAGE), "bad", None
    if c < 0.22:
        # a name or a definition, and something around it
        b = g.r.choice([n.encode() for n in sorted(M.BUILTINS)] + [b'"int32"', b'{"type": "int32"}'])
        pad = g.r.choice([b" ", b"\n", b"\r\n", b"\t", b"\x00", b"\xef\xbb\xbf", b"\xc2\xa0", b"'", b'"', b",", b";", b"\x0b", b"0"])
        b = g.r.choice([pad + b, b + pad, pad + b + pad])
        return (b, *classify(b))
    if c < 0.3:
        name = g.r.choice(sorted(M.BUILTINS))
        return (name if g.coin() else json.dumps(name)).encode(), "good", M.ref(name)
    n = reg.typ(g)
    d = M.definition(n, g.r, noise=0.05)
    if g.coin(0.35):
        d = mutate(g, d)
    text = json.dumps(d, ensure_ascii=g.coin(), indent=g.r.choice([None, 1]))
    try:
        b = text.encode()
    except UnicodeEncodeError:
        b = json.dumps(d).encode()
    if g.coin(0.08) and len(b) > 2:
        b = b[: g.r.randrange(1, len(b))]
    if g.coin(0.04):
        b = text.encode(g.r.choice(["utf-16", "utf-32", "latin-1"]), "replace")
    return (b, *classify(b))


def classify(b):
    try:
        s = b.decode()
    except UnicodeDecodeError:
        return "bad", None
    try:
        d = json.loads(s)
    except json.JSONDecodeError:
        d = s
    except (ValueError, RecursionError):
        return "bad", None
    try:
        json.dumps(d, allow_nan=False, ensure_ascii=False).encode()
    except ValueError:
        return "bad", None
    if not isinstance(d, (str, list, dict)):
        return "bad", None
    if ambiguous(d):
        return "open", None
    try:
        n = M.parse_ref(copy.deepcopy(d))
    except M.Refused:
        return "bad", None
    except Exception:
        return "open", None
    if n["k"] == "ref" and n["alias"] not in M.BUILTINS:
        return "bad", None
    return ("open" if dangling(n) else "good"), n


def run(ck):
    g = Gen(ck.rng)
    ck.need("answers 200", 3000)
    ck.need("answers 404", 1000)
    ck.need("answers 400", 1000)
    ck.need("answers 409", 150)
    ck.need("answers 415", 200)
    ck.need("types compared", 800)
    ck.need("storages with arguments", 200)
    scratch = tempfile.mkdtemp(prefix="rv-c28-")
    http = asgi.Http(app)
    try:
        for i in ck.loop(8000, 100000):
            one(ck, g, http, os.path.join(scratch, f"r{i}") if i % 3 else None, i)
            shutil.rmtree(os.path.join(scratch, f"r{i}"), ignore_errors=True)
    finally:
        http.close()
        shutil.rmtree(scratch, ignore_errors=True)


def one(ck, g, http, path, i):
    url = f"file://{path}" if path else f"memory://c28/{i}"
    reg.wipe_memory()
    args = {}
    if path and i % 4 == 1:
        # the filesystem's arguments are settings too
        os.makedirs(path)
        url, args = "dir://r/s", {"path": path, "target_protocol": "file"}
        ck.event("storages with arguments")
    world.configure([], registry=url, args=args)
    model = {}
    trace = []
    names = g.r.sample(POOL, g.r.randint(1, 4))

    def send(method, p, headers=(), b=b""):
        if len(b) > 1 and g.coin(0.3):
            at = g.r.randrange(1, len(b))
            chunks = [b[:at], b[at:]]
        else:
            chunks = [b]
        q = g.r.choice([b"", b"", b"", b"version=1", b"x=%ff&name=y"])
        r = http(method, p, headers=headers, chunks=chunks, query=q)
        trace.append((method, p, headers, b[:2000], r.status, r.body[:300]))
        ck.event(f"answers {r.status}")
        if r.status == 500 or r.exception is not None or not r.complete:
            ck.violate("internal error", f"{method} {p} {headers} {b[:2000]!r} -> {r}; {trace}", trace)
        return r

    def is_(r, want, kind, text=""):
        return ck.expect(r.status in want, kind, f"{r} instead of {want} {text}; {trace}", trace)

    def compare(r, n, v):
        d = outcome(r.json)
        ok = ck.expect(d.ok and isinstance(d.value, list) and len(d.value) == 2 and d.value[1] == v and type(d.value[1]) is int, "wrong version in the answer", f"{r}, not {v}; {trace}", trace)
        if not ok:
            return
        try:
            k = reg.key(M.parse_ref(d.value[0]))
        except M.Refused as e:
            ck.violate("the answer isn't a type definition", f"{e}: {r}; {trace}", trace)
            return
        if model[n][v] is None:
            model[n][v] = k
        ck.event("types compared")
        ck.expect(k == model[n][v], "another type came back", f"{r} instead of {model[n][v]}; {trace}", trace)

    for _ in range(g.r.randint(2, 16)):
        n = g.r.choice(names) if g.coin(0.85) else g.r.choice(POOL)
        q = "/registry/" + asgi.seg(n)
        have = model.get(n, {})
        op = g.r.choice(["post"] * 5 + ["put"] * 4 + ["latest"] * 3 + ["version"] * 2 + ["versions", "ls", "odd"])
        ck.case(key=(op, n, repr(model)), family=op)
        if op in ("post", "put"):
            b, sort, node = body(g)
            v = g.r.choice([1, 2, 3, 4, 10, 0, 99, 10**15]) if op == "put" else max(have, default=0) + 1
            headers = []
            ctype = g.r.choice(["none", "none", "right", "right", "wrong"]) if g.coin(0.6) else "none"
            if ctype == "right":
                headers = [("content-type", "application/x-recap+json")]
            elif ctype == "wrong":
                headers = [("content-type", g.r.choice(OTHER) if g.coin() else asgi.near_type(g, ["application/x-recap+json"]))]
            if g.coin(0.2):
                headers.append(("accept", g.r.choice(OTHER)))
            r = send("POST" if op == "post" else "PUT", q if op == "post" else f"{q}/versions/{g.r.choice(['', '', '', '0'])}{v}", headers, b)
            errors = set()
            if ctype == "wrong":
                errors.add(415)
            if sort == "bad":
                errors.add(400)
            if op == "put" and v in have:
                errors.add(409)
            if sort == "open" and r.status == 400 and 415 not in errors:
                errors.add(400)
            if errors:
                is_(r, errors, f"wrong status for {'/'.join(map(str, sorted(errors)))}", f"(body {sort}, content type {ctype})")
            else:
                is_(r, {200, 201}, "registration refused", f"(body {sort})")
            if r.status in (200, 201):
                d = outcome(r.json)
                ck.expect(d.ok and d.value == v and type(d.value) is int, "wrong version answered", f"{r}, not {v}; {trace}", trace)
                if not errors:
                    model.setdefault(n, {})[v] = reg.key(node) if node is not None else None
        elif op == "latest":
            r = send("GET", q)
            if have:
                if is_(r, {200}, "stored type not found"):
                    compare(r, n, max(have))
            else:
                is_(r, {404}, "absent name")
        elif op == "version":
            v = g.r.choice([1, 2, 3, 4, 5, 10, 0, 77, 10**15, 10**30])
            r = send("GET", f"{q}/versions/{v}")
            if v in have:
                if is_(r, {200}, "stored type not found"):
                    compare(r, n, v)
            else:
                is_(r, {404}, "absent version")
        elif op == "versions":
            r = send("GET", f"{q}/versions")
            if have:
                if is_(r, {200}, "stored versions not found"):
                    d = outcome(r.json)
                    ck.expect(d.ok and d.value == sorted(have), "wrong versions", f"{r} instead of {sorted(have)}; {trace}", trace)
            else:
                is_(r, {404}, "absent name")
        elif op == "ls":
            r = send("GET", "/registry/")
            if is_(r, {200}, "names not listed"):
                d = outcome(r.json)
                ck.expect(d.ok and isinstance(d.value, list) and sorted(d.value) == sorted(model), "wrong names", f"{r} instead of {sorted(model)}; {trace}", trace)
        else:
            m, p = g.r.choice([("DELETE", q), ("PATCH", q), ("PUT", q), ("POST", "/registry/"), ("PUT", "/registry/"), ("POST", q + "/versions"), ("POST", q + "/versions/1"), ("DELETE", q + "/versions/1"), ("GET", q + "/versions/-1"), ("GET", q + "/versions/x"), ("GET", q + "/versions/1.5"),
                               ("PUT", q + "/versions/-1"), ("PUT", q + "/versions/latest"), ("GET", q + "/nope"), ("OPTIONS", q), ("POST", q + "/versions/1/x"), ("GET", "/registryx"), ("POST", f"/registry/a%2F{asgi.seg(n)}"), ("PUT", f"/registry/{asgi.seg(n)}%2Fversions%2Fx"), ("TRACE", q)])
            r = send(m, p, b=b"int32")
            ck.expect(400 <= r.status < 500, "a request that means nothing was answered with success", f"{m} {p} -> {r}; {trace}", trace)
            ck.event("meaningless requests")
    ck.event("sequences")
    if ck.evaluations % 97 == 0 or len(ck.samples) < 3:
        ck.case(key=repr(trace), sample=trace, family="sequence")
    o = outcome(reg.state, f"file://{path}/r/s" if args else url)
    want = {n: {v: k if k is not None else o.value.get(n, {}).get(v) for v, k in vs.items()} for n, vs in model.items()} if o.ok else None
    ck.expect(o.ok and o.value == want, "the registry holds something else", f"{o} instead of {model}; {trace}", trace)
