"""C29: library, CLI and gateway return the same."""
import json, os, socket, subprocess, sys, time, urllib.request, urllib.error
import rich
from typer.testing import CliRunner
from proto_schema_parser.generator import Generator
from recap import cli, commands
from recap.clients import create_client, parse_url
from recap.converters.avro import AvroConverter
from recap.converters.json_schema import JSONSchemaConverter
from recap.converters.protobuf import ProtobufConverter
from recap.server.app import app
from recap.types import to_dict
from rv import asgi, hivefake, tour, world
from rv.core import REPO, outcome
from rv.gen import Gen

PID, LEVEL = "C29", "exploration"
TECHNIQUE = "runtime monitoring: differential monitor over the three front ends (library, CLI with captured output and as a real process, ASGI gateway) with an independent expectation of the schema"
RULE = ("seeded random systems of every kind with every table, file and subject requested in every format through the library, the CLI (random terminal widths, redirected output; also as a separate process) and the gateway (also as `recap serve` serves it); hostile content "
        "(markup, escapes, control characters, unicode, very long names and docs); failures must be failures everywhere; unknown formats and content types refused; every level listed through all three; non-trivial = distinct (source, path, format)")
ASSUMPTIONS = ["the writers called directly are the oracle for the non-Recap formats (C07, C09 and C11 decide what they must write); the Recap form is compared with the expected schema", "Protobuf text is sent as a JSON string by the gateway (pinned by the existing tests)",
               "column statistics of Hive decimals are known not to be serialisable (known finding)"]
FORMATS = {"recap": "application/x-recap+json", "avro": "application/avro+json", "json": "application/schema+json", "protobuf": "application/x-protobuf"}
HOSTILE = ["[bold]x[/bold]", "[/]", "[red]", "[link=http://x]y[/link]", ":smile:", "\x1b[31mred\x1b[0m", "a\nb", "a\r\nb", "\t", '"', "\\", "\\n", "é", "日本語" * 30, "🙂", "\u2028", "\u2029", "\u202e", "\x00", "\x7f", "x" * 79, "x " * 500, "y" * 5000, "<b>", "&amp;", "{}", "{{x}}", "%s", "'", "`", "[", "]", "[[", "\ufeff", " ", "NaN", "null", "$ref", "e\u0301"]
WRONG = ["application/json", "text/plain", "application/avro", "application/schema", "application/x-protobuf+json", "*/*", "x", "avro", "json", "recap", "protobuf", "application/x-recap", "text/html", "application/octet-stream"]


def hostile_file(g, w):
    s = tour.Source("file", "file")
    s.host = None
    d = os.path.join(w.scratch, f"h{g.counter}")
    g.counter += 1
    os.makedirs(d)
    s.root, s.dir = d, d
    h = lambda: g.r.choice(HOSTILE) if g.coin(0.7) else g.r.choice(HOSTILE) + g.r.choice(HOSTILE)
    texts = {
        "a.json": ("JSON", json.dumps({"type": "object", "properties": {h() + str(i): {"type": g.r.choice(["string", "integer", "boolean", "number"]), "description": h(), **({"default": h()} if g.coin(0.3) else {})} for i in range(g.r.randint(0, 4))}, "description": h()})),
        "b.avsc": ("AVRO", json.dumps({"type": "record", "name": g.ident(), "doc": h(), "fields": [{"name": f"f{i}", "type": g.r.choice(["int", "long", "string", ["null", "double"], {"type": "array", "items": "string"}, {"type": "enum", "name": f"E{i}", "symbols": ["A", "B"]}]), "doc": h(), **({"zz": h()} if g.coin(0.3) else {})} for i in range(g.r.randint(0, 4))]})),
        "c.proto": ("PROTOBUF", 'syntax = "proto3";\nmessage M {\n' + "".join(f"  {g.r.choice(['int32', 'string', 'bytes', 'repeated int64', 'double'])} f{i} = {i + 1};\n" for i in range(g.r.randint(0, 5))) + "}\n"),
    }
    s.listing[()] = set(texts)
    for f, (k, t) in texts.items():
        with open(os.path.join(d, f), "w") as fh:
            fh.write(t)
        s.leaves[(f,)] = tour.read_text(k, t)
    if g.coin(0.3):
        os.makedirs(d + "/empty")
        s.listing[()].add("empty")
        s.listing[("empty",)] = set()
    s.where = lambda p: {}
    return s


def expected(url, fmt):
    """Read the source, write it in the format."""
    conn, args = parse_url("schema", url, False)
    with create_client(conn) as c:
        t = c.schema(*args)
        if fmt == "recap":
            return to_dict(t)
        if fmt == "avro":
            return AvroConverter().from_recap(t)
        if fmt == "json":
            return JSONSchemaConverter().from_recap(t)
        return Generator().generate(ProtobufConverter().from_recap(t))


def runner(g):
    rich._console = None
    env = {"COLUMNS": g.r.choice(["20", "40", "80", "200"]), "TERM": g.r.choice(["dumb", "xterm-256color"])}
    try:
        return CliRunner(mix_stderr=False, env=env)
    except TypeError:
        return CliRunner(env=env)


def plain(x):
    return ordered(json.loads(json.dumps(x)))


def ordered(x):
    """Like x, but the order of a JSON Schema's properties counts."""
    if isinstance(x, dict):
        return {k: [[n, ordered(p)] for n, p in v.items()] if k == "properties" and isinstance(v, dict) else ordered(v) for k, v in x.items()}
    return [ordered(v) for v in x] if isinstance(x, list) else x


def one_schema(ck, g, s, path, fmt, http, gateway, query=None, known=None):
    url = s.url(path, query=query)
    bare = s.url(path, creds=False, query=query)
    ck.case(key=(url, fmt, repr(s.leaves[path])), sample=(url, fmt), family=f"{s.system} as {fmt}")
    want = outcome(expected, url, fmt)
    if want.ok:
        try:
            json.dumps(want.value)
        except TypeError:
            ck.violate(known or "schema isn't JSON", f"{url} {fmt}: {want}", url)
            return
    lib = outcome(commands.schema, url, commands.SchemaFormat(fmt), strict=False) if fmt != "recap" or g.coin() else outcome(commands.schema, url, strict=False)
    c = runner(g).invoke(cli.app, ["schema", url] + ([] if fmt == "recap" and g.coin() else [g.r.choice(["-of", "--output-format"]), fmt]))
    h = None
    if gateway:
        headers = [("content-type", FORMATS[fmt])] if fmt != "recap" or g.coin() else g.r.choice([[], [("content-type", "")]])
        if g.coin(0.3):
            headers.append(("accept", g.r.choice(WRONG + list(FORMATS.values()))))
        h = http("GET", "/gateway/schema/" + asgi.tail(bare), headers=headers)
    w = {"url": url, "format": fmt, "want": repr(want)[:3000]}
    if not want.ok:
        ck.event("failures compared")
        ck.expect(not lib.ok, "library returns a schema that can't be written", f"{w}: {lib}", w)
        ck.expect(c.exit_code != 0 and not c.stdout.strip(), "CLI prints a schema that can't be written", f"{w}: {c.exit_code} {c.stdout[:2000]!r}", w)
        ck.expect(h is None or h.status >= 400, "gateway returns a schema that can't be written", f"{w}: {h}", w)
        return
    ck.event("schemas compared")
    ck.event("as " + fmt)
    if fmt == "recap" and s.leaves[path] is not None and query is None:
        ck.expect(tour.compare(s.leaves[path], want.value) is None, "not the schema of the source", f"{w}: {tour.compare(s.leaves[path], want.value)}", w)
    ck.expect(lib.ok and type(lib.value) is type(want.value) and plain(lib.value) == plain(want.value), "library returns something else", f"{w}: {lib}", w)
    if fmt == "protobuf":
        ck.expect(c.exit_code == 0 and c.stdout.rstrip("\n") == want.value.rstrip("\n"), "CLI prints something else", f"{w}: {c.exit_code} {c.stdout[:2000]!r} {c.exception!r}", w)
    else:
        o = outcome(json.loads, c.stdout)
        ck.expect(c.exit_code == 0 and o.ok and ordered(o.value) == plain(want.value), "CLI prints something else" if o.ok else "CLI output can't be parsed", f"{w}: {c.exit_code} {c.stdout[:2000]!r} {c.exception!r}", w)
    if h is not None:
        ck.event("gateway answers compared")
        o = outcome(h.json)
        ck.expect(h.status == 200 and o.ok and ordered(o.value) == plain(want.value), "gateway returns something else", f"{w}: {h}", w)


def listings(ck, g, s, http, gateway):
    for path, want in s.listing.items():
        url, bare = s.url(path), s.url(path, creds=False)
        ck.case(key=("ls", url, tuple(sorted(want))), sample=("ls", url), family=f"{s.system} listing")
        lib = outcome(commands.ls, url, strict=False)
        ck.expect(lib.ok and sorted(lib.value) == sorted(want), "wrong listing", f"{url}: {lib}, not {want}", url)
        if not lib.ok:
            continue
        ck.event("listings compared")
        if not want:
            ck.event("empty listings compared")
        c = runner(g).invoke(cli.app, ["ls", url])
        o = outcome(json.loads, c.stdout)
        ck.expect(c.exit_code == 0 and o.ok and o.value == lib.value, "CLI lists something else", f"{url}: {c.exit_code} {c.stdout[:1000]!r} instead of {lib}", url)
        if gateway:
            h = http("GET", "/gateway/ls/" + asgi.tail(bare))
            o = outcome(h.json)
            ck.expect(h.status == 200 and o.ok and o.value == lib.value, "gateway lists something else", f"{url}: {h} instead of {lib}", url)
    # the configured URLs
    lib = outcome(commands.ls)
    c = runner(g).invoke(cli.app, ["ls"])
    o = outcome(json.loads, c.stdout)
    ck.expect(lib.ok and c.exit_code == 0 and o.ok and o.value == lib.value, "CLI lists other configured URLs", f"{lib}: {c.stdout!r}")
    h = http("GET", "/gateway/ls/")
    o = outcome(h.json)
    ck.expect(lib.ok and h.status == 200 and o.ok and o.value == lib.value, "gateway lists other configured URLs", f"{lib}: {h}")


def unknown(ck, g, s, http, gateway):
    path = g.r.choice(sorted(s.leaves))
    url = s.url(path)
    bad = g.r.choice(WRONG + [asgi.near_type(g, FORMATS.values())])
    ck.event("unknown formats")
    o = outcome(commands.schema, url, g.r.choice(["xml", "avsc", "Recap", "", None, 3, "AVRO"]), strict=False)
    ck.expect(not o.ok, "unknown format accepted by the library", f"{url}: {o}")
    f = g.r.choice(["xml", "avsc", "", "application/json", "proto", "recap2"])
    c = runner(g).invoke(cli.app, ["schema", url, "-of", f])
    ck.expect(c.exit_code != 0 and not c.stdout.strip().startswith("{"), "unknown format accepted by the CLI", f"{f}: {c.exit_code} {c.stdout!r}")
    for bad in [bad] + [asgi.near_type(g, FORMATS.values()) for _ in range(8)] if gateway else []:
        h = http("GET", "/gateway/schema/" + asgi.tail(s.url(path, creds=False)), headers=[("content-type", bad)])
        ck.expect(h.status == 415, "unknown content type not answered with 415", f"{bad}: {h}", bad)
        ck.event("unknown content types")


def process(ck, g, s):
    """The CLI as a process of its own, with its output in a file or pipe."""
    path = g.r.choice(sorted(s.leaves))
    fmt = g.r.choice(list(FORMATS))
    url = s.url(path)
    want = outcome(expected, url, fmt)
    env = {**os.environ, "PYTHONPATH": REPO, "COLUMNS": g.r.choice(["20", "80"]), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}
    env.pop("RECAP_URLS", None)
    p = subprocess.run([sys.executable, "-c", "from recap.cli import app; app()", "schema", url, "-of", fmt], env=env, capture_output=True, timeout=120)
    ck.case(key=("process", url, fmt), sample=(url, fmt), family="CLI process")
    out = p.stdout.decode("utf-8", "replace")
    if not want.ok:
        ck.expect(p.returncode != 0 and not out.strip(), "CLI prints a schema that can't be written", f"{url} {fmt}: {p}")
    elif fmt == "protobuf":
        ck.expect(p.returncode == 0 and out.rstrip("\n") == want.value.rstrip("\n"), "CLI prints something else", f"{url} {fmt}: {p}")
    else:
        o = outcome(json.loads, out)
        ck.expect(p.returncode == 0 and o.ok and ordered(o.value) == plain(want.value), "CLI prints something else", f"{url} {fmt}: {p}, not {want}")


def fetch(url, headers=()):
    try:
        with urllib.request.build_opener(urllib.request.ProxyHandler({})).open(urllib.request.Request(url, headers=dict(headers)), timeout=60) as r:
            return r.status, r.read()
    except urllib.error.HTTPError as e:
        return e.code, e.read()


def served(ck, g, s):
    """The gateway as `recap serve` starts it, over a real connection."""
    env = {**os.environ, "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "RECAP_URLS": json.dumps(["file:///"]), "RECAP_REGISTRY_STORAGE_URL": "memory://served"}
    for attempt in range(4):
        with socket.socket() as k:
            k.bind(("127.0.0.1", 0))
            port = k.getsockname()[1]
        args = ["serve", "--port", str(port)] + g.r.choice([[], ["--host", "127.0.0.1"], ["--log-level", "warning"]])
        with open(os.path.join(s.dir, "..", f"serve{port}.log"), "w+") as log:
            p = subprocess.Popen([sys.executable, "-c", "from recap.cli import app; app()"] + args, env=env, stdout=log, stderr=log)
            try:
                end = time.monotonic() + 150
                up = False
                while not up and p.poll() is None and time.monotonic() < end:
                    try:
                        fetch(f"http://127.0.0.1:{port}/gateway/ls/")
                        up = True
                    except OSError:
                        time.sleep(0.1)
                if not up:
                    log.seek(0)
                    text = log.read()[-2000:]
                    if "address already in use" in text and attempt < 3:
                        continue
                    ck.event("servers that did not come up")
                    ck.violate("recap serve does not serve", f"{args}: exit {p.poll()}: {text}", args)
                    return
                for path, want in s.listing.items():
                    st, b = fetch(f"http://127.0.0.1:{port}/gateway/ls/" + asgi.tail(s.url(path, creds=False)))
                    o = outcome(json.loads, b)
                    ck.event("answers of a real server")
                    ck.expect(st == 200 and o.ok and sorted(o.value) == sorted(want), "gateway lists something else", f"served {path}: {st} {b!r}, not {want}", args)
                for path in s.leaves:
                    for fmt in FORMATS:
                        url = s.url(path)
                        want = outcome(expected, url, fmt)
                        st, b = fetch(f"http://127.0.0.1:{port}/gateway/schema/" + asgi.tail(s.url(path, creds=False)), {"Content-Type": FORMATS[fmt]})
                        o = outcome(json.loads, b)
                        ck.event("answers of a real server")
                        if want.ok:
                            ck.expect(st == 200 and o.ok and ordered(o.value) == plain(want.value), "gateway returns something else", f"served {url} {fmt}: {st} {b!r}, not {want}", args)
                        else:
                            ck.expect(st >= 400, "gateway returns a schema that can't be written", f"served {url} {fmt}: {st} {b!r}", args)
                st, b = fetch(f"http://127.0.0.1:{port}/registry/")
                ck.expect(st == 200 and b == b"[]", "the server has no registry", f"{st} {b!r}", args)
                return
            finally:
                p.kill()
                p.wait()


def run(ck):
    g = Gen(ck.rng)
    ck.need("schemas compared", 1500)
    ck.need("gateway answers compared", 800)
    ck.need("failures compared", 200)
    ck.need("listings compared", 300)
    ck.need("empty listings compared", 20)
    ck.need("unknown content types", 50)
    ck.need("CLI process", 8)
    ck.need("answers of a real server", 5)
    for f in FORMATS:
        ck.need("as " + f, 50)
    http = asgi.Http(app)
    with world.World(g.r) as w:
        if ck.first:
            s = hostile_file(g, w)
            served(ck, g, s)
            tour.cleanup(s)
            w.clear()
        for i in ck.loop(880, 16000):
            k = g.r.choice(list(tour.BUILD) + ["hostile", "hostile", "stats"])
            query = None
            if k == "hostile":
                s = hostile_file(g, w)
            elif k == "stats":
                s = tour.BUILD["hive"](g, w)
                decimals = {}
                w.hive_stats.clear()
                for d, ts in w.hive.items():
                    for t, table in ts.items():
                        w.hive_stats[(d, t)], by = hivefake.stats(g, table)
                        decimals[(d, t)] = any(type(x) is hivefake.Decimal for a in by.values() for x in a.values())
                query = {"include_stats": "true"}
            else:
                s = tour.BUILD[k](g, w)
            conf = s.url() if s.system != "file" else "file:///"
            gateway = s.system != "file" or s.scheme == "file"
            world.configure([conf] + (["postgresql://other:5432/x"] if g.coin(0.3) else []))
            for path in list(s.leaves)[:4]:
                for fmt in FORMATS if g.coin(0.5) else [g.r.choice(list(FORMATS))]:
                    one_schema(ck, g, s, path, fmt, http, gateway, query, known="decimal-statistics" if k == "stats" and decimals[path] else None)
            listings(ck, g, s, http, gateway)
            if s.leaves and k != "stats":
                unknown(ck, g, s, http, gateway)
                if s.system in ("file", "sqlite") and i // 8 % 6 == 0:
                    process(ck, g, s)
            tour.cleanup(s)
            w.hive_stats.clear()
            w.clear()
    http.close()
