"""C23: credentials in shown URLs."""
import json
from urllib.parse import quote, unquote, urlsplit
from typer.testing import CliRunner
from recap import cli, commands
from recap.server.app import app
from recap.settings import RecapSettings
from rv import asgi, tour, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C23", "exploration"
TECHNIQUE = "runtime monitoring: taint monitor (unique secret tokens in every configured credential) over everything recap shows, and recording drivers for what a shown URL reaches"
RULE = ("seeded random sets of configured URLs (every scheme and foreign ones; user names and passwords with reserved, encoded, non-ASCII, empty or missing parts; IPv6 hosts, ports, paths, queries) given through the "
        "environment, shown through RecapSettings, the library, the CLI and the HTTP gateway; no shown text may contain a secret in any encoding, and each shown URL must otherwise equal the configured one; for populated "
        "systems every shown URL and everything below it is requested in strict mode and the driver's arguments compared with the configured credentials; non-trivial = distinct configuration")
ASSUMPTIONS = ["secrets written into the query string of a configured URL are shown (pinned by the existing tests)", "configured URLs name a system: a database server, a database on it, a registry, a file; not something below that",
               "configured paths use characters a URL doesn't encode"]
PLAIN = ["a", "b", "ab", "a_b", "a-b", "a.b", "A", "db", "public", "x1"]
SPECIAL = ["", "@", ":", "/", "?", "#", "%", "%40", "é", "日", " ", "+", "&", "=", "[", "]", ";", "'", '"', "\\", "!", "$", "~", ",", "*", "(", "|", "^", "`", "{", "<"]


class Secrets:
    def __init__(self, g):
        self.g, self.n, self.tokens = g, 0, []

    def secret(self):
        self.n += 1
        t = f"Zq{self.n}{self.g.r.randrange(10**6):06d}kX"
        self.tokens.append(t)
        a, b = self.g.r.choice(SPECIAL), self.g.r.choice(SPECIAL)
        return self.g.r.choice([t, a + t, t + b, a + t + b])


def write(g, s):
    """The secret as it may be written in a URL."""
    k = g.r.random()
    if k < 0.5:
        return quote(s, safe="")
    if k < 0.7:
        return quote(s, safe="!$&'()*+,;=")
    return "".join(c if c.isascii() and c.isalnum() else "".join("%%%02x" % b for b in c.encode()) for c in s)


def foreign(g, sec):
    """A configured URL of any scheme."""
    scheme = g.r.choice(["http", "https", "s3", "ftp", "postgresql", "mysql", "snowflake", "http+csr", "https+csr", "thrift+hms", "oracle", "mongodb", "kafka", "bigquery", "sqlite", "file"])
    host = g.r.choice(["h", "example.com", "10.0.0.1", "[::1]", "[2001:db8::ff]", "H.Example.COM", "a-b.c", "localhost"])
    port = g.r.choice([None, 1, 8080, 65535, 5432])
    style = g.r.choice(["both", "both", "both", "user", "password", "nopassword", "none", "raw@", "twocolons"])
    u = {"both": lambda: write(g, sec.secret()) + ":" + write(g, sec.secret()) + "@", "user": lambda: write(g, sec.secret()) + "@", "password": lambda: ":" + write(g, sec.secret()) + "@",
         "nopassword": lambda: write(g, sec.secret()) + ":@", "none": lambda: "", "raw@": lambda: sec.secret().strip("/?#\\ ").replace("/", "").replace("?", "").replace("#", "").replace("\\", "") + "@" + write(g, sec.secret()) + "@",
         "twocolons": lambda: write(g, sec.secret()) + ":" + write(g, sec.secret()) + ":" + write(g, sec.secret()) + "@"}[style]()
    path = "".join("/" + g.r.choice(PLAIN) for _ in range(g.r.randint(0, 3))) + g.r.choice(["", "/"])
    query = g.r.choice(["", "", "?x=1", "?sslmode=require&a=b", "?a=%20b"])
    return f"{scheme}://{u}{host}{f':{port}' if port else ''}{path}{query}", (scheme, "" if scheme == "file" and host == "localhost" else host.lower(), port, path.rstrip("/"), query.lstrip("?"))


def parts(u):
    s = urlsplit(u)
    host = s.netloc
    port = None
    if not host.endswith("]") and ":" in host:
        host, _, p = host.rpartition(":")
        port = int(p)
    if s.scheme == "file" and host.lower() == "localhost":
        host = ""  # the same place (RFC 8089)
    return s.scheme, host.lower(), port, s.path.rstrip("/"), s.query


def leak(texts, tokens):
    for t in texts:
        for x in (t, unquote(t), unquote(unquote(t))):
            for tok in tokens:
                if tok.lower() in x.lower():
                    return tok, t
    return None


def plain(g, w, k):
    """A system whose names need no encoding."""
    a, b = list(tour.URL_NAMES), list(tour.SQLITE_FILES)
    tour.URL_NAMES[:], tour.SQLITE_FILES[:] = PLAIN, ["db.sqlite", "DB", "a@b.db", "a+b"]
    try:
        return tour.BUILD[k](g, w)
    finally:
        tour.URL_NAMES[:], tour.SQLITE_FILES[:] = a, b


def encoded_paths(ck, g, w):
    """Known finding: pydantic encodes a configured path, and nothing decodes it."""
    for k in ("sqlite", "postgresql"):
        s = tour.BUILD[k](g, w)
        u = s.url() if k == "sqlite" else f"postgresql://u:p@h/a b"
        if k == "sqlite" and not any(x in s.path for x in " é"):
            tour.cleanup(s)
            continue
        world.configure([u])
        w.clear()
        outcome(commands.ls, commands.ls()[0])
        got = [e[3]["database"] for e in w.opened()]
        ck.event("configured paths that need encoding")
        ck.expect(got == [s.path if k == "sqlite" else "a b"], "encoded-configured-path", f"{u} opens {got}", u)
        tour.cleanup(s)


def populated(g, w, sec, used):
    k = g.r.choice([k for k in ("postgresql", "mysql", "snowflake", "confluent", "hive", "sqlite", "bigquery") if k not in used])
    used.add(k)
    s = plain(g, w, k)
    if k in ("postgresql", "mysql", "snowflake", "confluent"):
        s.user = sec.secret()
        s.password = sec.secret()
        if k == "confluent":
            s.user = s.user.replace(":", "")
            s.host = s.host or "h"
        s.enc = lambda x: write(g, x) if k not in ("confluent",) else quote(x, safe="")
        s.port = s.port if k == "snowflake" else s.port or 4242
        if k in ("postgresql", "snowflake") and len(s.listing) > 1 and g.coin(0.5):
            top = g.r.choice([p for p in s.listing if len(p) == 1])
            s.base = top
    return s


def run(ck):
    g = Gen(ck.rng)
    ck.need("secrets planted", 3000)
    ck.need("shown URLs compared", 2000)
    ck.need("shown URLs requested", 800)
    ck.need("connections compared", 800)
    http = asgi.Http(app)
    runner = CliRunner()
    with world.World(g.r) as w:
        for i in ck.loop(4000, 30000):
            if i % 100 == 0:
                encoded_paths(ck, g, w)
            sec = Secrets(g)
            conf, want, sources, used = [], [], [], set()
            for _ in range(g.r.choice([1, 1, 2, 3, 5])):
                if g.coin(0.6) and len(used) < 6:
                    s = populated(g, w, sec, used)
                    base = getattr(s, "base", ())
                    u = s.url(base)
                    conf.append(u)
                    want.append((s.scheme, (s.host or "").lower(), s.port, s.root.rstrip("/") + "".join("/" + x for x in base), ""))
                    sources.append((len(conf) - 1, s, base))
                else:
                    u, p = foreign(g, sec)
                    conf.append(u)
                    want.append(p)
            settings = outcome(world.configure, conf)
            ck.case(key=tuple(conf), sample=conf, family="configurations")
            if not settings.ok:  # not a URL for pydantic
                ck.event("configurations pydantic refuses")
                for _, s, _ in sources:
                    tour.cleanup(s)
                continue
            settings = settings.value
            ck.event("secrets planted", len(sec.tokens))
            direct = outcome(lambda: RecapSettings(urls=conf).safe_urls)
            lib = outcome(commands.ls)
            shown = {"settings": settings.safe_urls, "constructed settings": direct.value, "library": lib.value}
            r = http("GET", "/gateway/ls/")
            shown["gateway"] = r.json() if r.status == 200 else r
            c = runner.invoke(cli.app, ["ls"])
            shown["CLI"] = json.loads(c.stdout) if c.exit_code == 0 and c.stdout else c.stdout
            for who, urls in shown.items():
                bad = leak([str(u) for u in urls] if isinstance(urls, list) else [str(urls)], sec.tokens)
                ck.expect(bad is None, "secret shown", f"{who} shows {bad}: {conf}", conf)
                if not ck.expect(isinstance(urls, list) and len(urls) == len(conf), "shown URLs missing", f"{who} shows {urls} for {conf}", conf):
                    continue
                for u, p, cu in zip(urls, want, conf):
                    ck.event("shown URLs compared")
                    got = parts(u)
                    p = (p[0], p[1], p[2], unquote(p[3]), p[4])
                    got = (got[0], got[1], got[2], unquote(got[3]), got[4])
                    ck.expect(got == p, "shown URL differs beyond its credentials", f"{who}: {cu} shown as {u}: {got} instead of {p}", conf)
            bad = leak([r.body.decode("utf-8", "replace"), c.output, repr(r.headers)], sec.tokens)
            ck.expect(bad is None, "secret shown", f"{bad}: {conf}", conf)
            # an earlier configured URL may cover the same system
            for at, s, base in sources:
                if not isinstance(lib.value, list) or len(lib.value) <= at:
                    continue
                me = want[at]
                if any(p[:3] == me[:3] and j != at for j, p in enumerate(want)):
                    continue
                safe = lib.value[at]
                todo = [(p, p in s.leaves) for p in s.all_paths() if p[: len(base)] == base]
                for p, leaf in g.r.sample(todo, min(4, len(todo))):
                    u = safe + "".join("/" + x for x in p[len(base):])
                    w.clear()
                    ck.event("shown URLs requested")
                    via = g.r.choice(["library", "gateway"])
                    if via == "library":
                        o = outcome(commands.schema if leaf else commands.ls, u)
                        ok, val = o.ok, o.value
                    else:
                        o = http("GET", f"/gateway/{'schema' if leaf else 'ls'}/" + asgi.tail(u))
                        ok, val = o.status == 200, o.status == 200 and o.json()
                        bad = leak([o.body.decode("utf-8", "replace")], sec.tokens)
                        ck.expect(bad is None, "secret shown", f"{bad}: {o}", conf)
                    if leaf and s.leaves[p] is None:
                        ck.expect(not ok, "unsupported type accepted", f"{u}: {o}", conf)
                    elif ck.expect(ok, "shown URL refused", f"{via} {u} of {conf}: {o}", conf):
                        d = tour.compare(s.leaves[p], val) if leaf else None if sorted(val) == sorted(s.listing[p]) else f"{val} instead of {s.listing[p]}"
                        ck.expect(d is None, "shown URL shows something else", f"{u}: {d}", conf)
                    for e in w.events:
                        if e[0] == ("request" if s.system == "confluent" else "connect"):
                            ck.event("connections compared")
                            exp = s.where(p)
                            exp.pop("database", None) if s.system != "sqlite" else None
                            got = {k: e[3].get(k) for k in exp}
                            if "host" in exp:
                                exp["host"], got["host"] = (exp["host"] or "").lower(), (got["host"] or "").lower()
                            ck.expect(e[1] == s.system and got == exp, "shown URL doesn't reach the configured system with its credentials", f"{u}: {got} instead of {exp}", conf)
            for _, s, _ in sources:
                tour.cleanup(s)
    world.configure([])
    http.close()
