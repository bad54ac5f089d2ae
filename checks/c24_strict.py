"""C24: configured credentials."""
from posixpath import normpath
from urllib.parse import quote, unquote
from recap import commands
from recap.server.app import app
from rv import asgi, tour, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C24", "exploration"
TECHNIQUE = "runtime monitoring: access-control monitor on recording drivers: each connection's address and credentials against an independent decision about the requested URL and the configuration"
RULE = ("seeded random sets of configured URLs with distinct credentials (several systems and users on one host, prefixes of each other, ports, paths) and requests derived from them by changing one component (scheme, host, "
        "port, path prefix, user info, dot segments, encoded dot segments, URL-parsing tricks, query parameters named like URL parts) or none, through the library and the gateway in strict mode and through the library "
        "outside strict mode; the monitor requires that nothing is opened for URLs that aren't configured, that configured ones are served, and that every connection goes to the configured address with the credentials "
        "of one matching configured URL; non-trivial = distinct (configuration, request)")
ASSUMPTIONS = ["dot segments may be refused or resolved, but never lead outside of the configured path", "when several configured URLs match, any of them may be used, but as a whole"]
HOSTS = ["h", "h2", "hh", "h.evil.com", "10.0.0.1", "[::1]", "evil.com"]
SEGS = ["db", "db2", "d", "DB", "a", "a.b", "a_b", "adb"]
REDIRECT = {"postgresql": ["hostaddr", "service"], "mysql": ["unix_socket"], "snowflake": ["proxy_host", "authenticator"]}
TOK = 0


class Conf:
    def __init__(self, scheme, host, port, path, user, password):
        self.scheme, self.host, self.port, self.path, self.user, self.password = scheme, host, port, path, user, password

    @property
    def url(self):
        ui = "" if self.user is None else f"{quote(self.user, safe='')}:{quote(self.password, safe='')}@"
        return f"{self.scheme}://{ui}{self.host}{'' if self.port is None else f':{self.port}'}{self.path}"


def configuration(g, w):
    global TOK
    out = []
    for _ in range(g.r.choice([1, 1, 2, 3, 4])):
        TOK += 1
        scheme = g.r.choice(["postgresql", "mysql", "snowflake", "http+csr", "https+csr", "thrift+hms", "sqlite"])
        host, port = g.r.choice(HOSTS), g.r.choice([None, 1111, 2222])
        user, password = f"user{TOK}" + g.r.choice(["", "@x", "é"]), f"pass{TOK}" + g.r.choice(["", ":", "%", "/"])
        path = ""
        if scheme in ("postgresql", "mysql", "snowflake") and g.coin(0.6):
            path = "/" + g.r.choice(SEGS)
        elif "csr" in scheme:
            path = "".join("/" + g.r.choice(SEGS) for _ in range(g.r.choice([0, 1, 2])))
        if scheme == "thrift+hms":
            user = password = None
            port = port or 9083
        if scheme == "sqlite":
            host, port, user, password = "", None, None, None
            path = "/" + w.scratch + "/" + "/".join([*(g.r.choice(SEGS) for _ in range(g.r.randint(0, 1))), g.r.choice(["x.db", "y.db"])])
        if g.coin(0.2) and scheme != "sqlite":
            path += "/"
        out.append(Conf(scheme, host, port, path, user, password))
    return out


def request(g, w, conf):
    """(url, method, oracle's parts): most are near misses of a configured URL."""
    c = g.r.choice(conf)
    scheme, host, port, path = c.scheme, c.host, c.port, c.path.rstrip("/")
    ui = g.r.choice(["", "", "", "x:y@", "root@", ":@"])
    mutate = g.r.choice(["none", "none", "none", "scheme", "host", "port", "path", "path", "path", "dots", "dots", "trick", "case", "userinfo"])
    if mutate == "scheme":
        scheme = g.r.choice(["postgresql", "mysql", "snowflake", "http+csr", "https+csr", "thrift+hms", "sqlite", "bigquery", "http", "https", "file", "postgresqls"])
        if scheme in ("sqlite", "file") or (c.scheme == "sqlite"):
            scheme = c.scheme
            mutate = "none"
    elif mutate == "host" and c.host:
        host = g.r.choice(HOSTS + [c.host + "x", "x" + c.host, c.host + ".evil.com", c.host.strip("[]") + "."])
    elif mutate == "port" and c.host:
        port = g.r.choice([None, 1111, 2222, 1, 5432, 11111])
    elif mutate == "path":
        segs = path.split("/")
        k = g.r.choice(["suffix", "prefix", "shorter", "other", "case", "extra"])
        if k == "suffix":
            path += g.r.choice(["2", "x", ".bak", "_", "-"])
        elif k == "shorter":
            path = "/".join(segs[:-1])
        elif k == "case":
            path = path.swapcase() if c.scheme != "sqlite" else path
        elif k == "extra":
            path = "/" + g.r.choice(SEGS) + path
        else:
            path = "/".join(segs[:-1] + [g.r.choice(SEGS)])
    elif mutate == "dots":
        d = g.r.choice(["..", "..", ".", "%2e%2e", "%2E%2E", ".%2e", "..%2f", "..%2F" + g.r.choice(SEGS), "%2e", "...", "..;"])
        tail = [d] * g.r.choice([1, 1, 2, 3]) + [g.r.choice(SEGS + ["y.db", "x.db"]) for _ in range(g.r.choice([1, 2]))]
        path += "/" + "/".join(tail)
        if g.coin(0.3):
            path = "/" + d + path
    elif mutate == "case":
        host = host.upper()
        scheme = g.r.choice([scheme.upper(), scheme])
    elif mutate == "userinfo":
        o = g.r.choice(conf)
        ui = g.r.choice([f"{quote(o.user or 'u', safe='')}:{quote(o.password or 'p', safe='')}@", f"{o.host.strip('[]')}@", f"{c.host.strip('[]')}:{c.port or 1}@"])
        host = g.r.choice([host, "evil.com"]) if c.host else host
    if scheme.lower() == "thrift+hms":
        path = ""
    if c.scheme == "sqlite":
        ui = ""
    # go below
    below = []
    schema = False
    low = scheme.lower()
    depth = len([x for x in path.split("/") if x])
    if low in ("postgresql", "snowflake"):
        schema = g.coin(0.4)
        n = max(0, 3 - depth) if schema else g.r.randint(0, max(0, 2 - depth))
        below = [g.r.choice(SEGS) for _ in range(n)]
    elif low == "mysql":
        schema = g.coin(0.4)
        n = max(0, 2 - depth) if schema else g.r.randint(0, max(0, 1 - depth))
        below = [g.r.choice(SEGS) for _ in range(n)]
    elif "csr" in low or low == "sqlite":
        schema = g.coin(0.6)
        below = [g.r.choice(SEGS) for _ in range(1 if schema else 0 if low == "sqlite" else g.coin(0.2))]
    elif low == "thrift+hms":
        schema = g.coin(0.4)
        below = [g.r.choice(SEGS) for _ in range(2 if schema else g.r.randint(0, 1))]
    full = path + "".join("/" + b for b in below)
    authority = f"{ui}{host}{'' if port is None or not host else f':{port}'}"
    if mutate == "trick" and c.host:
        h = c.host + ("" if c.port is None else f":{c.port}")
        authority = g.r.choice([f"{h}@evil.com", f"evil.com@{h}", f"{h}%2f@evil.com", f"{h}\\@evil.com", f"evil.com\\@{h}", f"evil.com%23@{h}", f"evil.com#@{h}", f"evil.com?@{h}", f"{h}#@evil.com", f"x@evil.com:1@{h}", f"{h},evil.com", f"{h};evil.com", f"{h}%00.evil.com",
                                f"evil.com/@{h}", f"{h} .evil.com", f"{h}\t.evil.com", f"@{h}", f"{h}:"])
        if authority.endswith(":") and c.port is not None:
            authority = h
    url = f"{scheme}://{authority}{full}"
    q = {}
    if g.coin(0.25):
        for k in g.r.sample(["host", "port", "user", "password", "netloc", "hostname", "scheme", "path", "paths", "url", "dbname", "database", "account", "username", "dialect", "sslmode", "x"], g.r.choice([1, 2, 3])):
            q[k] = "6666" if k == "port" else "evil.com"
        url += ("&" if "?" in url else "?") + "&".join(f"{k}={v}" for k, v in q.items())
    return url, ("schema" if schema else "ls"), q, mutate


def parts(url):
    """An independent reading of the requested URL: (scheme, host, port, raw path segments, user, password) or None."""
    for c in "\t\r\n":
        url = url.replace(c, "")
    scheme, _, rest = url.strip().partition("://")
    end = min([len(rest)] + [i for i in (rest.find(x) for x in "/?#") if i >= 0])
    auth, path = rest[:end], rest[end:]
    path = path.partition("#")[0].partition("?")[0]
    ui, at, hp = auth.rpartition("@")
    if hp.startswith("["):
        host, _, port = hp[1:].partition("]")
        port = port.lstrip(":")
    else:
        host, _, port = hp.partition(":")
    if port and not port.isdigit():
        return None
    user, colon, pw = ui.partition(":")
    return scheme.lower(), host.lower(), int(port) if port else None, path, (unquote(user) if user else None), (unquote(pw) if pw else None)


def connection_path(scheme, path, method):
    """The part of the path that names the system."""
    segs = [x for x in path.split("/") if x]
    if scheme in ("postgresql", "snowflake", "mysql"):
        return segs[:1]
    if "csr" in scheme:
        return segs[:-1] if method == "schema" else segs
    if scheme == "sqlite":
        return segs[:-1] if method == "schema" else segs
    return []


def depth_ok(scheme, path, method):
    n = len([x for x in path.split("/") if x])
    leaf = {"postgresql": 3, "snowflake": 3, "mysql": 2, "thrift+hms": 2}.get(scheme)
    if leaf is None:
        return method == "ls" or n > 0
    return n == leaf if method == "schema" else n < leaf


def resolve(segs):
    return [x for x in normpath("/" + unquote("/".join(segs))).split("/") if x]


def decide(conf, url, method):
    """The configured URLs that cover the request."""
    p = parts(url)
    if p is None:
        return None, []
    scheme, host, port, path, _, _ = p
    segs = resolve(connection_path(scheme, path, method))
    out = []
    for c in conf:
        want = [x for x in c.path.split("/") if x]
        if c.scheme == scheme and c.host.strip("[]").lower() == host and c.port == port and segs[: len(want)] == want:
            out.append(c)
    return p, out


def monitor(ck, w, conf, url, method, ok, what, strict, q, mutate):
    p, cover = decide(conf, url, method)
    con = [e for e in w.events if e[0] in ("connect", "request") and not (e[0] == "connect" and e[1] == "confluent")]
    any_event = bool(w.events)
    tricky = mutate in ("dots", "trick") or p is not None and any(unquote(x) in (".", "..") or "/" in unquote(x) or ";" in x for x in p[3].split("/"))
    w8 = (conf and [c.url for c in conf], url, method)
    if strict and not cover:
        ck.event("not configured")
        ck.expect(not any_event, "connection opened for a URL that isn't configured", f"{what} {method} {url}: {w.events[:4]}; configured {[c.url for c in conf]}", w8)
        return ck.expect(not ok, "URL that isn't configured was served", f"{what} {method} {url}; configured {[c.url for c in conf]}", w8)
    if strict and not tricky and depth_ok(*p[::3][:2], method):
        ck.event("configured")
        ck.expect(bool(con), "configured URL not served", f"{what} {method} {url}: {w.events[:4]}; configured {[c.url for c in conf]}", w8)
    if not strict and mutate in ("dots", "trick"):
        return
    for e in con:
        where = e[3]
        ck.event("connections compared")
        cands = cover if e[1] != "sqlite" or not tricky else [c for c in conf if c.scheme == "sqlite"]
        if not cover and not strict:
            ck.event("used as given")
            got = ((where.get("host") or "").lower(), where.get("port"), where.get("user") or None, where.get("password") or None)
            want = (p[1], p[2], p[4], p[5])
            if e[1] == "hive":
                got, want = got[:2], want[:2]
            if e[1] in ("sqlite", "bigquery"):
                continue
            if "port" in q and want[1] is None:
                got, want = (got[0], None, *got[2:]), want
            for i, k in ((2, ("user", "username")), (3, ("password",))):
                if len(want) > i and want[i] is None and any(x in q for x in k):
                    got = (*got[:i], None, *got[i + 1 :])
            ck.expect(got == want, "URL outside of the configuration not used as given", f"{url}: {got} instead of {want}; configured {[c.url for c in conf]}", w8)
            continue
        good = []
        for c in cands:
            h = c.host.strip("[]").lower()
            if e[1] == "sqlite":
                real = normpath(str(where["database"]))
                good.append(normpath(real).lstrip("/").split("/")[: len([x for x in c.path.split("/") if x])] == [x for x in c.path.split("/") if x])
            elif e[1] == "hive":
                good.append(where["host"].lower() == h and where["port"] == c.port)
            else:
                port = where["port"]
                ok2 = (where["host"] or "").lower() == h and (port == c.port or (c.port is None and "port" in q)) and where["user"] == c.user and where["password"] == c.password
                first = [x for x in c.path.split("/") if x]
                if e[1] == "confluent":
                    segs = resolve(where["path"].split("/"))
                    ok2 = ok2 and segs[: len(first)] == first and where["scheme"] == c.scheme.split("+")[0]
                elif first:
                    ok2 = ok2 and where["database"] == first[0]
                good.append(ok2)
        ck.expect(any(good), "connection isn't the configured one", f"{what} {method} {url}: {where} {e[4] if e[1] != 'snowflake' else ''}; configured {[c.url for c in conf]}", w8)


def redirects(ck, g, w):
    """Known finding: driver options in the requested query that name another address."""
    for scheme, opts in REDIRECT.items():
        for o in opts:
            world.configure([f"{scheme}://u:p@h"])
            w.clear()
            outcome(commands.ls, f"{scheme}://h?{o}=evil")
            for e in w.opened():
                ck.event("redirecting options")
                ck.expect(o not in e[4], f"redirecting-option {scheme} {o}", f"{scheme}://h?{o}=evil opens {e[4]}")


def run(ck):
    g = Gen(ck.rng)
    ck.need("configured", 1500)
    ck.need("not configured", 1500)
    ck.need("connections compared", 1500)
    ck.need("used as given", 200)
    ck.need("empty configurations", 40)
    http = asgi.Http(app)
    with world.World(g.r) as w:
        tour.sql(g, w, "postgresql")
        for f in ("mysql", "snowflake"):
            tour.sql(g, w, f)
        w.hive.update({x: {} for x in SEGS})
        w.subjects.update({x + "-value": [("AVRO", tour.avro_text(g))] for x in SEGS})
        w.sqlite_memory = True  # no file is opened or created
        if ck.first:
            redirects(ck, g, w)
        for i in ck.loop(12000, 100000):
            made = conf = configuration(g, w)
            if g.coin(0.04):
                # nothing, or only something else, is configured
                conf = [] if g.coin() else [c for c in configuration(g, w) if c.scheme == "bigquery"]
                ck.event("empty configurations")
            world.configure([c.url for c in conf])
            for _ in range(4):
                url, method, q, mutate = request(g, w, made)
                strict = g.coin(0.75)
                via = "library" if not strict or g.coin(0.7) else "gateway"
                ck.case(key=(tuple(c.url for c in conf), url, method, strict), sample=([c.url for c in conf], url, method, strict), family=f"{'strict' if strict else 'loose'} {via}")
                ck.event("mutation " + mutate)
                w.clear()
                if via == "library":
                    o = outcome(getattr(commands, method), url, strict=strict)
                    ok = o.ok
                else:
                    o = http("GET", f"/gateway/{method}/" + quote(url, safe="/:@"))
                    ok = o.status == 200
                    if "\t" in url:
                        continue
                monitor(ck, w, conf, url, method, ok, f"{'strict' if strict else 'loose'} {via}", strict, q, mutate)
    world.configure([])
    http.close()
