"""C20: URL addressing."""
import os
from urllib.parse import quote
from recap import commands
from recap.clients import create_client
from rv import tour, world
from rv.core import outcome
from rv.gen import Gen

PID, LEVEL = "C20", "exploration"
TECHNIQUE = "runtime monitoring: recording database drivers under generated URLs; trace of connection arguments compared with the URL's parts"
RULE = ("seeded random URLs of every scheme over populated systems: credentials with reserved, encoded and non-ASCII characters in several encodings, IPv6 and mixed-case hosts, ports, every path depth, driver options, "
        "query parameters named like every part of a URL or driver argument, fragments, trailing slashes; listings, reads and plain clients; every connection the drivers see compared with the URL, "
        "wrong depths and unsupported schemes must be refused; non-trivial = distinct URL")
ASSUMPTIONS = ["host names compare without case", "an empty password is no password", "options that aren't one of host, port, user, password, database reach the driver as given"]
NEAR = ["host", "hostname", "port", "user", "username", "password", "netloc", "scheme", "path", "paths", "dbname", "database", "url", "params", "fragment", "dialect", "driver", "account", "schema", "name", "Host", "HOST", "user_",
        "catalog", "table", "include_statsx"]
OPTIONS = {
    "postgresql": {"sslmode": ["require", "disable"], "application_name": ["app x", "é"], "connect_timeout": ["5"], "options": ["-c a=b"], "target_session_attrs": ["any"], "client_encoding": ["utf8"],
                   **{k: ["1", "x y"] for k in ("channel_binding", "fallback_application_name", "keepalives", "keepalives_idle", "keepalives_interval", "keepalives_count", "tcp_user_timeout", "replication", "gssencmode", "requiressl",
                                                "sslcompression", "sslcert", "sslkey", "sslpassword", "sslrootcert", "sslcrl", "sslcrldir", "sslsni", "requirepeer", "ssl_min_protocol_version", "ssl_max_protocol_version", "krbsrvname", "gsslib")}},
    "mysql": {"charset": ["utf8mb4"], "ssl_ca": ["/x y"], "collation": ["c"], "time_zone": ["+01:00"],
              **{k: ["1", "x y"] for k in ("ssl_cert", "ssl_key", "ssl_cipher", "sql_mode", "connection_timeout", "auth_plugin", "use_pure", "autocommit", "raise_on_warnings", "init_command", "compress", "client_flags", "use_unicode", "buffered")}},
    "snowflake": {"warehouse": ["W H"], "role": ["R"], "login_timeout": ["5"], "authenticator": ["oauth"], "client_session_keep_alive": ["true"], "network_timeout": ["7"], "application": ["a b"], "token": ["t"], "passcode": ["1"]},
    "sqlite": {"timeout": ["5", "0.5", "0"], "isolation_level": ["IMMEDIATE", "EXCLUSIVE", "DEFERRED"], "cached_statements": ["5", "0"], "detect_types": ["0", "1", "3"]},
    "confluent": {"ssl.ca.location": ["/ca x.pem", "ca"], "ssl.certificate.location": ["/c.pem"], "ssl.key.location": ["/k.pem"], "basic.auth.user.info": ["u2:p2", "é:a:b", ":x"]},
}
SCHEMES = ["oracle", "postgres", "postgresq", "postgresqls", "mysql2", "mysqlx", "mysql+pymysql", "mysql+hms", "snow", "sqlite3", "sqlite+csr", "bigquery2", "http", "https", "thrift", "hms", "csr", "http+hms", "thrift+csr", "ftp", "s3", "gs", "memory", "csr+http",
           "postgresql+psycopg2", "bigquery+csr", "file+csr", "https+csrx", "xhttp+csr", "data"]


def encode(g, s):
    style = g.r.choice(["std", "all", "lower", "mixed"])
    if style == "std":
        return quote(s, safe="")
    if style == "lower":
        return "".join(c if c.isascii() and c.isalnum() else quote(c, safe="").lower() for c in s)
    if style == "all":
        return "".join("%%%02X" % b for b in s.encode())
    return "".join(c if c.isascii() and (c.isalnum() or c in "!$&'()*+,;=-._~") else quote(c, safe="") for c in s)


def same_place(got, want):
    for k, v in want.items():
        x = got.get(k)
        if k == "host":
            x, v = (x or "").casefold() or None, (v or "").casefold() or None
        if k in ("user", "password", "database") and not x and not v:
            continue
        if x != v:
            return f"{k}: {x!r} instead of {v!r}"
    return None


def monitor(ck, w, s, path, u, opts, near):
    """The connections of the trace against the URL."""
    con = [e for e in w.events if e[0] == ("request" if s.system == "confluent" else "connect")]
    if s.system == "file":
        return ck.expect(not [e for e in w.events if e[0] == "connect"], "file URL opened a connection", f"{u}: {con}", u)
    ck.expect(bool(con), "no connection", f"{u}: {w.events}", u)
    for e in con:
        ck.event("connections compared")
        if e[1] != s.system:
            ck.violate("connection to another kind of system", f"{u}: {e}", u)
            continue
        want = s.where(path)
        if s.system == "confluent":
            want = dict(want, scheme=s.scheme.split("+")[0])
            if want["port"] == {"http": 80, "https": 443}[want["scheme"]]:
                want["port"] = None
            if "basic.auth.user.info" in opts:
                want["user"], want["password"] = opts["basic.auth.user.info"].split(":", 1)
        for k in ("port", "user", "password", "database"):
            # a part the URL doesn't give may come from the query
            if want.get(k) is None and k in want and {"port": {"port"}, "user": {"user", "username"}, "password": {"password"}, "database": {"dbname", "database"}}[k] & set(near):
                want.pop(k)
        d = same_place(e[3], want)
        ck.expect(d is None, "connection doesn't match the URL", f"{d}: {u} -> {e[3]}", u)
        raw = e[4]
        if s.system == "confluent":
            for c in [c for c in w.events if c[0] == "connect"]:
                ck.event("options compared", len(opts))
                cert = opts.get("ssl.certificate.location")
                want_tls = {"verify": opts.get("ssl.ca.location", True), "cert": (cert, opts["ssl.key.location"]) if "ssl.key.location" in opts else cert}
                got_tls = {k: c[4].get(k) for k in want_tls}
                ck.expect(got_tls == want_tls, "driver option lost", f"{got_tls} instead of {want_tls}: {u}", u)
        elif s.system in OPTIONS:
            for k, v in opts.items():
                ck.event("options compared")
                if isinstance(v, list):
                    ck.event("repeated options compared")
                if s.system == "sqlite" and k != "isolation_level":
                    ck.expect(k in raw and float(raw[k]) == float(v), "driver option lost", f"{k}={v}: {u} -> {raw}", u)
                    ck.event("numeric options compared")
                    continue
                ck.expect((raw.get(k) if isinstance(v, list) else str(raw.get(k))) == v, "driver option lost", f"{k}={v}: {u} -> {raw}", u)
        if s.system == "snowflake":
            ck.expect(not e[3].get("real_host"), "snowflake host replaced", f"{u} -> {raw}", u)
            if "schema" not in near and len(path) < 2:
                ck.expect(not raw.get("schema"), "schema out of nowhere", f"{u} -> {raw}", u)


def run(ck):
    g = Gen(ck.rng)
    for k in tour.BUILD:
        ck.need(f"{k} URLs", 100)
    ck.need("connections compared", 2000)
    ck.need("options compared", 200)
    ck.need("repeated options compared", 50)
    ck.need("numeric options compared", 50)
    ck.need("odd names", 200)
    ck.need("wrong depths", 200)
    ck.need("unsupported schemes", 200)
    with world.World(g.r) as w:
        world.configure([])
        for i in ck.loop(4000, 40000):
            kind = g.r.choice(list(tour.BUILD))
            s = tour.BUILD[kind](g, w)
            s.enc = lambda x: encode(g, x)
            if s.host and g.coin(0.2):
                s.host = s.host.upper() if g.coin() else s.host.title()
            if s.system in ("postgresql", "mysql", "confluent") and g.coin(0.1):
                s.port = g.intval(1, 65535, [80, 443, 8080])
            paths = s.all_paths()
            for _ in range(6):
                path = g.r.choice(paths)
                leaf = path in s.leaves
                opts, near = {}, {}
                if g.coin(0.5):
                    for k in g.r.sample(list(OPTIONS.get(kind, {"sslmode": 1, "ssl.ca.location": 1})), g.r.choice([1, 1, 1, 2])):
                        opts[k] = g.r.choice(OPTIONS[kind][k]) if kind in OPTIONS else "require"
                        if kind in OPTIONS and kind not in ("confluent", "sqlite") and g.coin(0.15):
                            # given more than once
                            opts[k] = [f"v{g.r.randint(0, 3)}" for _ in range(g.r.choice([2, 2, 3, 4]))]
                if kind == "confluent":
                    if s.user is not None:
                        opts.pop("basic.auth.user.info", None)
                    if "ssl.key.location" in opts:
                        opts["ssl.certificate.location"] = "/c.pem"
                if g.coin(0.6) and kind != "file":
                    for k in g.r.sample(NEAR, g.r.choice([1, 1, 2, 4])):
                        near[k] = g.r.choice(["evil", "6666" if k == "port" else "evil.example.com", "66"] if k != "port" else ["6666"])
                if kind == "sqlite":
                    near.pop("database", None)
                q = dict(g.r.sample(list({**opts, **near}.items()), len({**opts, **near})))
                u = s.url(path, query=q, slash=g.coin(0.15) and kind != "sqlite")
                if g.coin(0.1) and kind not in ("file", "confluent", "sqlite"):
                    u += "#frag"
                if g.coin(0.05) and kind not in ("file",):
                    u = s.scheme.upper() + u[len(s.scheme):]
                w.clear()
                ck.case(key=u, sample=u, family=f"{kind} URLs")
                if leaf:
                    o = outcome(commands.schema, u, strict=False)
                    if s.leaves[path] is None:
                        ck.expect(not o.ok, "unsupported type accepted", f"{u}: {o}", u)
                    elif ck.expect(o.ok, "URL can't be read", f"{u}: {o}", u):
                        d = tour.compare(s.leaves[path], o.value)
                        ck.expect(d is None, "URL reads something else", f"{u}: {d}", u)
                else:
                    o = outcome(commands.ls, u, strict=False)
                    if ck.expect(o.ok, "URL can't be listed", f"{u}: {o}", u):
                        ck.expect(sorted(o.value) == sorted(s.listing[path]), "URL lists something else", f"{u}: {o.value} instead of {s.listing[path]}", u)
                monitor(ck, w, s, path, u, opts, near)
                ck.expect(not w.still_open(), "connection left open", u)
                if kind in ("postgresql", "mysql", "snowflake", "hive") and g.coin(0.3):
                    w.clear()
                    base = path[:1] if kind != "hive" else ()
                    o = outcome(lambda: create_client(s.url(base, query=q)).__enter__())
                    if ck.expect(o.ok, "client can't be created", f"{s.url(base, query=q)}: {o}"):
                        monitor(ck, w, s, base, s.url(base, query=q), opts, near)
            # the wrong depth for the method
            if s.depth and kind not in ("sqlite", "confluent"):
                deep = tuple(g.r.choice(["a", "b", "public"]) for _ in range(s.depth + g.r.randint(1, 3)))
                wrong = [("schema", p) for p in s.listing] + [("schema", deep), ("ls", deep)] + ([("ls", p) for p in s.leaves] if kind != "hive" else [])
                for what, p in g.r.sample(wrong, min(3, len(wrong))):
                    w.clear()
                    u = s.url(p)
                    ck.case(key=(what, u), family="wrong depths")
                    o = outcome(getattr(commands, what), u, strict=False)
                    ck.expect(not o.ok, "wrong depth accepted", f"{what} {u}: {o}", u)
                    ck.expect(not w.still_open(), "connection left open", u)
            # names that aren't there, but might be mistaken for nothing at all
            if s.depth and kind not in ("sqlite", "confluent"):
                for odd in g.r.sample(["..", ".", "...", "-", "_", "%20", "%2E%2E", "%2F", "%00", "*", "%", "~", "null", "None"], 2):
                    p = (*g.r.choice(list(s.listing)), odd)
                    if p in s.listing or p in s.leaves:
                        continue
                    u = s.url(p)
                    what = "ls" if len(p) < s.depth else "schema"
                    w.clear()
                    ck.case(key=(what, u), family="odd names")
                    o = outcome(getattr(commands, what), u, strict=False)
                    empty = o.ok and (not o.value if what == "ls" else not o.value.get("fields"))
                    ck.expect(not o.ok or empty, "name that isn't there served as something else", f"{what} {u}: {o}", u)
            # near-miss schemes
            bad = g.r.choice(SCHEMES)
            p = g.r.choice(paths)
            u = bad + "://" + f"{s.userinfo()}{s.hostport() or 'h'}" + "".join("/" + x for x in p)
            for what in ("ls", "schema"):
                w.clear()
                ck.case(key=(what, u), family="unsupported schemes")
                o = outcome(getattr(commands, what), u, strict=False)
                ck.expect(not o.ok and not w.events, "unsupported scheme accepted", f"{what} {u}: {o} {w.events}", u)
            # SQLite URIs
            if kind == "sqlite" and g.coin(0.5) and "%" not in s.path:
                u = f"sqlite:///file:{s.path}?mode=ro&uri=true"
                w.clear()
                o = outcome(commands.ls, u, strict=False)
                ck.event("sqlite URIs")
                ck.expect(o.ok and sorted(o.value) == sorted(s.listing[()]), "SQLite URI not opened", f"{u}: {o}", u)
                for p in s.leaves:
                    u = f"sqlite:///file:{s.path}/{p[0]}?mode=ro&uri=true"
                    o = outcome(commands.schema, u, strict=False)
                    ck.expect(o.ok and tour.compare(s.leaves[p], o.value) is None, "SQLite URI not read", f"{u}: {o}", u)
            if kind == "sqlite":
                ck.expect(os.listdir(s.dir) == [os.path.basename(s.path)], "files left next to the database", f"{u} {os.listdir(s.dir)}")
            tour.cleanup(s)
