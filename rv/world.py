"""A small world of data systems behind instrumented drivers.

Within `with World(...)`, every driver recap can use is replaced by a stand-in that records
what it is asked for; no connection leaves the process. `world.events` is the trace:
("connect", system, id, {host, port, user, password, database, ...}, all arguments)
("use", system, id, what, detail) / ("close", system, id)
"""
from __future__ import annotations

import base64
import importlib
import json
import os
import pkgutil
import shutil
import sqlite3
import sys
import tempfile
from unittest import mock
from urllib.parse import unquote, urlsplit

import google.cloud.bigquery
import httpx
import mysql.connector
import psycopg2
import psycopg2.extensions
import pymetastore.metastore
import snowflake.connector

import recap.commands
import recap.settings
from rv import bqfake, dbfake, hivefake

# names bound at import time (`from driver import connect`) have to exist before they are replaced
for _, _name, _ in pkgutil.walk_packages(recap.__path__, "recap."):
    try:
        importlib.import_module(_name)
    except Exception:  # whoever uses the module sees the error
        pass
REAL_SQLITE = sqlite3.connect
REAL_HTTPX = httpx.Client
SYSTEMS = ("postgresql", "mysql", "snowflake", "sqlite", "bigquery", "hive", "confluent")


class Fault(Exception):
    """An injected fault."""


def configure(urls=(), registry=None, args=None):
    """Gives recap new settings, as if it had been started with them."""
    os.environ["RECAP_URLS"] = json.dumps(list(urls))
    if registry is not None:
        os.environ["RECAP_REGISTRY_STORAGE_URL"] = registry
        os.environ["RECAP_REGISTRY_STORAGE_URL_ARGS"] = json.dumps(args or {})
    new = recap.settings.RecapSettings()
    for name, m in list(sys.modules.items()):
        if name == "recap" or name.startswith("recap."):
            for a, v in list(vars(m).items()):
                if isinstance(v, recap.settings.RecapSettings):
                    setattr(m, a, new)
                elif hasattr(v, "cache_clear") and callable(v.cache_clear):
                    v.cache_clear()
    return new


class World:
    def __init__(self, rng, scratch=None):
        self.rng = rng
        self.servers = {}
        self.events = []
        self.patches = []
        self.bigquery = {}
        self.hive = {}
        self.hive_stats = {}
        self.subjects = {}  # subject -> [(type, text)]
        self.deleted = {}  # subject -> version numbers that are gone
        self.fault = None  # callable(system, what, number)
        self.count = 0
        self.ids = 0
        self.scratch = scratch
        self.accept = None  # callable(system, connection dict) -> bool

    def server(self, flavor):
        if flavor not in self.servers:
            s = self.servers[flavor] = dbfake.Server(flavor, self.rng)
            s.fault = lambda what, n, flavor=flavor: self.step(flavor, what)
        return self.servers[flavor]

    def load(self, flavor, databases):
        self.server(flavor).load(databases)

    # ---- trace ------------------------------------------------------------
    def step(self, system, what, ident=None, detail=None):
        self.count += 1
        self.events.append(("use", system, ident, what, detail))
        if self.fault is not None:
            self.fault(system, what, self.count)

    def connect_event(self, system, where, raw):
        self.ids += 1
        i = self.ids
        self.count += 1
        if self.fault is not None:
            self.fault(system, "connect", self.count)
        self.events.append(("connect", system, i, where, raw))
        if self.accept is not None and not self.accept(system, where):
            self.events.append(("close", system, i))
            raise PermissionError("access denied")
        return i

    def close_event(self, system, i):
        self.events.append(("close", system, i))

    def opened(self):
        return [e for e in self.events if e[0] == "connect"]

    def still_open(self):
        closed = {e[2] for e in self.events if e[0] == "close"}
        return [e for e in self.events if e[0] == "connect" and e[2] not in closed]

    def clear(self):
        self.events.clear()
        self.count = 0

    # ---- drivers ------------------------------------------------------------
    def _dbapi(self, flavor, where, raw):
        i = self.connect_event(flavor, where, raw)
        s = self.server(flavor)
        con = s.connect(where.get("database"))
        w = self

        class Tracked(dbfake.Connection):
            def _check(self):
                if self.closed:
                    w.events.append(("use after close", flavor, i))
                else:
                    w.events.append(("use", flavor, i, "connection", None))
                super()._check()

            def close(self):
                if not self.closed:
                    w.close_event(flavor, i)
                super().close()

        con.__class__ = Tracked
        return con

    def pg_connect(self, dsn=None, connection_factory=None, cursor_factory=None, **kw):
        d = dict(psycopg2.extensions.parse_dsn(dsn)) if dsn else {}
        d.update({k: v for k, v in kw.items() if v is not None})
        if "database" in d:
            d["dbname"] = d.pop("database")
        # refuses what libpq refuses; values are passed as text
        for k in d:
            if k not in self._pg_options():
                raise psycopg2.ProgrammingError(f'invalid dsn: invalid connection option "{k}"')
        where = dict(host=d.get("host"), port=int(d["port"]) if d.get("port") is not None else None, user=d.get("user"), password=d.get("password"), database=d.get("dbname"))
        return self._dbapi("postgresql", where, d)

    _pg = None

    def _pg_options(self):
        if World._pg is None:
            World._pg = {"host", "hostaddr", "port", "dbname", "user", "password", "passfile", "channel_binding", "connect_timeout", "client_encoding", "options", "application_name", "fallback_application_name",
                         "keepalives", "keepalives_idle", "keepalives_interval", "keepalives_count", "tcp_user_timeout", "replication", "gssencmode", "sslmode", "requiressl", "sslcompression", "sslcert", "sslkey",
                         "sslpassword", "sslrootcert", "sslcrl", "sslcrldir", "sslsni", "requirepeer", "ssl_min_protocol_version", "ssl_max_protocol_version", "krbsrvname", "gsslib", "service", "target_session_attrs", "load_balance_hosts", "require_auth", "gssdelegation", "sslcertmode"}
        return World._pg

    def mysql_connect(self, *a, **kw):
        from mysql.connector.constants import DEFAULT_CONFIGURATION

        d = dict(kw)
        for k in d:
            if k not in DEFAULT_CONFIGURATION and k not in ("pool_name", "pool_size", "failover", "read_default_file", "option_files", "username", "db", "passwd", "connect_timeout"):
                raise AttributeError(f"Unsupported argument '{k}'")
        raw = dict(d)
        for alias, name in (("db", "database"), ("username", "user"), ("passwd", "password"), ("connect_timeout", "connection_timeout")):
            if alias in d:
                v = d.pop(alias)
                d.setdefault(name, v)
        port = int(d["port"]) if "port" in d else None  # the connector refuses None
        where = dict(host=d.get("host"), port=port, user=d.get("user"), password=d.get("password"), database=d.get("database"))
        return self._dbapi("mysql", where, raw)

    def snowflake_connect(self, *a, **kw):
        where = dict(host=kw.get("account"), port=int(kw["port"]) if "port" in kw else None,  # the connector refuses None
                      user=kw.get("user"), password=kw.get("password"), database=kw.get("database"), schema=kw.get("schema"), real_host=kw.get("host"))
        return self._dbapi("snowflake", where, dict(kw))

    def sqlite_connect(self, database, *a, **kw):
        w = self
        where = dict(host=None, port=None, user=None, password=None, database=database)
        i = self.connect_event("sqlite", where, {"database": database, **kw})
        base = kw.pop("factory", None) or sqlite3.Connection

        class C(base):
            def close(self):
                if not getattr(self, "_rv_closed", False):
                    self._rv_closed = True
                    w.close_event("sqlite", i)
                super().close()

            def cursor(self, *a, **k):
                try:
                    return super().cursor(factory=Cur)
                except sqlite3.ProgrammingError:
                    w.events.append(("use after close", "sqlite", i))
                    raise

        class Cur(sqlite3.Cursor):
            def execute(self, *a):
                w.step("sqlite", "execute", i, a[0])
                return super().execute(*a)

            def fetchall(self):
                w.step("sqlite", "fetch", i)
                return super().fetchall()

            def fetchone(self):
                w.step("sqlite", "fetch", i)
                return super().fetchone()

        try:
            if self.sqlite_memory:
                database = ":memory:"
            return REAL_SQLITE(database, *a, factory=C, **kw)
        except BaseException:
            w.close_event("sqlite", i)
            raise

    def bq_client(self, *a, **kw):
        w = self
        where = dict(host=None, port=None, user=None, password=None, database=kw.get("project") or (a[0] if a else None))
        i = self.connect_event("bigquery", where, dict(kw))

        class C(bqfake.FakeClient):
            def close(self):
                if not self.closed:
                    w.close_event("bigquery", i)
                super().close()

            def _use(self, what, *args):
                if self.closed:
                    w.events.append(("use after close", "bigquery", i))
                w.step("bigquery", what, i, args)

        return C(self.bigquery, fault=lambda what: self.fault and self.step("bigquery", what, i))

    def hms_create(self, host="localhost", port=9083, *a, **kw):
        w = self

        class H(hivefake.FakeHMS):
            def _use(self, what, *args):
                if self.closed:
                    w.events.append(("use after close", "hive", self.ident))
                w.step("hive", what, self.ident, args)

        class Con:
            def __enter__(self):
                self.client = H(w.hive, w.hive_stats)
                self.client.ident = w.connect_event("hive", dict(host=host, port=int(port) if port is not None else None, user=None, password=None, database=None), {"host": host, "port": port})
                return self.client

            def __exit__(self, *exc):
                self.client.closed = True
                w.close_event("hive", self.client.ident)

        return Con()

    def http_client(self, *a, proxy=None, **kw):
        w = self
        i = None
        state = {}

        def handler(request):
            w.step("confluent", "request", state.get("id"), request.url.raw_path.decode())
            u = request.url
            auth = request.headers.get("authorization")
            user = password = None
            if auth and auth.startswith("Basic "):
                user, _, password = base64.b64decode(auth[6:]).decode("utf-8", "replace").partition(":")
            where = dict(host=u.host, port=u.port, user=user, password=password, scheme=u.scheme, database=None, path=u.raw_path.decode("ascii").split("?")[0])
            w.events.append(("request", "confluent", state.get("id"), where, str(u)))
            if w.accept is not None and not w.accept("confluent", where):
                return httpx.Response(401, json={"error_code": 401, "message": "Unauthorized"})
            return w.registry_response(where["path"])

        kw.pop("transport", None)
        tls = {"verify": kw.pop("verify", None), "cert": kw.pop("cert", None)}
        kw.pop("auth_", None)

        class C(REAL_HTTPX):
            def close(self):
                if not getattr(self, "_rv_closed", False):
                    self._rv_closed = True
                    w.close_event("confluent", state["id"])
                super().close()

            def __exit__(self, *exc):
                if not getattr(self, "_rv_closed", False):
                    self._rv_closed = True
                    w.close_event("confluent", state["id"])
                super().__exit__(*exc)

        state["id"] = self.connect_event("confluent", {"session": True}, {**{k: v for k, v in kw.items() if k != "auth"}, **tls})
        return C(*a, transport=httpx.MockTransport(handler), **kw)

    prefix = ""
    sqlite_memory = False

    def registry_response(self, path):
        """A Confluent schema registry with self.subjects under self.prefix."""
        nf = lambda code, msg: httpx.Response(404, json={"error_code": code, "message": msg})
        if not path.startswith(self.prefix + "/"):
            return nf(404, "HTTP 404 Not Found")
        p = [unquote(x) for x in path[len(self.prefix):].split("/")[1:]]
        if p == ["subjects"]:
            return httpx.Response(200, json=list(self.subjects))
        if p[0] == "subjects" and len(p) >= 2:
            if p[1] not in self.subjects:
                return nf(40401, "Subject not found.")
            vs = self.subjects[p[1]]
            # versions that were deleted leave gaps
            nos = [n for n in range(1, len(vs) + 10**4) if n not in self.deleted.get(p[1], ())][: len(vs)]
            if p[2:] == ["versions"]:
                return httpx.Response(200, json=nos)
            if len(p) == 4 and p[2] == "versions":
                try:
                    n = nos[-1] if p[3] in ("latest", "-1") else int(p[3])
                    t, text = vs[nos.index(n)]
                except (ValueError, IndexError):
                    return nf(40402, "Version not found.")
                body = {"subject": p[1], "version": n, "id": hash(p[1]) % 1000 + n, "schema": text}
                if t != "AVRO":
                    body["schemaType"] = t
                return httpx.Response(200, json=body)
        if p[:2] == ["schemas", "ids"] and len(p) == 3:
            return nf(40403, "Schema not found")
        return nf(404, "HTTP 404 Not Found")

    # ---- patching -----------------------------------------------------------
    def __enter__(self):
        own = self.scratch is None
        self.own = own
        if own:
            self.scratch = tempfile.mkdtemp(prefix="rv-world-")
        P = self.patches
        P += [mock.patch.object(psycopg2, "connect", self.pg_connect), mock.patch.object(mysql.connector, "connect", self.mysql_connect), mock.patch.object(snowflake.connector, "connect", self.snowflake_connect),
              mock.patch.object(snowflake.connector, "Connect", self.snowflake_connect), mock.patch.object(sqlite3, "connect", self.sqlite_connect),
              mock.patch.object(google.cloud.bigquery, "Client", self.bq_client), mock.patch.object(pymetastore.metastore.HMS, "create", staticmethod(self.hms_create)),
              mock.patch.object(httpx, "Client", self.http_client)]
        real = {id(p.getter().__dict__.get(p.attribute)): p for p in P if not isinstance(p.getter(), type)}
        for name, m in list(sys.modules.items()):
            if name.startswith("recap."):
                for a, v in list(vars(m).items()):
                    if id(v) in real and v is real[id(v)].getter().__dict__[real[id(v)].attribute]:
                        P.append(mock.patch.object(m, a, real[id(v)].new))
        for p in P:
            p.start()
        return self

    def __exit__(self, *exc):
        for p in reversed(self.patches):
            p.stop()
        self.patches.clear()
        if self.own:
            shutil.rmtree(self.scratch, ignore_errors=True)
