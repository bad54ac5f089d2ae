"""Drives the ASGI application the way a server does: body chunks arrive when the driver says so."""
from __future__ import annotations

import asyncio
import json
from urllib.parse import quote, unquote


class Response:
    def __init__(self):
        self.status = None
        self.headers = []
        self.body = b""
        self.exception = None
        self.complete = False

    def json(self):
        return json.loads(self.body)

    def header(self, name):
        for k, v in self.headers:
            if k.lower() == name.encode():
                return v.decode("latin-1")

    def __repr__(self):
        return f"{self.status} {self.body[:300]!r}" + (f" raised {self.exception!r}" if self.exception else "")


def scope(method, raw_path, query=b"", headers=()):
    if isinstance(raw_path, str):
        raw_path = raw_path.encode("ascii")
    return {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "server": ("127.0.0.1", 8000), "client": ("127.0.0.1", 12345), "scheme": "http", "root_path": "",
        "method": method, "path": unquote(raw_path.decode("ascii")), "raw_path": raw_path, "query_string": query,
        "headers": [(b"host", b"127.0.0.1:8000")] + [(k.lower().encode(), v if isinstance(v, bytes) else v.encode("latin-1")) for k, v in headers], "state": {},
    }


async def call(app, method, raw_path, headers=(), chunks=(b"",), query=b"", gate=None, disconnect_after=None):
    """One request. `gate(i)` is awaited before chunk i arrives; with disconnect_after=i the client
    goes away instead of sending chunk i."""
    r = Response()
    chunks = list(chunks) or [b""]
    state = {"i": 0}
    done = asyncio.Event()

    async def receive():
        i = state["i"]
        state["i"] += 1
        if disconnect_after is not None and i >= disconnect_after:
            return {"type": "http.disconnect"}
        if i < len(chunks):
            if gate is not None:
                await gate(i)
            return {"type": "http.request", "body": chunks[i], "more_body": i + 1 < len(chunks)}
        await done.wait()
        return {"type": "http.disconnect"}

    async def send(m):
        if m["type"] == "http.response.start":
            r.status, r.headers = m["status"], list(m["headers"])
        elif m["type"] == "http.response.body":
            r.body += m.get("body", b"")
            if not m.get("more_body"):
                r.complete = True

    try:
        await app(scope(method, raw_path, query, headers), receive, send)
    except Exception as e:
        r.exception = e
        if r.status is None:
            r.status = 500
    finally:
        done.set()
    return r


class Http:
    """A client with its own event loop."""

    def __init__(self, app):
        self.app = app
        self.loop = asyncio.new_event_loop()

    def __call__(self, method, raw_path, headers=(), body=b"", **k):
        chunks = k.pop("chunks", None) or [body]
        return self.loop.run_until_complete(call(self.app, method, raw_path, headers, chunks, **k))

    def close(self):
        self.loop.run_until_complete(self.loop.shutdown_default_executor())
        self.loop.close()


def seg(s):
    """One path element, encoded."""
    return quote(s, safe="")


def tail(s):
    """Everything after a prefix: slashes stay."""
    return quote(s, safe="/:@")


def near_type(g, real):
    """A content type that almost is one of `real` (which differs in more than case or parameters)."""
    real = list(real)
    while True:
        if g.coin():
            t = g.r.choice(["application/", "text/", "", "application/vnd."]) + g.r.choice(["", "x-"]) + g.r.choice(["avro", "recap", "protobuf", "schema", "json"]) + g.r.choice(["", "+json", "+xml", ".v1+json"])
        else:
            t = g.r.choice(real)
            t = g.r.choice([t + "x", t[:-1], t[1:], t.replace("+", "."), t.replace("+", "-"), t.replace("-", ""), t + "/" + t, t.replace("json", "avro"), t.replace("application", "text")])
        if t.lower() not in real:
            return t
