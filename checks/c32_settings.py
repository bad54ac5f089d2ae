"""C32: the process is configured exactly as its environment says."""
import json, os, shutil, sys, tempfile
from pathlib import Path
from urllib.parse import quote
from pydantic import AnyUrl
from rv import asgi, core
from rv.gen import Gen

PID, LEVEL = "C32", "exploration"
TECHNIQUE = "runtime monitoring: freshly started processes (forked, recap imported anew) under generated environments; effective settings, gateway answers and an audit hook's record of every file written compared with a reference resolution of the sources"
RULE = ("seeded random environments: RECAP_HOME (unset, empty, existing, missing, relative, odd characters), RECAP_URLS, RECAP_REGISTRY_STORAGE_URL and its arguments (JSON or one by one), each given by any of environment (upper or lower case), .env file, "
        "secrets directory, or several of them with different values, or invalid; a process per case, in which a schema is registered over HTTP; non-trivial = distinct environment with at least one setting")
ASSUMPTIONS = ["the parent of RECAP_HOME and RECAP_SECRETS exists", "one source per setting spells it in one case"]
ODD = ["home", "my home", "h%41", "h%20x", "ü", "a+b", "a#b", "a?b", "x=y&z", "~", "日本", "a;b", "q'q", ".hidden", "-d", "a:b", "[x]", "a@b"]
URLS = ["postgresql://u{}:p{}@h{}:54{}/db{}", "mysql://h{}/x{}", "snowflake://a{}:b@acct{}/d", "sqlite:////tmp/x{}.db", "bigquery://", "thrift+hms://h{}:9083/db", "http+csr://k{}:s{}@h{}:8081", "file:///data/{}/x", "s3://bucket{}/p", "postgresql://h{}/db%20{}?sslmode=require#f"]
INVALID = {"urls": ["{}", "not json", "\"postgresql://h/db\"", "[\"nothing\"]", "[1", "5", "[null]", "[\"postgresql://\u0000\"]"], "registry_storage_url": ["/tmp/x", "nothing", "//x"], "registry_storage_url_args": ["[]", "x", "5"]}


def environment(g, top):
    r = g.r
    c = {"env": {}, "dotenv": {}, "secrets": {}, "expect": {}, "invalid": None}
    n = [0]

    def value(f):
        n[0] += 1
        if f == "urls":
            return [u.replace("{}", str(r.randrange(10))) for u in r.sample(URLS, r.choice([0, 1, 1, 2, 3, 5]))]
        if f == "registry_storage_url":
            if r.random() < 0.2:
                return r.choice(["memory://m", "memory:///m", "memory://m/n"]) + str(n[0])
            # (as a URL: percent-encoded)
            return "file://" + quote(f"{top}/reg{n[0]}{r.choice(['', '', r.choice(ODD)])}" + r.choice(["", "", "/" + r.choice(ODD)]))
        return r.choice([{}, {"auto_mkdir": True}, {"token": "abc"}, {"auto_mkdir": False, "key": f"k{n[0]}"}, {"client_kwargs": {"endpoint_url": f"http://x{n[0]}"}}])

    # RECAP_HOME, RECAP_SECRETS
    home = r.choice(["unset", "unset", "empty", "new", "new", "exists", "relative"])
    place = r.choice(["env", "env", "env", "dotenv"])
    name = r.choice(ODD)
    c["home"] = f"{top}/user/.recap"
    if home == "empty":
        c[place]["RECAP_HOME"] = ""
    elif home == "relative":
        c["home"] = f"{top}/cwd/{name}"
        c[place]["RECAP_HOME"] = name
    elif home != "unset":
        c["home"] = f"{top}/{name}"
        c[place]["RECAP_HOME"] = c["home"]
    c["home_exists"] = home == "exists" or (home == "unset" and r.random() < 0.5)
    if place == "env" and "RECAP_HOME" in c["env"] and r.random() < 0.3:
        c["dotenv"]["RECAP_HOME"] = f"{top}/not this one"
    sec = r.choice([None, None, "new", "exists", "exists"])
    c["secrets_dir"] = None
    if sec:
        c["secrets_dir"] = f"{top}/sec {r.randrange(3)}"
        c[r.choice(["env", "dotenv"])]["RECAP_SECRETS"] = c["secrets_dir"]
    # fields
    for f in ("urls", "registry_storage_url", "registry_storage_url_args"):
        sources = [s for s in ("env", "dotenv", "secrets") if r.random() < 0.4 and (s != "secrets" or sec == "exists")]
        if f == "registry_storage_url_args":
            sources = sources[:1]
        first = True
        for s in sources:
            v = value(f)
            raw = v if isinstance(v, str) else json.dumps(v, ensure_ascii=r.random() < 0.5)
            bad = first and r.random() < 0.04 and s == "env"
            if bad:
                raw = r.choice([x for x in INVALID[f] if "\0" not in x])
                c["invalid"] = (f, raw)
            key = f"RECAP_{f.upper()}"
            if s == "env" and r.random() < 0.2:
                key = key.lower()
            if s == "secrets":
                c["secrets"][f"recap_{f}"] = raw + r.choice(["", "\n"])
            elif f == "registry_storage_url_args" and not bad and r.random() < 0.5 and all(isinstance(x, str) for x in v.values()) and v:
                for a, x in v.items():
                    c[s][f"{key}__{a.upper() if key.isupper() else a}"] = x
            else:
                c[s][key] = raw
            if first:
                c["expect"][f] = v
            first = False
    # .env only counts where the environment has nothing in the same case
    c["dotenv_at"] = r.choice(["app", "app/recap", "."])
    if any(k.lower() == k for k in c["env"]):
        for k in [k for k in c["dotenv"] if k.lower() in c["env"]]:
            del c["dotenv"][k]
    # things of others
    for k, v in (("URLS", "[\"postgresql://other/x\"]"), ("RECAPURLS", "x"), ("REGISTRY_STORAGE_URL", "file:///nonexistent/x"), ("XRECAP_URLS", "y")):
        if r.random() < 0.2:
            c["env"][k] = v
    return c


def tree(top):
    out = set()
    for d, ds, fs in os.walk(top):
        out |= {os.path.join(d, x) for x in ds + fs}
    return out


def child(c, top, name, body):
    for k in [k for k in os.environ if k.upper().startswith("RECAP")]:
        del os.environ[k]
    os.environ["HOME"] = f"{top}/user"
    os.environ.update(c["env"])
    os.chdir(f"{top}/cwd")
    # (where fsspec prepares files)
    tempfile.tempdir = f"{top}/tmp"
    sys.dont_write_bytecode = True
    for m in [m for m in sys.modules if m == "recap" or m.startswith("recap.")]:
        del sys.modules[m]
    sys.path.insert(0, f"{top}/app")
    written = []

    def hook(event, args):
        if event == "open" and isinstance(args[0], (str, bytes)) and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            written.append(os.path.abspath(os.fsdecode(args[0])))
        elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.link", "os.symlink", "os.truncate", "os.chmod"):
            written.extend(os.path.abspath(os.fsdecode(a)) for a in args if isinstance(a, (str, bytes)))

    sys.addaudithook(hook)
    try:
        from recap import commands, settings
        from recap.server import gateway, registry
        from recap.server.app import app
        out = {"file": settings.__file__}
        s = [m.settings for m in (commands, gateway, registry) if hasattr(m, "settings")]
        out["urls"] = [[str(u) for u in x.urls] for x in s]
        out["url"] = [str(x.registry_storage_url) for x in s]
        out["args"] = [x.registry_storage_url_args for x in s]
        h = asgi.Http(app)
        ls = h("GET", "/gateway/ls/")
        out["ls"] = [ls.status, ls.body.decode()]
        put = h("POST", f"/registry/{name}", headers=[("content-type", "application/x-recap+json")], chunks=[body])
        out["put"] = [put.status, put.body.decode(), repr(put.exception)]
        get = h("GET", f"/registry/{name}")
        out["get"] = [get.status, get.body.decode()]
        h.close()
    except BaseException as e:
        out = {"raised": type(e).__name__, "message": str(e)[:500]}
    out["written"] = sorted(set(written))
    return out


def judge(ck, g):
    r = ck.rng
    top = tempfile.mkdtemp(prefix="rv-settings-")
    try:
        os.makedirs(f"{top}/user")
        os.makedirs(f"{top}/cwd")
        os.makedirs(f"{top}/tmp")
        os.makedirs(f"{top}/app")
        shutil.copytree(os.path.join(core.REPO, "recap"), f"{top}/app/recap", ignore=shutil.ignore_patterns("__pycache__"))
        c = environment(g, top)
        if c["home_exists"]:
            os.makedirs(c["home"], exist_ok=True)
        if c["secrets"]:
            os.makedirs(c["secrets_dir"], exist_ok=True)
            for k, v in c["secrets"].items():
                Path(c["secrets_dir"], k).write_text(v, encoding="utf-8")
        if c["dotenv"]:
            Path(top, c["dotenv_at"], ".env").write_text("".join(f"{r.choice(['', 'export '])}{k}='{v}'\n" if "'" not in v else f'{k}="{v}"\n' for k, v in c["dotenv"].items()), encoding="utf-8")
        before = tree(top)
        name, body = "a b", {"type": "int32"}
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
                out = child(c, top, "a%20b", json.dumps(body).encode())
                with os.fdopen(wr, "w") as f:
                    json.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(rd) as f:
            text = f.read()
        os.waitpid(pid, 0)
        compare(ck, c, top, json.loads(text), before, tree(top), body)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def compare(ck, c, top, out, before, after, body):
    neutral = lambda x: json.loads(json.dumps(x).replace(top, "@"))
    case = neutral({k: c[k] for k in ("env", "dotenv", "dotenv_at", "secrets", "home", "home_exists")})
    given = len(c["expect"]) + ("RECAP_HOME" in c["env"] or "RECAP_HOME" in c["dotenv"])
    ck.case(key=case if given else None, family="invalid" if c["invalid"] else "environment", sample=case)
    if c["invalid"]:
        ck.event("invalid settings")
        ck.expect("raised" in out, "invalid setting accepted", f"{c['invalid']}: {out}", case)
        return
    if not ck.expect("raised" not in out, "settings refused", f"{case}: {out}", case):
        return
    ck.event("processes configured")
    e = c["expect"]
    for f, s in ((f, s) for f in ("urls", "registry_storage_url") for s in ("env", "dotenv", "secrets")):
        if any(k.lower() == f"recap_{f}" for k in c[s]):
            ck.event(f"settings in {s}")
    urls = [str(AnyUrl(u)) for u in e.get("urls", [])]
    for u in out["urls"]:
        ck.expect(u == urls, "other URLs", f"{u} instead of {urls}", case)
    args = e.get("registry_storage_url_args", {})
    for a in out["args"]:
        ck.expect(a == args, "other registry arguments", f"{a} instead of {args}", case)
    url = str(AnyUrl(e.get("registry_storage_url") or Path(c["home"], "schemas").as_uri()))
    for u in out["url"]:
        ck.expect(u == url, "other registry", f"{u} instead of {url}", case)
    ck.expect(out["ls"][0] == 200 and len(json.loads(out["ls"][1])) == len(urls), "other URLs listed", f"{out['ls']} instead of {urls}", case)
    ck.expect(out["put"][:2] == [200, "1"], "registration failed", f"{out['put']}", case)
    ck.expect(out["get"][0] == 200 and json.loads(out["get"][1]) == [body["type"], 1], "registered schema", f"{out['get']}", case)
    # what's where
    want = {c["home"]}
    if c["secrets_dir"]:
        want.add(c["secrets_dir"])
    if not url.startswith("memory:"):
        from urllib.parse import unquote, urlsplit
        root = unquote(url[len("file://"):])
        while len(root) > len(top):
            want.add(root)
            root = os.path.dirname(root)
        root = unquote(url[len("file://"):])
        want |= {f"{root}/a+b", f"{root}/a+b/1.json"}
        ck.event("registries on disk")
    ck.expect(after == before | want, "files in other places", f"missing {neutral(sorted((before | want) - after))}, unexpected {neutral(sorted(after - before - want))}", case)
    ok = [c["home"], c["secrets_dir"] or c["home"], f"{top}/tmp", root if not url.startswith("memory:") else c["home"]]
    for p in out["written"]:
        ck.event("files written")
        ck.expect(p in want or any(p.startswith(o + "/") for o in ok) or p == os.devnull, "file written elsewhere", f"{neutral(p)}", case)


def run(ck):
    import recap.commands, recap.server.app  # so that forked processes have everything else loaded
    g = Gen(ck.rng)
    for name, n in (("processes configured", 300), ("invalid settings", 10), ("settings in env", 150), ("settings in dotenv", 100), ("settings in secrets", 60), ("registries on disk", 200), ("files written", 500)):
        ck.need(name, n)
    for i in ck.loop(800, 10000):
        judge(ck, g)
