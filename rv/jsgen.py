"""Generator of JSON schemas (supported vocabulary) together with the Recap type they describe."""
from __future__ import annotations

import copy

from rv import model as M

BASIC = {
    "string": lambda: M.string(),
    "number": lambda: M.flt(64),
    "integer": lambda: M.integer(32),
    "boolean": lambda: M.boolean(),
    "null": lambda: M.null(),
}
FORMATS = {
    "bytes": lambda: M.byts(),
    "byte": lambda: M.byts(),
    "date": lambda: M.string(logical="org.iso.8601.Date"),
    "date-time": lambda: M.string(logical="org.iso.8601.DateTime"),
    "time": lambda: M.string(logical="org.iso.8601.Time"),
    "email": lambda: M.string(),
    "uri": lambda: M.string(),
}


# keywords that annotate or constrain values, and don't change the type
ANNOTATIONS = [("title", "t"), ("$comment", "c"), ("examples", [1, "x", None]), ("readOnly", True), ("writeOnly", True), ("deprecated", True), ("minimum", 0), ("maximum", 2**40), ("multipleOf", 2), ("minLength", 1), ("maxLength", 36),
               ("pattern", "^a$"), ("minItems", 1), ("maxItems", 3), ("uniqueItems", True), ("minProperties", 1), ("additionalProperties", False), ("additionalProperties", True), ("contentEncoding", "base64"), ("contentMediaType", "application/json"),
               ("x-y", {"type": "null"}), ("optional", True), ("nullable", True), ("propertyOrder", 1), ("doc", "no"), ("name", "no"), ("alias", "no.no"), ("logical", "no"), ("bits", 8)]


def nullable(n):
    """What a property that isn't required becomes."""
    n = copy.copy(n)
    n["x"] = dict(n["x"])
    is_null = n["k"] == "null" or (n["k"] == "union" and any(t["k"] == "null" for t in n["types"]))
    if is_null:
        n["x"].setdefault("default", None)
        return n
    x = {"default": n["x"].pop("default", None)}
    doc, n["doc"] = n["doc"], None
    if n["k"] == "union":
        n["x"].update(x)
        n["doc"] = doc
        n["types"] = [M.null()] + n["types"]
        return n
    return M.union([M.null(), n], doc=doc, x=x)


def custom_strategy(urn):
    """A caller's own way of naming types."""
    return "custom." + "".join(c if c.isalnum() else "_" for c in urn)


class JsGen:
    def __init__(self, g, strategy=None):
        self.g, self.r, self.strategy = g, g.r, strategy
        self.defs = {}  # alias -> node
        self.ids = {}  # $id -> alias, of types inside of the document
        self.remote = {}  # url -> schema, not yet retrieved
        self.remote_node = {}
        self.n = 0
        self.elsewhere = 0

    def new_id(self):
        url, alias = self.new_default_id()
        return (url, self.strategy(url)) if self.strategy else (url, alias)

    def new_default_id(self):
        self.n += 1
        r = self.r
        dom = r.choice(["example.com", "a.b.example.org", "recap.build", "x.y"])
        if self.g.coin(0.15):
            # no path
            dom = f"h{self.n}.{dom}"
            return f"{r.choice(['https', 'http'])}://{dom}{r.choice(['/', ''])}", ".".join(reversed(dom.split(".")))
        path = r.choice(["Foo", "schemas/person", "a/b/c", "Thing-x", "some_path"]) + "T" + chr(97 + self.n % 26) * (1 + self.n // 26)
        sep = "".join(c.lower() if c.isalnum() else "." for c in path)
        return f"{r.choice(['https', 'http'])}://{dom}/{path}", ".".join(reversed(dom.split("."))) + "." + sep

    def schema(self, depth):
        g, r = self.g, self.r
        opts = [("basic", 4), ("format", 3), ("typelist", 2), ("ref", 3 if self.ids else 0), ("remote", 1 if self.remote else 0)]
        if depth > 0:
            opts += [("object", 3), ("array", 3)]
        if depth > 0 and g.coin(0.004):
            s, n = self.schema(0)
            for _ in range(g.span(4, 40)):
                s, n = {"type": "array", "items": s}, M.lst(n)
                if g.coin(0.4):
                    s, n = {"type": "object", "properties": {"p": s}, "required": ["p"]}, M.struct([dict(n, x=dict(n["x"], name="p"))])
            return s, n
        k = r.choices([o[0] for o in opts], [o[1] for o in opts])[0]
        if k == "ref":
            i = r.choice(list(self.ids))
            s, n = {r.choice(["$ref", "$ref", "$ref", "$dynamicRef"]): i}, M.ref(self.ids[i])
            return self.decorate(s, n)
        if k == "remote":
            url = r.choice(list(self.remote))
            alias, n, own_id = self.remote_node[url]
            self.remote.pop(url)
            self.ids[url] = self.ids[own_id] = alias
            s = {"$ref": url}
            n = copy.deepcopy(n)
            return self.decorate(s, n)
        sid = None
        if g.coin(0.12 if k != "object" else 0.4):
            sid = self.new_id()
        if sid and k in ("object", "array"):
            self.ids[sid[0]] = sid[1]  # can be referenced from inside
        if k == "basic":
            t = r.choice(list(BASIC))
            s, n = {"type": t}, BASIC[t]()
        elif k == "format":
            f = r.choice(list(FORMATS))
            s, n = {"type": "string", "format": f}, FORMATS[f]()
        elif k == "typelist":
            ts = r.sample(list(BASIC), r.choice([1, 2, 3, 3, 4, 5]))
            s, n = {"type": ts}, M.union([BASIC[t]() for t in ts])
        elif k == "array":
            a, v = self.schema(depth - 1)
            s, n = {"type": "array", "items": a}, M.lst(v)
        else:
            s, n = self.object(depth)
        s, n = self.decorate(s, n)
        if sid:
            s["$id"] = sid[0]
            n["alias"] = sid[1]
            self.ids[sid[0]] = sid[1]
            self.defs[sid[1]] = n
        return s, n

    def object(self, depth):
        g, r = self.g, self.r
        props, fields, required = {}, [], []
        names = []
        for i in range(g.few(0, 1, 2, 3, 4, most=20)):
            nm = r.choice(["id", "type", "$ref", "properties", "name", g.word(), g.word(), g.name()])
            if nm not in names:
                names.append(nm)
        for nm in names:
            s, n = self.schema(depth - 1)
            req = g.coin()
            if req:
                required.append(nm)
            else:
                n = nullable(n)
            n = dict(n, x=dict(n["x"], name=nm))
            props[nm] = s
            fields.append(n)
        s = {"type": "object", "properties": props}
        if g.coin(0.3):
            required.append("not-a-property")
        r.shuffle(required)
        if required or g.coin(0.3):
            s["required"] = required
        if g.coin(0.3):
            items = list(s.items())
            r.shuffle(items)
            s = dict(items)
        return s, M.struct(fields)

    def decorate(self, s, n):
        if self.g.coin(0.25):
            s["description"] = n["doc"] = self.g.text() or "d"
        if self.g.coin(0.2):
            s["default"] = n["x"]["default"] = self.g.json()
        if self.g.coin(0.25):
            k, v = self.r.choice(ANNOTATIONS)
            s.setdefault(k, copy.deepcopy(v))
        return s, n

    def add_remote(self):
        """A schema behind a URL."""
        url, alias = self.new_id()
        saved, self.ids = self.ids, {}
        while True:
            s, n = self.object(1)
            break
        self.ids = saved
        n["alias"] = alias
        s = dict(s)
        s["$id"] = url
        # it may live somewhere else than its $id says
        at = url if self.g.coin() else self.new_id()[0]
        self.remote[at] = s
        self.defs[alias] = n
        self.remote_node[at] = (alias, n, url)
        self.elsewhere += at != url
        return at, s


def generate(g, depth=3, strategy=None):
    js = JsGen(g, strategy)
    store = {}
    for _ in range(g.r.choice([0, 0, 1, 2])):
        url, s = js.add_remote()
        store[url] = s
    # only the ids of the main document are visible from here on
    js.ids = {}
    root_id = js.new_id() if g.coin(0.5) else None
    if root_id:
        js.ids[root_id[0]] = root_id[1]
    s, n = js.object(depth)
    s, n = js.decorate(s, n)
    if g.coin(0.2):
        s["$schema"] = g.r.choice(["https://json-schema.org/draft/2020-12/schema", "https://json-schema.org/draft/2019-09/schema"])
    if root_id:
        s["$id"] = root_id[0]
        n["alias"] = root_id[1]
        js.defs[root_id[1]] = n
    return s, n, js.defs, store
