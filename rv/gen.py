"""Seeded generators of Recap type nodes."""
from __future__ import annotations

from rv import core, model as M

RESERVED = {
    "self", "type_", "extra_attrs", "type", "alias", "doc", "logical", "optional", "types", "values", "keys",
    "fields", "symbols", "bits", "bytes", "bytes_", "length", "variable", "signed", "name", "default", "registry",
    "resolve", "validate", "is_nullable", "make_nullable", "is_optional", "_resolved",
}

UNITS = ["second", "millisecond", "microsecond", "nanosecond", "picosecond", "day", "month", "year"]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ints, self.strs = core.source_dictionary()
        self.counter = 0
        self.wide = False  # making something with many parts: fewer of them are unusual

    def coin(self, p=0.5):
        return self.r.random() < p

    def word(self):
        r = self.r
        c = r.random()
        if c < 0.35:
            return r.choice(["a", "b", "id", "name", "value", "x1", "type", "foo", "bar", "_p", "A", "Id", "camelCase", "snake_case"])
        if c < 0.5:
            return r.choice(self.strs)
        if c < 0.555:
            return self.lookalike()
        if c < 0.56:
            return self.long()
        if c < 0.8:
            return "".join(r.choice("abcXYZ019_") for _ in range(r.randint(1, 9)))
        if c < 0.9:
            return "".join(r.choice("aé ß%/.\\\"'[]{}:;*+?#&=-\t日🙂") for _ in range(r.randint(1, 8)))
        return r.choice(["", " ", "null", "0", "None", "true", "int32", "a.b", "a.b.c", "..", "x" * 300])

    def long(self, most=3000):
        """A long text, without and with blanks."""
        r = self.r
        n = self.span(20, most)
        w = "".join(r.choice("abcdefgh_é 0.\n" if self.coin(0.3) else "abcdefgh") for _ in range(40))
        return (w * (n // 40 + 1))[:n - 1] + "Z"

    def text(self):
        """Any text: words, padded ones, long ones."""
        r = self.r
        c = r.random()
        if c < 0.75:
            return self.word()
        if c < 0.9:
            return r.choice(["", " ", "\t", "\n", "  "]) + self.word() + r.choice([" ", "\n", "\r\n", "\t ", "\u00a0"])
        return r.choice(["a\nb", "a\r\nb", "a\n\nb", " a", "\na", "a  b", "a\tb", "\u2028", "a\x00b".replace("\x00", "\x1f"), "e\u0301", "é", "ﬁ", "İ", "ß", "//", "/* x */", "<b>", "${x}", "%(x)s", "\\n"])

    def lookalike(self):
        """A text the source mentions, or one that almost looks like it."""
        r = self.r
        s = r.choice(self.strs)
        c = r.random()
        if c < 0.3:
            return s
        if c < 0.5:
            return s.replace("%", r.choice(["", "x"])).replace("_", r.choice(["_", "x"])) or "x"
        if c < 0.65:
            return s + r.choice(["x", "_", "1", "-", ".a"])
        if c < 0.75:
            return r.choice(["x", "_"]) + s
        if c < 0.9:
            return r.choice([s.upper(), s.lower(), s.title()])
        i = r.randrange(len(s) + 1)
        return (s[:i] + s[i + 1:]) or "x"

    def ident(self):
        r = self.r
        return r.choice("abcdefgXYZ_") + "".join(r.choice("abcXYZ019_") for _ in range(r.randint(0, 6)))

    def name(self):
        """A name any format accepts: letters, digits and underscores."""
        r = self.r
        c = r.random()
        if c < 0.3:
            return self.ident()
        if c < 0.4:
            return r.choice(["id", "name", "value", "type", "x", "Rec1", "key", "list", "default", "doc", "alias", "union", "A", "a_b", "_x"])
        s = r.choice(self.strs)
        if c < 0.5:
            s = r.choice([s.upper(), s.lower(), s.title()])
        elif c < 0.6:
            s = self.lookalike()
        elif c < 0.75:
            s = r.choice([f"{self.ident()}_{s}", self.ident() + s, f"{s}_{self.ident()}", s + self.ident(), s + str(r.randint(0, 99))])
        elif c < 0.77:
            s = s * 20
        s = "".join(x if x.isascii() and (x.isalnum() or x == "_") else "_" for x in s)
        return s if s[:1].isalpha() or s[:1] == "_" else "n" + s

    def names(self, k, taken=(), fold=False):
        """k different names."""
        out, seen = [], {t.lower() if fold else t for t in taken}
        while len(out) < k:
            n = self.name()
            if (n.lower() if fold else n) not in seen:
                seen.add(n.lower() if fold else n)
                out.append(n)
        return out

    def few(self, *usual, most=40, far=None, rare=0.02):
        """A count: one of the usual ones, rarely a large one, or one around a number in the source."""
        if not self.coin(rare):
            return self.r.choice(usual)
        far = far or 8 * most
        c = self.r.random()
        return self.r.randint(max(usual), most) if c < 0.75 else self.span(max(usual), far) if c < 0.9 else self.r.randint(2 * far // 3, far)

    def span(self, lo, hi):
        """A size between lo and hi: around a number the source mentions, or any order of magnitude."""
        near = [i for i in self.ints if lo <= i <= hi]
        if near and self.coin(0.7):
            return self.r.choice(near)
        return min(hi, max(lo, int(2 ** self.r.uniform(max(lo, 1).bit_length() - 1, hi.bit_length()))))

    def fresh_alias(self):
        self.counter += 1
        return f"{self.ident()}.{self.ident()}{self.counter}" if self.coin(0.7) else f"{self.ident()}.{self.ident()}.T{self.counter}"

    def intval(self, lo, hi, pool=()):
        r = self.r
        c = r.random()
        if c < 0.6 and pool:
            v = r.choice(pool)
        elif c < 0.85:
            v = r.choice(self.ints)
        else:
            v = int(2 ** r.uniform(0, max(1, hi.bit_length())))
        if v < lo or v > hi:
            v = r.randint(lo, min(hi, lo + 200))
        return v

    def bits(self):
        return self.intval(1, 2**31 - 1, [1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 2**31 - 1])

    def nbytes(self):
        return self.intval(1, M.I63, [1, 2, 15, 16, 17, 31, 32, 36, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, M.I63, M.I63 - 1])

    def json(self, depth=2):
        r = self.r
        c = r.random()
        if c < 0.2:
            return None
        if c < 0.3:
            return self.coin()
        if c < 0.5:
            return r.choice([0, 1, -1, 42, 2**31, -(2**63), r.choice(self.ints)])
        if c < 0.6:
            return r.choice([0.0, 1.5, -2.25, 1e300])
        if c < 0.85 or depth == 0:
            return self.word()
        if c < 0.93:
            return [self.json(depth - 1) for _ in range(r.randint(0, 3))]
        return {self.word(): self.json(depth - 1) for _ in range(r.randint(0, 2))}

    def extras(self, p=0.25):
        x = {}
        while self.coin(p) and len(x) < 4:
            r = self.r
            key = r.choice(["precision", "scale", "unit", "timezone", "foo", "x-y", self.word()])
            if key in RESERVED or not isinstance(key, str):
                continue
            if key == "precision" or key == "scale":
                x[key] = r.choice([0, 1, 5, 10, 28, 38])
            elif key == "unit":
                x[key] = r.choice(UNITS)
            else:
                x[key] = self.json()
        return x

    def common(self, n, doc=0.2, logical=0.12, alias=0.0, default=0.1):
        if self.coin(doc):
            n["doc"] = self.text()
        if n["k"] == "ref":
            logical = 0.0
        if self.coin(logical):
            n["logical"] = self.r.choice(
                ["build.recap.UUID", "build.recap.Decimal", "build.recap.Time", "build.recap.Timestamp", "build.recap.Date",
                 "build.recap.Duration", "build.recap.Interval", "my.Logical", self.word() or "l"]
            )
        n["x"].update(self.extras())
        if n["k"] != "ref" and self.coin(0.06):
            # an attribute that means something on another kind of type
            own = {"int": ["bits", "signed"], "float": ["bits"], "string": ["bytes", "variable"], "bytes": ["bytes", "variable"], "list": ["values", "length", "variable"], "map": ["keys", "values"],
                   "struct": ["fields"], "enum": ["symbols"], "union": ["types"]}
            key = self.r.choice(["values", "keys", "fields", "types", "types", "values", "symbols", "bits", "bytes", "length", "signed", "variable"])
            if key not in own.get(n["k"], ()):
                t = self.r.choice([{"type": "int", "bits": 32}, {"type": "string"}, "int8", "null", {"type": "bool", "doc": None}])
                u = {"type": "union", "types": ["null", t], "default": self.r.choice([None, 5])}
                n["x"][key] = self.r.choice([t, u, [t], [t, t], [u, t], self.json()]) if self.coin(0.4) else [t, u] if key in ("types", "fields") else t
        if self.coin(default):
            n["x"]["default"] = self.json()
        return n

    def node(self, depth=3, scope=None, aliases=True, top=False, decorate=True):
        """`scope`: list of aliases that references may name (filled as types are made)."""
        r = self.r
        scope = scope if scope is not None else []
        if depth > 1 and self.coin(0.002):
            n = self.node(0, scope, aliases, decorate=decorate)
            for _ in range(self.span(4, 40)):
                c = r.randrange(4)
                n = M.lst(n) if c == 0 else M.mp(M.ref("string32"), n) if c == 1 else M.union([n]) if c == 2 else M.struct([n])
            return n
        weights = [("null", 1), ("bool", 1), ("int", 3), ("float", 2), ("string", 2), ("bytes", 2), ("enum", 1), ("builtin", 3), ("ref", 2 if scope else 0)]
        if depth > 0:
            weights += [("list", 2), ("map", 2), ("struct", 3), ("union", 4)]
        k = r.choices([w[0] for w in weights], [w[1] for w in weights])[0]
        alias = None
        if aliases and k not in ("builtin", "ref") and self.coin(0.15):
            alias = self.fresh_alias()
        sub = lambda: self.node(depth - 1, scope, aliases, decorate=decorate)
        if k == "null":
            n = M.null()
        elif k == "bool":
            n = M.boolean()
        elif k == "int":
            n = M.integer(self.bits(), self.coin(0.7))
        elif k == "float":
            n = M.flt(self.bits() if self.coin() else r.choice([16, 32, 64]))
        elif k in ("string", "bytes"):
            b = self.nbytes() if self.coin(0.75) else None
            n = M.node(k, bytes=b, variable=True if b is None else self.coin(0.6))
        elif k == "enum":
            n = M.enum([self.word() for _ in range(self.few(0, 1, 2, 3, 4))])
        elif k == "builtin":
            if self.coin(0.4):
                import copy

                n = copy.deepcopy(M.BUILTINS[r.choice(list(M.BUILTINS))])
                if self.coin(0.3):
                    self.tweak(n)
            else:
                n = M.ref(r.choice(list(M.BUILTINS)))
        elif k == "ref":
            n = M.ref(r.choice(scope))
        elif k == "list":
            ln = self.nbytes() if self.coin(0.4) else None
            n = M.lst(sub(), ln, True if ln is None else self.coin())
        elif k == "map":
            n = M.mp(sub(), sub())
        elif k == "struct":
            fs = []
            k = r.choices([0, 1, 2, 3, 5, 9], [20, 60, 60, 40, 20, 2 if depth < 3 else 1])[0]
            if self.coin(0.001):
                k, depth = self.span(10, 600), 1
            for _ in range(k):
                f = sub() if not fs or self.coin(0.97) else self.twin(r.choice(fs))
                if self.coin(0.9):
                    f["x"]["name"] = self.word()
                fs.append(f)
            n = M.struct(fs)
        else:
            ts = []
            for _ in range(r.choices([0, 1, 2, 3, 4, 7], [10, 50, 30, 10, 4, 1])[0]):
                ts.append(sub() if not ts or self.coin(0.95) else self.twin(r.choice(ts)))
            if self.coin(0.6) and not any(M.is_plain_null(t) for t in ts):
                ts.insert(r.randint(0, len(ts)) if self.coin(0.4) else 0, M.null())
            n = M.union(ts)
            # only one plain null per union
            nulls = [t for t in ts if M.is_plain_null(t)]
            if len(nulls) > 1:
                n["types"] = nulls[:1] + [t for t in ts if not M.is_plain_null(t)]
            if self.coin(0.45):
                n["x"]["default"] = None if self.coin(0.6) else self.json()
        if decorate and self.coin(0.5):
            n = self.common(n)
            if n["k"] == "null" and n["x"].get("default", 0) is None and self.coin():
                n["x"].pop("default")
        if alias:
            n["alias"] = alias
            scope.append(alias)
        return n

    def twin(self, n):
        """The same type again (what it defines is only defined once)."""
        import copy

        n = copy.deepcopy(n)
        for m in M.walk(n):
            if m["k"] != "ref":
                m["alias"] = None
        return n

    def tweak(self, n):
        """Change one attribute slightly, to get near misses of built-in aliases."""
        ks = [a for a in ("bits", "signed", "bytes", "logical") if a in n and n[a] is not None]
        ks += ["x:" + a for a in n["x"]] + ["add"]
        a = self.r.choice(ks)
        if a == "bits":
            n["bits"] = max(1, n["bits"] + self.r.choice([-1, 1]))
        elif a == "signed":
            n["signed"] = not n["signed"]
        elif a == "bytes":
            n["bytes"] = max(1, min(M.I63, n["bytes"] + self.r.choice([-1, 1])))
        elif a == "logical":
            n["logical"] = self.r.choice([None, "other.Logical"])
        elif a == "add":
            n["x"]["extra"] = self.json()
        else:
            key = a[2:]
            if self.coin():
                n["x"].pop(key)
            else:
                v = n["x"][key]
                n["x"][key] = v + 1 if isinstance(v, int) else self.r.choice(UNITS + ["UTC", "other"])
        return n
