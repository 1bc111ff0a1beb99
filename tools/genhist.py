"""Trees of modules for the generated-text checks.  A valid order of the text is drawn first, so that the tree can be
declared once in one text; names are drawn so that their alphabetical order says nothing about that order."""
from xt import *

KINDS = ["struct"] * 5 + ["union"] * 2 + ["enum"] * 2 + ["alias"] * 3 + ["const"] * 2


class GenHist:
    def __init__(self, rng, io, p):
        self.r, self.io, self.p = rng, io, p
        self.vals = Values(rng)

    def episode(self, length):
        self.io.begin()
        for _ in range(length):
            self.io.cmd(self.tree())
        self.io.end()

    # ---- names ----
    def name(self, m):
        r = self.r
        scope_names = self.names[m - 1]
        for _ in range(60):
            n = r.choice(self.pool)
            if n not in scope_names and n not in self.keep.get(m, ()) and (self.shadow or n not in self.used):
                self.used.add(n)
                return n
        while True:
            n = "".join(r.choice("ABCDEFXYZabcxyz_") for _ in range(4)) + "0"
            if n not in self.used and n[0] != "_":
                self.used.add(n)
                return n

    # ---- trees ----
    def tree(self):
        r = self.r
        self.shadow = r.random() < self.p.get("shadow", 0.4)
        self.pool = ["A", "B", "C", "D", "E", "M", "N", "S", "T", "U", "X", "Y", "Z", "a", "b", "c", "m", "n", "x", "AA", "Ab", "Z1",
                     "in_ner", "Outer", "w0", "Q", "q", "Zz", "R1", "k"]
        self.used = set()
        self.keep = {}
        self.now = ""
        self.mods = [{"n": "", "o": 0}]
        self.names = [set()]
        self.decls = []
        self.enumerators = 0
        self.fill(1, r.choice([2, 3, 4, 6, 8, 10]), 3 if r.random() < 0.8 else 0)
        return {"op": "gen", "mods": self.mods, "decls": self.decls}

    def fill(self, m, n, depth):
        r = self.r
        for _ in range(n):
            if depth and len(self.mods) < 8 and r.random() < 0.3:
                nm = self.name(m)
                self.names[m - 1].add(nm)
                self.mods.append({"n": nm, "o": m})
                self.names.append(set())
                self.fill(len(self.mods), r.choice([1, 1, 2, 3, 4]), depth - 1)
            else:
                self.declare(m)

    def refs(self, kinds, m):
        """Something declared before, of one of these kinds."""
        c = [d for d in self.decls if d["k"] in kinds and not self.ambiguous(d, m)]
        if not c:
            return None
        d = self.r.choice(c[-4:] if self.r.random() < 0.5 else c)
        unique = sum(1 for x in self.decls if x["n"] == d["n"]) == 1 and all(x["n"] != d["n"] for x in self.mods) and not self.shadow
        raw = int(unique and d["k"] in ("struct", "union") and self.r.random() < self.p.get("raw", 0.2))
        return {"k": "ref", "m": d["m"], "n": d["n"], "kind": d["k"], "raw": raw}

    def ambiguous(self, d, m):
        """Declared in the root, and in this module its name is that of something else, or will be: a known finding."""
        if d["m"] == 1 and m != 1:
            if d["n"] in self.names[m - 1] or d["n"] == self.now:
                return True
            self.keep.setdefault(m, set()).add(d["n"])
        return False

    def bound(self, m):
        return self.r.randint(1, m) if self.r.random() < 0.5 else 0

    def type(self, m, depth=2, arrays=True):
        r = self.r
        x = r.random()
        if x < 0.45 or depth == 0:
            t = self.refs(["struct", "union", "enum", "alias"], m)
            if t:
                return t
        if x < 0.6 or depth == 0:
            return {"k": r.choice(PRIMS)}
        if x < 0.7:
            return {"k": r.choice(STRS), "b": self.bound(300)}
        if x < 0.8 and arrays:
            t = self.type(m, depth - 1)
            for _ in range(r.choice([1, 1, 2, 3, 3, 4])):      # of several dimensions
                t = {"k": "array", "b": r.randint(1, 70 if t["k"] != "array" else 4), "e": t}
            return t
        if x < 0.92:
            return {"k": "seq", "b": self.bound(300), "e": self.type(m, depth - 1, False)}
        return {"k": "map", "b": self.bound(40), "e": {"k": "pair", "a": self.key(m), "c": self.type(m, depth - 1, False)}}

    def key(self, m):
        r = self.r
        if r.random() < 0.4:
            return {"k": r.choice([k for k in PRIMS if k not in FLOATS])}
        if r.random() < 0.5:
            return self.refs(["struct", "enum", "alias"], m) or {"k": "u32"}
        return {"k": r.choice(STRS), "b": self.bound(20)}

    def resolve(self, t):
        while t["k"] == "ref":
            t = next(d["t"] for d in self.decls if (d["m"], d["n"], d["k"]) == (t["m"], t["n"], t["kind"]))
        return t

    def plain(self, t):
        while t["k"] == "ref" and t["kind"] == "alias":
            t = next(d["t"] for d in self.decls if (d["m"], d["n"], d["k"]) == (t["m"], t["n"], t["kind"]))
        return t

    def declare(self, m):
        r = self.r
        k = r.choice(KINDS)
        n = self.now = self.name(m)
        d = {"m": m, "k": k, "n": n}
        if k == "struct":
            p = self.refs(["struct"], m) if r.random() < 0.25 else None
            ms = [{"n": "m%d" % i if p is None else "m%d_%s" % (i, len(self.decls)), "t": self.type(m)} for i in range(r.choice([1, 1, 2, 2, 3, 3, 4, 4, 5, 0]))]
            d["t"] = {"k": "struct", "n": n, "p": [p] if p else [], "ms": ms}
        elif k == "union":
            d["t"] = self.union(m, n)
        elif k == "enum":
            es = []
            for i in range(r.randint(1, 4)):
                self.enumerators += 1
                es.append({"n": "%s%d" % (r.choice(["en_", "Z_", "A_"]), self.enumerators), "v": to_bytes(i, 4)})
            d["t"] = {"k": "enum", "n": n, "w": 4, "es": es}
        elif k == "alias":
            d["t"] = self.type(m)
        else:
            t = {"k": r.choice(PRIMS)} if r.random() < 0.6 else {"k": r.choice(STRS), "b": self.bound(20)}
            if r.random() < self.p.get("constrefs", 0):
                t = self.refs(["enum", "alias"], m) or t
                u = self.resolve(t)
                if u["k"] not in WIDTH and u["k"] not in STRS and u["k"] != "enum":
                    t = {"k": r.choice(PRIMS)}
                f = self.plain(t)
                if f["k"] == "ref" and self.ambiguous(f, m):     # its text has the type that the alias stands for
                    t = {"k": r.choice(PRIMS)}
            d.update(t=t, v=self.value(self.resolve(t)), fe=int(r.random() < 0.1))
        self.names[m - 1].add(n)
        self.decls.append(d)

    def text(self, wide):
        r = self.r
        return [ord(r.choice("abcxyzABC 0123.,:;{}()<>=-_" + ("\u00e9\u20ac\uffee" if wide else ""))) for _ in range(r.randint(0, 8))]

    def value(self, t):
        k = t["k"]
        if k == "char":
            return [ord(self.r.choice("abcXYZ 09{;"))]
        if k in ("c16", "wc"):
            return to_bytes(ord(self.r.choice("abcXYZ 09{;\u00e9\u20ac\uffee")), WIDTH[k])
        if k in STRS:
            v = self.text(k != "str")
            return v[:t["b"]] if t["b"] else v
        if k == "enum":
            return self.r.choice(t["es"])["v"]
        return self.vals.any(t)

    def union(self, m, n):
        r = self.r
        dk = r.choice(["bool", "char", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "c16", "wc", "enum", "alias"])
        disc = {"k": dk}
        if dk in ("enum", "alias"):
            disc = self.refs([dk], m) or {"k": "i32"}
            f = self.resolve(disc)
            if f["k"] not in WIDTH and f["k"] != "enum" or f["k"] in FLOATS:
                disc = {"k": "u32"}
        f = self.resolve(disc)
        if f["k"] == "enum":
            pool = [e["v"] for e in f["es"]]
        elif f["k"] == "bool":
            pool = [[0], [1]]
        elif f["k"] in CHARS:
            pool = [to_bytes(ord(c), WIDTH[f["k"]]) for c in "abcXYZ 0" + ("\u00e9\u20ac" if f["k"] != "char" else "")]
        else:
            w = WIDTH[f["k"]]
            hi = (1 << (8 * w)) - 1
            vals = [0, 1, 2, 3, 5, 100] + ([-1, -5, -(1 << (8 * w - 1))] if f["k"] in SIGNED else [200, hi, hi // 2 + 2])
            vals += ([300, 1000] if w > 1 else []) + ([70000] if w > 2 else []) + ([5000000000] if w > 4 else [])
            pool = [to_bytes(v, w) for v in vals]
        r.shuffle(pool)
        cs = []
        count = r.randint(1, 4)
        default = r.randrange(count) if r.random() < 0.5 else -1
        for i in range(count):
            take = min(len(pool), r.choice([1, 1, 2, 3]))
            if i == default and r.random() < 0.6:
                take = 0
            ls = [pool.pop() for _ in range(take)]
            if not ls and i != default:
                break
            cs.append({"n": "c%d" % i, "t": self.type(m), "ls": ls, "df": i == default})
        if not cs:
            cs = [{"n": "c0", "t": self.type(m), "ls": [], "df": True}]
        return {"k": "union", "n": n, "d": disc, "cs": cs}
