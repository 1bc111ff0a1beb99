"""Type terms and values shared by the generators (the notation of spec/XTypes.tla)."""
import collide
import random

WIDTH = dict(bool=1, char=1, c16=2, wc=4, i8=1, u8=1, i16=2, u16=2, i32=4, u32=4, i64=8, u64=8, f32=4, f64=8, f128=16)
PRIMS = list(WIDTH)
FLOATS = ["f32", "f64", "f128"]
SIGNED = ["i8", "i16", "i32", "i64"]
UNSIGNED = ["u8", "u16", "u32", "u64"]
INTS = SIGNED + UNSIGNED
CHARS = ["char", "c16", "wc"]
STRS = ["str", "wstr", "u16str"]
CHAR_OF = dict(str="char", wstr="wc", u16str="c16")


def U(t):
    while t["k"] == "alias":
        t = t["e"]
    return t


def members(t):
    return (members(t["p"][0]) if t["p"] else []) + t["ms"]


def bare(t):
    """The type without names and aliases: equal for types whose instances have the same layout and meaning."""
    t = U(t)
    k = t["k"]
    if k in WIDTH:
        return k
    if k in STRS:
        return (k, t["b"])
    if k == "enum":
        return ("enum", t["w"], tuple((e["n"], tuple(e["v"])) for e in t["es"]))
    if k in ("array", "seq", "map"):
        return (k, t["b"], bare(t["e"]))
    if k == "pair":
        return (k, bare(t["a"]), bare(t["c"]))
    if k == "struct":
        return (k, tuple((m["n"], bare(m["t"])) for m in members(t)))
    if k == "union":
        return (k, bare(t["d"]), tuple((c["n"], bare(c["t"]), tuple(tuple(l) for l in c["ls"]), c["df"]) for c in t["cs"]))
    raise ValueError(k)


def loose(t):
    """bare() without the bounds of sequences, maps and strings: values of such types can be compared."""
    def strip(b):
        if isinstance(b, tuple):
            if b and b[0] in STRS:
                return (b[0],)
            if b and b[0] in ("seq", "map"):
                return (b[0],) + tuple(strip(x) for x in b[2:])
            return tuple(strip(x) for x in b)
        return b
    return strip(bare(t))


def contains(t, kinds):
    t = U(t)
    k = t["k"]
    if k in kinds:
        return True
    if k in ("array", "seq", "map"):
        return contains(t["e"], kinds)
    if k == "pair":
        return contains(t["a"], kinds) or contains(t["c"], kinds)
    if k == "struct":
        return any(contains(m["t"], kinds) for m in members(t))
    if k == "union":
        return any(contains(c["t"], kinds) for c in t["cs"])
    return False


def takes_memory(t):
    t = U(t)
    k = t["k"]
    if k == "array":
        return t["b"] > 0 and takes_memory(t["e"])
    if k == "pair":
        return takes_memory(t["a"]) or takes_memory(t["c"])
    return k != "struct" or any(takes_memory(m["t"]) for m in members(t))


def to_bytes(v, n):
    return list((v % (1 << (8 * n))).to_bytes(n, "little"))


def from_bytes(b, signed=False):
    return int.from_bytes(bytes(b), "little", signed=signed)


def disc_width(u):
    d = U(u["d"])
    return d["w"] if d["k"] == "enum" else WIDTH[d["k"]]


BIG = [255, 256, 257, 300]          # sizes that don't fit in a byte


class Types:
    """Random types.  opt: features wanted, with their defaults."""

    def __init__(self, rng, **opt):
        self.rng = rng
        self.n = 0
        self.o = dict(prims=PRIMS, strs=STRS, kinds=["prim", "str", "enum", "array", "seq", "map", "struct", "union"],
                      alias=0.2, depth=3, bound=0.5, maxdim=3, arraymap=True, floats=True, parent=0.2,
                      pairkeys=0.05, pairs=0.04, big=0.02, none=0.03)
        self.large = 0
        self.o.update(opt)

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def prim(self):
        ks = [k for k in self.o["prims"] if self.o["floats"] or k not in FLOATS]
        return {"k": self.rng.choice(ks)}

    def string(self):
        return {"k": self.rng.choice(self.o["strs"]), "b": self.bound(6)}

    def bound(self, m):
        if self.rng.random() < self.o["big"]:
            return self.rng.choice(BIG)
        return self.rng.randint(1, m) if self.rng.random() < self.o["bound"] else 0

    def enum(self, w=None):
        r = self.rng
        w = w or r.choice([1, 2, 4])
        n = r.randint(1, 4)
        lim = {1: 255, 2: 60000, 4: 3000000000}[w]
        vals = sorted(r.sample(range(0, min(lim, 12)), n - 1) + [r.choice([r.randint(0, 12), r.randint(0, lim)])]) if n > 1 else [r.randint(0, 12)]
        vals = sorted(set(vals))
        nm = self.name("E")
        return {"k": "enum", "n": nm, "w": w,
                "es": [{"n": "%s_%d" % (nm, i), "v": to_bytes(v, w)} for i, v in enumerate(vals)]}

    def maybe_alias(self, t):
        while self.rng.random() < self.o["alias"]:
            t = {"k": "alias", "n": self.name("A"), "e": t}
        return t

    def any(self, depth=None):
        d = self.o["depth"] if depth is None else depth
        kinds = self.o["kinds"]
        if d <= 0:
            kinds = [k for k in kinds if k in ("prim", "str", "enum")] or ["prim"]
        k = "pair" if d > 0 and self.rng.random() < self.o["pairs"] else self.rng.choice(kinds)
        return self.maybe_alias(self.of(k, d))

    def of(self, k, d):
        r = self.rng
        if k == "prim":
            return self.prim()
        if k == "str":
            return self.string()
        if k == "enum":
            return self.enum()
        if k == "array":
            e = self.any(d - 1)
            md = {"md": 1} if e["k"] == "array" and r.random() < 0.4 else {}
            n = 0 if r.random() < self.o["none"] else r.randint(1, self.o["maxdim"])
            if n and U(e)["k"] in WIDTH and self.large < 1 and r.random() < 2 * self.o["big"]:
                self.large += 1
                n = r.choice(BIG)
            return {"k": "array", "b": n, "e": e, **md}
        if k == "seq":
            return {"k": "seq", "b": self.bound(5), "e": self.any(d - 1)}
        if k == "map":
            if r.random() < self.o["none"]:          # nothing in the keys, nothing in the values
                return {"k": "map", "b": self.bound(4), "e": {"k": "pair", "a": self.nothing(), "c": self.nothing() if r.random() < 0.7 else self.any(d - 1)}}
            return {"k": "map", "b": self.bound(4), "e": {"k": "pair", "a": self.key(d - 1), "c": self.any(d - 1)}}
        if k == "pair":
            return {"k": "pair", "a": self.any(d - 1), "c": self.any(d - 1)}
        if k == "struct":
            return self.struct(d)
        if k == "union":
            return self.union(d)
        raise ValueError(k)

    def nothing(self):
        if self.rng.random() < 0.5:
            return self.maybe_alias({"k": "array", "b": 0, "e": self.prim()})
        return self.maybe_alias({"k": "struct", "n": self.name("S"), "p": [], "ms": []})

    def key(self, d):
        r = self.rng
        if r.random() < self.o["pairkeys"]:      # keys for which many values share one hash (collide.py)
            wide = lambda: self.maybe_alias({"k": r.choice(["u64", "i64"])})
            if r.random() < 0.4:
                return self.maybe_alias({"k": "array", "b": 2, "e": wide()})
            nm = self.name("S")
            return self.maybe_alias({"k": "struct", "n": nm, "p": [], "ms": [{"n": "m%s_%d" % (nm, i), "t": wide()} for i in (0, 1)]})
        x = r.random()
        if x < 0.4:
            return self.maybe_alias({"k": r.choice([k for k in self.o["prims"] if k not in FLOATS])})
        if x < 0.75:
            return self.maybe_alias({"k": r.choice(self.o["strs"]), "b": self.bound(6)})
        if x < 0.85 and "enum" in self.o["kinds"]:
            return self.maybe_alias(self.enum())
        while True:
            t = self.any(min(d, 1))
            if not contains(t, ["union"]):
                return t

    def struct(self, d, n=None):
        r = self.rng
        p = []
        if r.random() < self.o["parent"]:
            p = [self.struct(d - 1, r.randint(1, 2))]
        nm = self.name("S")
        ms = [{"n": "m%s_%d" % (nm, i), "t": self.any(d - 1)} for i in range(0 if r.random() < self.o["none"] else n or r.choice([1, 2, 2, 3, 3, 4]))]
        return {"k": "struct", "n": nm, "p": p, "ms": ms}

    def union(self, d):
        r = self.rng
        dk = r.choice(["bool", "char", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "c16", "wc", "enum", "enum", "enum"])
        disc = self.enum() if dk == "enum" else {"k": dk}
        w = disc["w"] if dk == "enum" else WIDTH[dk]
        if dk == "enum":
            pool = [e["v"] for e in disc["es"]]
        elif dk == "bool":
            pool = [[0], [1]]
        else:
            lim = (1 << (8 * w - 1)) - 1
            hi = (1 << (8 * w)) - 1
            vals = list(range(0, 6)) + ([-1, -5, 100, -(1 << (8 * w - 1))] if dk in SIGNED else [200, 100, hi, hi - 3, hi // 2 + 2])
            if w > 1:
                vals += [300, 1000]
            if w > 2:
                vals += [70000]
            pool = [to_bytes(v, w) for v in vals if v != lim]
        r.shuffle(pool)
        nm = self.name("U")
        n = r.randint(1, 3)
        default = r.randrange(n) if r.random() < 0.5 else -1
        cs = []
        for i in range(n):
            take = min(len(pool), r.choice([1, 1, 2]))
            if i == default and r.random() < 0.6:
                take = 0
            ls = [pool.pop() for _ in range(take)]
            if not ls and i != default:
                break
            cs.append({"n": "c%s_%d" % (nm, i), "t": self.any(d - 1), "ls": ls, "df": i == default})
        if not cs:
            cs = [{"n": "c%s_0" % nm, "t": self.any(d - 1), "ls": [], "df": True}]
        return {"k": "union", "n": nm, "d": self.maybe_alias(disc), "cs": cs}

    def realias(self, t, p):
        """The same type with aliases at other positions"""
        t = U(t)
        k = t["k"]
        again = lambda x: self.realias(x, p)
        if k in ("array", "seq", "map"):
            t = dict(t, e=again(t["e"]) if k != "map" else dict(U(t["e"]), a=again(U(t["e"])["a"]), c=again(U(t["e"])["c"])))
        elif k == "pair":
            t = dict(t, a=again(t["a"]), c=again(t["c"]))
        elif k == "struct":
            t = dict(t, n=self.name("S"), p=[], ms=[dict(m, t=again(m["t"])) for m in members(t)])
        elif k == "union":
            t = dict(t, n=self.name("U"), d=again(t["d"]) if self.rng.random() < 0.5 else t["d"],
                     cs=[dict(c, t=again(c["t"])) for c in t["cs"]])
        while self.rng.random() < p:
            t = {"k": "alias", "n": self.name("A"), "e": t}
        return t

    # ---- a type related to t: often convertible, often equal, sometimes neither ----
    def variant(self, t, p=0.25):
        r = self.rng
        k = t["k"]
        hit = r.random() < p
        if hit and r.random() < 0.4:
            return {"k": "alias", "n": self.name("A"), "e": self.variant(t, p / 2)}
        if hit and r.random() < 0.2:
            nm = self.name("S")
            return {"k": "struct", "n": nm, "p": [], "ms": [{"n": "m%s_0" % nm, "t": self.variant(t, p / 2)}]}
        if k == "alias":
            return self.variant(t["e"], p) if r.random() < 0.5 else {"k": "alias", "n": t["n"], "e": t["e"]}
        if k in WIDTH:
            if not hit:
                return t
            x = r.random()
            if x < 0.15:
                return {"k": "enum", "n": self.name("E"), "w": 2, "es": [{"n": "x%d" % self.n, "v": [3, 0]}]}
            if x < 0.25:
                return self.string()
            return self.prim()
        if k in STRS:
            if not hit:
                return t
            return {"k": k, "b": self.bound(6)} if r.random() < 0.85 else self.string()
        if k == "enum":
            if not hit:
                return t
            return self.enum() if r.random() < 0.5 else {"k": r.choice(["u8", "u16", "u32", "i32"])}
        if k == "array":
            return {"k": k, "b": r.randint(1, self.o["maxdim"]) if hit else t["b"], "e": self.variant(t["e"], p)}
        if k == "seq":
            return {"k": k, "b": self.bound(5) if hit else t["b"], "e": self.variant(t["e"], p)}
        if k == "map":
            e = t["e"] if r.random() < 0.7 else self.variant(t["e"], p)
            if e["k"] != "pair" or contains(e["a"], ["union"]):
                e = t["e"]
            return {"k": k, "b": self.bound(4) if hit else t["b"], "e": e}
        if k == "pair":
            return {"k": k, "a": self.variant(t["a"], p), "c": self.variant(t["c"], p)}
        if k == "struct":
            ms = [dict(m) for m in members(t)]
            nm = self.name("S")
            out = []
            for m in ms:
                out.append({"n": ("r%s_%s" % (nm, m["n"])) if r.random() < p / 3 else m["n"], "t": self.variant(m["t"], p)})
            if hit:
                x = r.random()
                if x < 0.4:
                    out = out[:r.randint(0, len(out))] or out[:1]
                elif x < 0.8:
                    out.append({"n": "x" + nm, "t": self.any(1)})
            return {"k": k, "n": nm, "p": [], "ms": out}
        if k == "union":
            nm = self.name("U")
            cs = [dict(c) for c in t["cs"]]
            cs = [dict(c, t=self.variant(c["t"], p), n=c["n"] if r.random() > p / 3 else "cr%s_%s" % (nm, c["n"])) for c in cs]
            if hit and len(cs) > 1 and r.random() < 0.5:
                cs = cs[:-1]
            d = t["d"]
            if hit and U(d)["k"] in INTS and r.random() < 0.3:
                widest = max([from_bytes(l) for c in cs for l in c["ls"]] + [0])
                if widest < 100:
                    d = {"k": r.choice(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"])}
                    w = WIDTH[d["k"]]
                    cs = [dict(c, ls=[to_bytes(from_bytes(l), w) for l in c["ls"]]) for c in cs]
            elif hit and r.random() < 0.3:
                w = disc_width(t)
                if U(d)["k"] in INTS:
                    used = [l for c in cs for l in c["ls"]]
                    i = r.randrange(len(cs))
                    if cs[i]["ls"]:
                        new = to_bytes(r.choice([7, 8, 9]), w)
                        if new not in used:
                            cs[i] = dict(cs[i], ls=cs[i]["ls"][:-1] + [new])
            return {"k": k, "n": nm, "d": d, "cs": cs}
        raise ValueError(k)


class Values:
    def __init__(self, rng, printable=False, wide=True):
        self.rng = rng
        self.wide = wide
        self.printable = printable
        self.pools = {raw: [x for _ in range(2) for x in collide.group(rng, 6, raw)] for raw in (False, True)}

    def colliding(self, t):
        """For two 64 bits parts, a value that shares its hash with others"""
        if t["k"] == "array" and t["b"] == 2 and WIDTH.get(U(t["e"])["k"]) == 8 and U(t["e"])["k"] in INTS:
            pool = self.pools[True]
        elif t["k"] == "struct" and [U(m["t"])["k"] in ("u64", "i64") for m in members(t)] == [True, True]:
            pool = self.pools[False]
        else:
            return None
        return [to_bytes(x, 8) for x in self.rng.choice(pool)] if self.rng.random() < 0.7 else None

    def code(self, k):
        r = self.rng
        if not self.printable and r.random() < 0.03:
            return 0
        if k == "char" or self.printable or r.random() < 0.8:
            return r.choice([r.randint(97, 102), r.randint(97, 122), r.randint(33, 126)])
        return r.choice([0x100, 0x3b1, 0x20ac, 0x7fff, 0xfffd, 0x1234])

    def text(self, k, n=None):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 5, 7, 16, 24]) if n is None else n
        return [self.code(CHAR_OF[k]) for _ in range(n)]

    def prim(self, k):
        r = self.rng
        if k in FLOATS:
            if k != "f32" and self.wide and r.random() < 0.15:
                return [r.randint(-(1 << 29), 1 << 29) | 1]         # exact in these, not in a float
            return [r.choice([0, 1, -1, 4, -6, 10, r.randint(-400, 400), r.randint(-30000, 30000)])]
        if k == "bool":
            return [r.randint(0, 1)]
        if k in CHARS:
            return to_bytes(self.code(k), WIDTH[k])
        w = WIDTH[k]
        x = r.random()
        if x < 0.5:
            v = r.randint(0, 9)
        elif x < 0.65:
            v = -r.randint(1, 9)
        elif x < 0.85:
            v = r.choice([127, 128, 255, 256, 1000, -128, -129, 32767, 65535, 65536, (1 << (8 * w - 1)) - 1, 1 << (8 * w - 1), (1 << (8 * w)) - 1])
        else:
            v = r.getrandbits(8 * w)
        return to_bytes(v, w)

    def any(self, t, budget=3):
        t = U(t)
        k = t["k"]
        r = self.rng
        c = self.colliding(t)
        if c is not None:
            return c
        if k in WIDTH:
            return self.prim(k)
        if k == "enum":
            return r.choice([e["v"] for e in t["es"]])
        if k in STRS:
            n = r.choice([0, 1, 2, 3, 5, 9, 20])
            if (t["b"] == 0 or t["b"] in BIG) and r.random() < (0.02 if t["b"] == 0 else 0.2):
                n = r.choice(BIG)
            return self.text(k, min(n, t["b"]) if t["b"] else n)
        if k == "array":
            return [self.any(t["e"], budget - 1) for _ in range(t["b"])]
        if k == "seq":
            n = r.randint(0, min(t["b"] or 3, max(budget, 1)))
            if U(t["e"])["k"] in WIDTH and r.random() < 0.4:
                n = min(t["b"] or 12, r.randint(4, 12))
                if (t["b"] == 0 or t["b"] in BIG) and budget > 1 and r.random() < (0.04 if t["b"] == 0 else 0.3):
                    n = min(t["b"] or 300, r.choice(BIG))
            return [self.any(t["e"], budget - 1) for _ in range(n)]
        if k == "map":
            n = r.randint(0, min(t["b"] or 3, max(budget, 1)))
            out = []
            for _ in range(n):
                key = self.any(t["e"]["a"], budget - 1)
                if not any(same(t["e"]["a"], key, x[0]) for x in out) and not contains(t["e"]["a"], ["union"]):
                    out.append([key, self.any(t["e"]["c"], budget - 1)])
            return out
        if k == "pair":
            return [self.any(t["a"], budget - 1), self.any(t["c"], budget - 1)]
        if k == "struct":
            return [self.any(m["t"], budget - 1) for m in members(t)]
        if k == "union":
            if r.random() < 0.1:
                return [[0] * disc_width(t), 0]
            i = r.randrange(len(t["cs"]))
            return [[0] * disc_width(t), i + 1, self.any(t["cs"][i]["t"], budget - 1)]
        raise ValueError(k)


    def near(self, t, v):
        """A value like v, but for one part of it (or like v, sometimes)"""
        t = U(t)
        k = t["k"]
        r = self.rng
        if k in STRS:
            if v and r.random() < 0.7:
                i = r.choice([0, len(v) - 1, r.randrange(len(v))])
                return v[:i] + [self.code(CHAR_OF[k])] + v[i + 1:]
            return v[:-1] if v else self.any(t)
        if k == "bool" or k == "enum" or k in FLOATS:
            return self.any(t)
        if k in WIDTH:
            i = r.randrange(len(v))
            return v[:i] + [(v[i] ^ (1 << r.randrange(7)))] + v[i + 1:] if k in INTS else self.any(t)
        if k in ("array", "seq"):
            if not v or (k == "seq" and r.random() < 0.15):
                return v[:-1] if k == "seq" and v else self.any(t, 2)
            i = r.choice([0, len(v) - 1, r.randrange(len(v))])
            return v[:i] + [self.near(t["e"], v[i])] + v[i + 1:]
        if k == "map":
            if not v or r.random() < 0.15:
                return v[:-1] if v else self.any(t, 2)
            i = r.randrange(len(v))
            return v[:i] + [[v[i][0], self.near(t["e"]["c"], v[i][1])]] + v[i + 1:]
        if k == "pair":
            i = r.randint(0, 1)
            return [self.near(t["a"], v[0]) if i == 0 else v[0], self.near(t["c"], v[1]) if i else v[1]]
        if k == "struct":
            if not v:
                return v
            i = r.randrange(len(v))
            return v[:i] + [self.near(members(t)[i]["t"], v[i])] + v[i + 1:]
        return v


def same(t, a, b):
    """Conservative: may say two equal values are equal although the library holds them apart, never the reverse."""
    return norm(t, a) == norm(t, b)


def declared(t, v):
    """Does a value of a type without unions hold only declared values of its enumerations? (others come from conversions)"""
    t = U(t)
    k = t["k"]
    if k == "enum":
        return any(list(e["v"]) == list(v) for e in t["es"])
    if k in ("array", "seq", "map"):
        return all(declared(t["e"], x) for x in v)
    if k == "pair":
        return declared(t["a"], v[0]) and declared(t["c"], v[1])
    if k == "struct":
        return all(declared(m["t"], x) for m, x in zip(members(t), v))
    return True


def norm(t, v):
    t = U(t)
    k = t["k"]
    if k in WIDTH or k == "enum" or k in STRS:
        return tuple(v)
    if k in ("array", "seq"):
        return tuple(norm(t["e"], x) for x in v)
    if k == "map":
        return frozenset((norm(t["e"]["a"], x[0]), norm(t["e"]["c"], x[1])) for x in v)
    if k == "pair":
        return (norm(t["a"], v[0]), norm(t["c"], v[1]))
    if k == "struct":
        return tuple(norm(m["t"], x) for m, x in zip(members(t), v))
    if k == "union":
        return (v[1],) + ((norm(t["cs"][v[1] - 1]["t"], v[2]),) if v[1] else ())
