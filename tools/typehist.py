"""Histories of type declarations, generated while they run from what the library reports about the types so far."""
import json, random
from xt import *
from hist import Gone

NTYPES, NDATA, NHELD = 5, 2, 3
SIMPLE = [{"k": k} for k in PRIMS] + [{"k": "str", "b": 0}, {"k": "str", "b": 7}, {"k": "wstr", "b": 0}, {"k": "u16str", "b": 3}]
LABELS = ["i64", "i32", "u32", "u8", "i8", "char"]
LWIDTH = dict(i64=8, i32=4, u32=4, u8=1, i8=1, char=1)
SWIDTH = dict(bool=1, char=1, c16=2, wc=4, i8=1, u8=1, i16=2, u16=2, i32=4, u32=4, i64=8, u64=8)

WEIGHTS = dict(struct=5, member=16, union=5, case=16, enum=4, enumerator=12, alias=3, array=2, seq=3, map=2, pair=1, rename=3,
               copy=4, move=2, delete=2, data=4, ddel=1, find=6, at=4, enumat=3, labels=4, parent=3, same=5,
               arrays=1, setpair=2, hold=4, hcopy=2, hassign=4, hmove=2, hfree=1, hname=3, huse=2)


def size(d):
    """A measure of a description."""
    return 1 + sum(size(x) for x in d) if isinstance(d, list) else 1


class TypeHist:
    def __init__(self, rng, io, types, prof):
        self.r, self.io, self.ts, self.prof = rng, io, types, prof
        self.weights = dict(WEIGHTS, **prof.get("ops", {}))
        self.n = 0

    def episode(self, n):
        self.d = [[] for _ in range(NTYPES)]
        self.data = [[] for _ in range(NDATA)]
        self.held = [[] for _ in range(NHELD)]
        self.n = 0
        self.io.begin()
        names = list(self.weights)
        ws = [self.weights[x] for x in names]
        done = tries = 0
        while done < n and tries < 30 * n:
            tries += 1
            c = getattr(self, "op_" + self.r.choices(names, ws)[0])()
            if c is None:
                continue
            done += 1
            e = self.io.cmd(c)
            if e.get("bad", 1) or e.get("op") == "skip":
                break
            self.d, self.data, self.held = e["st"]
        self.io.end()

    # ---- choices ----
    def of(self, *ks):
        s = [i for i, d in enumerate(self.d) if d and d[0] in ks]
        return self.r.choice(s) + 1 if s else None

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def slot(self):
        """A slot to put a type in: an empty one if there is any, mostly."""
        free = [i for i, d in enumerate(self.d) if not d]
        return (self.r.choice(free) if free and self.r.random() < 0.8 else self.r.randrange(NTYPES)) + 1

    def src(self, limit=120):
        s = [i + 1 for i, d in enumerate(self.d) if d and size(d) < limit]
        if s and self.r.random() < 0.55:
            return ["s", self.r.choice(s)]
        return ["t", self.r.randrange(len(self.ts)) + 1]

    def tname(self):
        return self.r.choice(["T%d" % self.r.randint(1, 6), "Name_%d" % self.r.randint(1, 4)])

    def mname(self):
        return "m%d" % self.r.randint(1, 9)

    def flags(self, c):
        r = self.r
        c.update(id=r.choice([[], [], [r.randint(0, 99)], [-1]]), key=int(r.random() < 0.3), opt=int(r.random() < 0.3))
        return c

    # ---- operations ----
    def op_struct(self):
        s = self.slot()
        f = self.of("struct") if self.r.random() < 0.55 else None
        if f and size(self.d[f - 1]) > 120:
            f = None
        return dict(op="struct", s=s, n=self.tname(), f=f or 0)

    def op_member(self):
        s = self.of("struct")
        if not s or size(self.d[s - 1]) > 250:
            return None
        n = self.mname()
        have = [m[0] for m in self.d[s - 1][3]]
        if have and self.r.random() < 0.12:
            n = self.r.choice(have)
        return self.flags(dict(op="member", s=s, n=n, src=self.src(), how=self.r.choice([0, 0, 1, 2])))

    def op_union(self):
        r = self.r
        x = r.random()
        e = self.of("enum", "alias")
        if e and x < 0.3:
            src = ["s", e]
        elif x < 0.9:
            some = [i + 1 for i, t in enumerate(self.ts) if U(t)["k"] in SWIDTH or U(t)["k"] == "enum"]
            named = [i for i in some if self.ts[i - 1]["k"] == "alias"]
            src = ["t", r.choice(named if named and r.random() < self.prof.get("named", 0.2) else some)]
        else:
            src = self.src()
        if src[0] == "s" and self.d[src[1] - 1][0] == "enum" and not self.d[src[1] - 1][3]:
            return None
        return dict(op="union", s=self.slot(), n=self.tname(), src=src)

    def disc(self, d):
        while d[0] == "alias":
            d = d[2]
        return d

    def op_case(self):
        r = self.r
        s = self.of("union")
        if not s or size(self.d[s - 1]) > 300:
            return None
        u = self.d[s - 1]
        d = self.disc(u[2])
        w = d[2] if d[0] == "enum" else SWIDTH[d[0]]
        have = [m[0] for m in u[5]]
        used = [l for m in u[5] for l in m[5]]
        n = self.mname()
        x = r.random()
        if x < 0.08 and have:
            n = r.choice(have)
        elif x < 0.1:
            n = "discriminator"
        c = self.flags(dict(op="case", s=s, n=n, src=self.src(), how=r.choice([0, 0, 1]), df=False))
        if r.random() < 0.3:
            c["how"] = 0
            c.update(self.text_labels(d, w))
            return c
        k = r.choice(LABELS)
        lw = LWIDTH[k]
        ls = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
            y = r.random()
            if y < 0.1 and used:
                l = r.choice(used)[:lw]
            elif d[0] == "enum" and d[3] and y < 0.85:
                l = (r.choice(d[3])[1] + [0] * 8)[:lw]
            elif d[0] == "bool":
                l = to_bytes(r.randint(0, 1), lw)
            else:
                v = r.choice([r.randint(0, 9), r.randint(0, 9), -r.randint(1, 5), r.randint(0, 127), 255, 300, 70000,
                              (1 << (8 * w - 1)) - 1, (1 << (8 * w - 1)) - 2])
                l = to_bytes(v, lw)
            ls.append(l)
        c.update(lk=k, ls=ls, lt=[], df=r.random() < 0.2 or (not ls and r.random() < 0.7))
        return c

    def text_labels(self, d, w):
        r = self.r
        ls = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.25:
                ls.append("default")
            elif d[0] == "bool":
                ls.append(r.choice(["TRUE", "FALSE", "TRUE", "FALSE", "1", "true"]))
            elif d[0] in CHARS:
                ch = r.choice("abcdeZ0123#")
                ls.append(r.choice([ch, "'%s'" % ch]))
            elif d[0] == "enum":
                y = r.random()
                ls.append(r.choice(d[3])[0] if d[3] and y < 0.8 else "Unknown" if y < 0.9 else str(r.randint(0, 9)))
            else:
                v = r.choice([r.randint(0, 9), r.randint(10, 120), r.randint(0, (1 << min(8 * w - 1, 20)) - 1)])
                ls.append(r.choice([str(v), str(v), hex(v), "0X%X" % v, "0%o" % v] + (["-%d" % (v + 1)] if d[0] in SIGNED else [])))
        return dict(lk="text", ls=ls, lt=[[ord(x) for x in l] for l in ls], df=False)

    def op_enum(self):
        return dict(op="enum", s=self.slot(), n=self.tname(), w=self.r.choice([1, 2, 4]))

    def op_enumerator(self):
        r = self.r
        s = self.of("enum")
        if not s or len(self.d[s - 1][3]) > 8:
            return None
        d = self.d[s - 1]
        w = d[2]
        es = d[3]
        n = "e%d" % r.randint(1, 12)
        if es and r.random() < 0.1:
            n = r.choice(es)[0]
        x = r.random()
        last = from_bytes(es[-1][1]) if es else -1
        if x < 0.45:
            v = []
        elif x < 0.75:
            v = to_bytes(min(last + r.randint(1, 5), (1 << 8 * w) - 1), w)
        elif x < 0.92:
            v = to_bytes(max(0, last - r.randint(-1, 4)), w)
        elif x < 0.96:
            v = to_bytes((1 << 8 * w) - 1 - r.randint(0, 1), w)
        else:
            v = to_bytes((1 << (8 * w - 1)) + r.randint(-1, 1), w)
        return dict(op="enumerator", s=s, n=n, v=v)

    def op_alias(self):
        return dict(op="alias", s=self.slot(), n=self.tname(), src=self.src(), how=self.r.randint(0, 1))

    def op_array(self):
        return dict(op="array", s=self.slot(), src=self.src(60), b=self.r.choice([0, 1, 1, 2, 2, 3, 3, 20]))

    def op_seq(self):
        return dict(op="seq", s=self.slot(), src=self.src(), b=self.r.choice([0, 0, 3, 12]))

    def op_map(self):
        return dict(op="map", s=self.slot(), src=self.src(60), to=self.src(60), b=self.r.choice([0, 0, 2]))

    def op_pair(self):
        return dict(op="pair", s=self.slot(), src=self.src(60), to=self.src(60))

    def op_rename(self):
        s = self.of("struct", "union", "enum", "alias", *(["array", "seq", "map", "pair"] if self.r.random() < 0.3 else []))
        return s and dict(op="rename", s=s, n=self.tname() + "_r")

    def op_arrays(self):
        r = self.r
        return dict(op="arrays", s=self.slot(), src=self.src(40), bs=[r.choice([0, 1, 1, 2, 2, 3, 3, 3]) for _ in range(r.choice([2, 2, 3, 1, 0 if r.random() < 0.2 else 2]))])

    def op_setpair(self):
        s = self.of("pair")
        return s and dict(op="setpair", s=s, i=self.r.randint(0, 1), src=self.src(60))

    # ---- pointers that hold types ----
    def holder(self):
        return self.r.randrange(NHELD) + 1

    def op_hold(self):
        return dict(op="hold", h=self.holder(), src=self.src(60), how=self.r.randint(0, 1))

    def op_hcopy(self):
        return dict(op="hcopy", h=self.holder(), g=self.holder())

    def op_hassign(self):
        return dict(op="hassign", h=self.holder(), g=self.holder())

    def op_hmove(self):
        return dict(op="hmove", h=self.holder(), g=self.holder())

    def op_hfree(self):
        return dict(op="hfree", h=self.holder())

    def op_hname(self):
        h = self.holder()
        d = self.held[h - 1]
        if d and d[0] in PRIMS:
            return None                      # those are one for all
        return dict(op="hname", h=h, n=self.tname() + "_h")

    def op_huse(self):
        return dict(op="huse", h=self.holder(), s=self.slot(), n=self.tname(), how=self.r.randint(0, 1))

    def op_copy(self):
        f = self.of("struct", "union", "alias", "array", "seq", "map", "pair")
        return f and dict(op="copy", s=self.slot(), f=f)

    def op_move(self):
        f = self.of("struct", "union", "alias", "array", "seq", "map", "pair")
        s = self.slot()
        return dict(op="move", s=s, f=f) if f and s != f else None

    def op_delete(self):
        s = [i + 1 for i, d in enumerate(self.d) if d]
        return dict(op="del", s=self.r.choice(s)) if len(s) > 2 else None

    def op_data(self):
        return dict(op="data", d=self.r.randrange(NDATA) + 1, src=self.src())

    def op_ddel(self):
        return dict(op="ddel", d=self.r.randrange(NDATA) + 1)

    def op_find(self):
        s = self.of("struct", "union", "enum")
        if not s:
            return None
        d = self.d[s - 1]
        ns = [m[0] for m in d[{"struct": 3, "union": 5, "enum": 3}[d[0]]]]
        n = self.r.choice(ns) if ns and self.r.random() < 0.75 else self.r.choice([self.mname(), "e%d" % self.r.randint(1, 12), "discriminator", ""])
        return dict(op="find", s=s, n=n)

    def op_at(self):
        s = self.of("struct", "union")
        if not s:
            return None
        d = self.d[s - 1]
        n = len(d[3]) if d[0] == "struct" else len(d[5]) + 1
        return dict(op="at", s=s, i=self.r.choice([self.r.randint(0, n), self.r.randrange(n) if n else 0, n + 5]))

    def op_enumat(self):
        s = self.of("enum")
        if not s:
            return None
        w, es = self.d[s - 1][2], self.d[s - 1][3]
        v = self.r.choice(es)[1] if es and self.r.random() < 0.7 else to_bytes(self.r.choice([self.r.randint(0, 20), -1]), w)
        return dict(op="enumat", s=s, v=v)

    def op_labels(self):
        s = self.of("union")
        if not s:
            return None
        ns = [m[0] for m in self.d[s - 1][5]]
        return dict(op="labels", s=s, n=self.r.choice(ns) if ns and self.r.random() < 0.8 else self.mname())

    def op_parent(self):
        s = [i + 1 for i, d in enumerate(self.d) if d and d[0] == "struct" and d[2]]
        s = self.r.choice(s) if s and self.r.random() < 0.8 else self.of("struct")
        return s and dict(op="parent", s=s)

    def op_same(self):
        s = [i + 1 for i, d in enumerate(self.d) if d]
        if not s:
            return None
        a = self.r.choice(s)
        alike = [i for i in s if self.d[i - 1][0] == self.d[a - 1][0]]
        return dict(op="same", s=a, src=["s", self.r.choice(alike)] if self.r.random() < 0.8 else self.src())


def table(rng):
    g = Types(rng, depth=2, big=0.005)
    ts = list(SIMPLE) + [g.enum(1), g.enum(2), g.enum(4)]
    ts += [{"k": "alias", "n": g.name("A"), "e": rng.choice(ts)} for _ in range(3)]
    for e in [g.enum(), rng.choice(ts), {"k": rng.choice(list(SWIDTH))}]:      # names of names
        for _ in range(rng.randint(1, 3)):
            e = {"k": "alias", "n": g.name("A"), "e": e}
            ts.append(e)
    ts += [g.any(2) for _ in range(5)]
    return ts
