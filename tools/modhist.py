"""Histories of declarations and queries in a tree of modules, generated while they run."""
import random
from xt import *

WEIGHTS = dict(sub=5, type=14, later=1, alias=5, const=9, grow=2, ask=22, get=4, all=3, each=3)
MAXMODS = 7


def header(rng, p):
    g = Types(rng, depth=1, parent=0.3)
    ts = [g.struct(1) for _ in range(4)] + [g.union(1) for _ in range(3)] + [g.enum(4) for _ in range(3)]
    ts += [{"k": "alias", "n": g.name("A"), "e": g.any(1)} for _ in range(3)]
    ts += [{"k": k} for k in rng.sample(PRIMS, 6)] + [{"k": "str", "b": 0}, {"k": "str", "b": 4}, {"k": "wstr", "b": 0}]
    ts += [g.any(1) for _ in range(3)]
    names = sorted(rng.sample(["A", "B", "C", "AA", "X", "Y", "Z", "M", "N", "x", "lo_ng", "A1"], rng.choice([4, 5, 6])))
    return {"ts": ts, "names": names}


class ModHist:
    def __init__(self, rng, io, head, prof):
        self.r, self.io, self.head = rng, io, head
        self.ts, self.names = head["ts"], head["names"]
        self.weights = dict(WEIGHTS, **prof.get("ops", {}))
        self.vals = Values(rng)

    def episode(self, n):
        self.st = [["", "", 0, [[0] * 5 for _ in self.names]]]
        self.io.begin()
        names = list(self.weights)
        ws = [self.weights[x] for x in names]
        done = tries = 0
        few = self.r.sample(self.names, min(len(self.names), self.r.choice([3, 4, 6])))
        self.few = few
        while done < n and tries < 30 * n:
            tries += 1
            c = getattr(self, "op_" + self.r.choices(names, ws)[0])()
            if c is None:
                continue
            done += 1
            e = self.io.cmd(c)
            if e.get("bad", 1) or e.get("op") == "skip":
                break
            self.st = e["st"]
        self.io.end()

    # ---- names ----
    def ident(self):
        return self.r.choice(self.few)

    def mod(self):
        return self.r.randrange(len(self.st)) + 1

    @staticmethod
    def named(c, ab, parts):
        c["n"] = ("::" if ab else "") + "::".join(parts)
        c["q"] = [int(ab)] + parts
        return c

    def query(self, c):
        r = self.r
        x = r.random()
        if x < 0.4:
            return self.named(c, False, [self.ident()])
        if x < 0.75 and len(self.st) > 1:       # towards a module that exists, from where or from further out
            path = self.st[r.randrange(len(self.st))][1]
            parts = path.split("::") if path else []
            ab = r.random() < 0.5
            if not ab and len(parts) > 1:
                parts = parts[r.randrange(len(parts)):]
            if r.random() < 0.15 and parts:
                parts[r.randrange(len(parts))] = self.ident()
            return self.named(c, ab, parts + [self.ident()])
        return self.named(c, r.random() < 0.4, [self.ident() for _ in range(r.randint(1, 3))])

    def new_name(self, c):
        if self.r.random() < 0.06:
            return self.named(c, self.r.random() < 0.3, [self.ident(), self.ident()])
        return self.named(c, False, [self.ident()])

    def table(self, *kinds):
        return self.r.choice([i + 1 for i, t in enumerate(self.ts) if not kinds or (t["k"] == "enum" and t["w"] == 4 if t["k"] == "enum" else True) and t["k"] in kinds])

    # ---- operations ----
    def op_sub(self):
        if len(self.st) >= MAXMODS:
            return None
        return dict(op="sub", m=self.mod(), n=self.ident())

    def op_type(self):
        k = self.r.choice(["struct", "struct", "union", "enum", "alias"])
        return self.new_name(dict(op="type", m=self.mod(), t=self.table(k), mv=int(self.r.random() < 0.6), rep=int(self.r.random() < 0.3)))

    def op_later(self):
        return self.new_name(dict(op="later", m=self.mod(), t=self.table("struct")))

    def op_alias(self):
        return self.new_name(dict(op="alias", m=self.mod(), t=self.table()))

    def op_const(self):
        t = self.table(*PRIMS, *STRS, "enum", "alias")
        u = U(self.ts[t - 1])
        if u["k"] not in WIDTH and u["k"] not in STRS and u["k"] != "enum":
            return None
        v = self.vals.any(u)
        return self.new_name(dict(op="const", m=self.mod(), t=t, v=v, rep=int(self.r.random() < 0.35), en=int(self.r.random() < 0.3)))

    def op_grow(self):
        return self.query(dict(op="grow", m=self.mod(), mn="g%d" % self.r.randint(1, 4), t=self.table(*PRIMS)))

    def op_ask(self):
        return self.query(dict(op="ask", m=self.mod()))

    def op_get(self):
        return dict(op="get", m=self.mod(), n=self.ident())

    def op_all(self):
        return dict(op="all", m=self.mod() if self.r.random() < 0.6 else 1, scoped=int(self.r.random() < 0.6))

    def op_each(self):
        return dict(op="each", m=self.mod() if self.r.random() < 0.6 else 1)
