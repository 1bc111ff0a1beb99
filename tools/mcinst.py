"""Bounded instances for the exhaustive exploration (spec/XDataMC.tla): types of the slots, and every command over them."""
import json
from xt import *
from hist import effects, unlike

P = lambda k: {"k": k}
S = lambda k="str", b=0: {"k": k, "b": b}
SEQ = lambda e, b=0: {"k": "seq", "b": b, "e": e}
ARR = lambda e, b: {"k": "array", "b": b, "e": e}
MAP = lambda a, c, b=0: {"k": "map", "b": b, "e": {"k": "pair", "a": a, "c": c}}
ALIAS = lambda n, e: {"k": "alias", "n": n, "e": e}


def STRUCT(n, *ms, p=None):
    return {"k": "struct", "n": n, "p": [p] if p else [], "ms": [{"n": a, "t": t} for a, t in ms]}


def ENUM(n, w, *vals):
    return {"k": "enum", "n": n, "w": w, "es": [{"n": "e%d" % i, "v": to_bytes(v, w)} for i, v in enumerate(vals)]}


def UNION(n, d, *cs):
    """cases: (name, type, labels, default?)"""
    w = disc_width({"d": d})
    return {"k": "union", "n": n, "d": d,
            "cs": [{"n": c[0], "t": c[1], "ls": [to_bytes(l, w) for l in c[2]], "df": len(c) > 3 and c[3]} for c in cs]}


LEAF = PRIMS + STRS + ["enum"]
CAST = ["i8", "u8", "bool", "u16", "i64", "f64"]


class Inst:
    """slots: for each slot the indexes (from 1) of the types it may hold.  ops: the operations to try."""

    def __init__(self, name, types, slots, ops, cap=2, values=None, distinct=0, zeros=0, discs=(), misuse=False, keys=2, whole=True):
        self.name, self.ts, self.slots, self.ops, self.cap = name, types, slots, set(ops), cap
        self.values, self.distinct, self.zeros, self.discs = values or {}, distinct, zeros, discs
        self.misuse, self.keys, self.whole = misuse, keys, whole
        self.cmds, self.domain = [], []
        self.turn = 0
        self.generate()

    def dump(self):
        return {"ts": self.ts, "cmds": self.cmds, "k": len(self.slots), "cap": self.cap, "dom": self.domain}

    # ---- values ----
    def dom(self, t):
        """[(kind of the value, value)] for a leaf"""
        k = t["k"]
        if k in self.values:
            return [(k, v) for v in self.values[k]]
        if k == "enum":
            uk = {1: "u8", 2: "u16", 4: "u32"}[t["w"]]
            return [(uk, e["v"]) for e in t["es"][:2]] + ([(uk, to_bytes(77, t["w"]))] if self.misuse or len(t["es"]) else [])
        if k in FLOATS:
            return [(k, [0]), (k, [-6])]
        if k in STRS:
            x = [(k, []), (k, [97])]
            return x + [(k, [97] * (t["b"]) + [98])] if t["b"] else x
        return [(k, [0] * WIDTH[k]), (k, [1] + [0] * (WIDTH[k] - 1))]

    def some(self, t, deep=3):
        """Some values of a type, to build or to look for"""
        t = U(t)
        k = t["k"]
        if k == "enum":
            return [e["v"] for e in t["es"][:2]]
        if k in LEAF:
            return [v for _, v in self.dom(t)]
        if k == "array":
            e = self.some(t["e"], deep)
            return [[e[0]] * t["b"], [e[-1]] * t["b"]]
        if k in ("seq",):
            e = self.some(t["e"], deep)
            return [[], [e[-1]], [e[0], e[-1]]][:min(max(2, self.cap + 1), 1 + (t["b"] or 2))]
        if k == "map":
            a, c = self.some(t["e"]["a"], deep), self.some(t["e"]["c"], deep)
            return [[], [[a[0], c[-1]]]]
        if k == "pair":
            a, c = self.some(t["a"], deep), self.some(t["c"], deep)
            return [[x, c[(i + 1) % len(c)]] for i, x in enumerate(a)]
        if k == "struct":
            ms = [self.some(m["t"], deep) for m in members(t)]
            return [[m[0] for m in ms], [m[-1] for m in ms]]
        w = disc_width(t)
        out = []
        for i, c in enumerate(t["cs"]):
            out.append([c["ls"][0] if c["ls"] else [126] + [0] * (w - 1), i + 1, self.some(c["t"], deep)[-1]])
        return out

    def index(self, t):
        for i, x in enumerate(self.ts):
            if bare(x) == bare(t):
                return i + 1
        self.ts.append(t)
        return len(self.ts)

    # ---- paths ----
    def paths(self, t, steps=(), key=False):
        """(steps, type, part of a key?, character?)"""
        t = U(t)
        yield list(steps), t, key, False
        k = t["k"]
        self.turn += 1
        if k == "struct":
            for i, m in enumerate(members(t)):
                s = [["n", m["n"]], ["i", i], ["im", i]][(self.turn + i) % 3]
                yield from self.paths(m["t"], steps + (s,), key)
        elif k in ("array", "seq"):
            n = t["b"] if k == "array" else self.cap
            for i in range(n):
                yield from self.paths(t["e"], steps + ([["i", i], ["it", i]][(self.turn + i) % 2],), key)
        elif k == "pair":
            yield from self.paths(t["a"], steps + (["i", 0],), key)
            yield from self.paths(t["c"], steps + (["i", 1],), key)
        elif k == "map":
            for v in self.some(t["e"]["a"])[:self.keys]:
                for s in ("k", "a"):
                    yield from self.paths(t["e"]["c"], steps + ([s, self.index(t["e"]["a"]), v],), key)
            yield from self.paths(t["e"], steps + (["it", 0],), True)
        elif k == "union":
            for c in t["cs"]:
                yield from self.paths(c["t"], steps + (["n", c["n"]],), key)
            yield list(steps) + [["d"]], U(t["d"]), True, False
        elif k in STRS:
            ck = {"k": CHAR_OF[k]}
            yield list(steps) + [[["i", 0], ["it", 0]][self.turn % 2]], ck, key, True

    def bad_paths(self, t, steps=(), key=False):
        for p, x, key, ch in self.paths(t):
            for b in (["i", 9], ["n", "nope"], ["it", 9], ["im", 9], ["i", -1], ["d"]):
                if b == ["d"] and x["k"] == "union" or b[0] == "im":
                    continue
                yield p + [b], {"k": "u8"}, True, False
            if x["k"] != "map":
                yield p + [["a", self.index(P("u8")), [1]]], {"k": "u8"}, True, False
                yield p + [["k", self.index(P("u8")), [1]]], {"k": "u8"}, True, False

    # ---- commands ----
    def add(self, need, pure, is_=(), **e):
        if e["op"] not in self.ops:
            return
        n = [0] * len(self.slots)
        for s, t in need.items():
            n[s - 1] = t
        self.cmds.append({"e": e, "need": n, "pure": int(pure), "is": [list(x) for x in is_], "back": 0})

    def generate(self):
        K = range(1, len(self.slots) + 1)
        for s in K:
            for t in self.slots[s - 1]:
                T = self.ts[t - 1]
                self.add({}, True, op="new", s=s, t=t)
                for v in self.some(T):
                    self.add({}, True, op="build", s=s, t=t, v=v)
                self.parts(s, t, T)
            self.add({s: -1}, True, op="del", s=s)
            for f in K:
                for t in self.slots[f - 1]:
                    if t in self.slots[s - 1]:
                        self.add({f: t}, True, op="copy", s=s, f=f)
                        self.add({f: t}, True, op="move", s=s, f=f)
                    for u in self.slots[s - 1]:
                        if u == t and s != f:               # into a data whose value was moved out too
                            self.add({f: t, s: -1 if len(self.slots[s - 1]) == 1 else u}, True, op="assign", s=s, f=f)
                        elif s != f or u == t:
                            self.add({f: t, s: u}, True, op="assign", s=s, f=f)
        for i in range(1, len(self.ts) + 1):
            for j in range(1, len(self.ts) + 1):
                self.add({}, True, op="compat", s=1, t=i, u=j)
            self.add({}, True, op="tname", s=1, t=i)
            for stop in range(5):
                for how in ((0, 1, 2) if stop else (1,)):
                    self.add({}, True, op="tvisit", s=1, t=i, stop=stop, how=how)
        seen, out = set(), []
        for c in self.cmds:
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(c)
        self.cmds = out

    def parts(self, s, t, T):
        need = {s: t}
        for p, x, key, ch in self.paths(T):
            pure = not effects(p)
            for ro in (0, 1):
                if ro and not pure and any(q[0] == "k" for q in p):
                    continue
                if p and p[-1] == ["d"] and not ro or key and not ro:
                    continue
                self.reads(s, p, x, ro, need, pure or bool(ro))
            if not key:
                self.writes(s, p, x, need, pure, T)
        if self.misuse:
            for p, x, key, ch in self.bad_paths(T):
                for ro in (0, 1):
                    if ro and any(q[0] == "k" for q in p) or not ro and ["d"] in p:
                        continue
                    self.add(need, not effects(p[:-1]) or ro, op="touch", s=s, p=p, ro=ro)

    def reads(self, s, p, x, ro, need, pure):
        a = lambda **e: self.add(need, pure, s=s, p=p, ro=ro, **e)
        k = x["k"]
        leaf = k in LEAF
        ks = [{1: "u8", 2: "u16", 4: "u32"}[x["w"]]] if k == "enum" else [k] if leaf else []
        for g in ks + (["i32", "str"] if self.misuse else []):
            a(op="get", k=g)
        if k in PRIMS + ["enum"] and ro:
            for c in CAST:
                a(op="cast", k=c)
        elif self.misuse and ro:
            a(op="cast", k="u8")
        if (leaf and k not in ("wstr", "u16str") or self.misuse) and ro:
            a(op="caststr")
        if not leaf or k in STRS or self.misuse:
            for o in ("size", "bounds", "iter"):
                if o != "size" and k in ("struct", "union", "pair") and not self.misuse:
                    continue
                for via in ((0, 1, 2, 3) if o == "iter" else (0,)):
                    a(op=o, **({"via": via} if o == "iter" else {}))
        if k == "struct" or self.misuse and k not in ("union", "pair"):
            a(op="items")
        if k in ("array", "seq") + tuple(STRS):
            e = CHAR_OF[k] if k in STRS else U(x["e"])["k"]
            if e in PRIMS + STRS:
                a(op="vec", k=e)
            if self.misuse:
                a(op="vec", k="i64")
        if k == "union" or self.misuse:
            a(op="cur")
        a(op="touch")
        for stop in (0, 1, 2, 3, 4):
            for how in ((0, 1, 2) if stop else (1,)):
                a(op="foreach", stop=stop, how=how)
        if ro:
            self.add(need, pure, op="print", s=s, p=p, ro=1, os=int(not p))
            self.add(need, True, op="selfeq", s=s, p=p)
            self.add(need, True, op="rehash", s=s, p=p)
            self.pairs(s, p, x, need)

    def others(self, want, ro):
        """Parts of the type in all the slots: (slot, path, needs)"""
        for f in range(1, len(self.slots) + 1):
            for t in self.slots[f - 1]:
                for q, y, key, ch in self.paths(self.ts[t - 1]):
                    if want(y) and not (not ro and (key or effects(q))) and not any(z[0] == "k" for z in q):
                        yield f, q, y, t

    def pairs(self, s, p, x, need):
        """Comparison with parts of the other slots"""
        if "eq" not in self.ops:
            return
        for f, q, y, t in self.others(lambda y: bare(y) == bare(x), True):
            if f < s or f == s and (t != need[s] or q <= p):
                continue
            self.add({**need, f: t}, True, op="eq", s=s, p=p, f=f, q=q, distinct=self.distinct)

    def writes(self, s, p, x, need, pure, T):
        a = lambda **e: self.add(need, pure, s=s, p=p, **e)
        k = x["k"]
        if k in LEAF:
            for i, (g, v) in enumerate(self.dom(x)):
                a(op="set", k=g, v=v, via=2 if not p and i % 2 else i % 2)
                a(op="setself", k=g if k != "enum" else k) if k != "enum" else None
        if self.misuse:
            a(op="set", k="i64" if k != "i64" else "u8", v=[1] + [0] * (7 if k != "i64" else 0), via=0)
            a(op="push", k="i16", v=[1, 0])
            a(op="resize", n=1)
            a(op="dset", v=[1])
            a(op="getmember", n="nope")
            if k != "map":
                a(op="insertpair", t=self.index({"k": "pair", "a": P("u8"), "c": P("f32")}), v=[[1], [4]])
                a(op="haskey", t=self.index(P("u8")), v=[1])
        if k == "seq":
            e = U(x["e"])
            if e["k"] in PRIMS + STRS:
                for g, v in self.dom(e):
                    a(op="push", k=g, v=v)
            for n in range(self.cap + 2):
                a(op="resize", n=n)
            if "pushref" in self.ops:
                for f, q, y, t in self.others(lambda y: bare(y) == bare(e), False):
                    if not (f == s and effects(p)):
                        self.add({**need, f: t}, pure, op="pushref", s=s, p=p, f=f, q=q)
        if k == "map":
            i = self.index(x["e"])
            for v in self.some(x["e"]):
                a(op="insertpair", t=i, v=v)
                a(op="haskey", t=self.index(x["e"]["a"]), v=v[0])
            if "insert" in self.ops:
                for f, q, y, t in self.others(lambda y: bare(y) == bare(x["e"]), True):
                    if not (f == s and effects(p)):
                        self.add({**need, f: t}, pure and not effects(q), op="insert", s=s, p=p, f=f, q=q)
        if k == "union":
            w = disc_width(x)
            ls = [l for c in x["cs"] for l in c["ls"]] + [to_bytes(d, w) for d in self.discs]
            for l in ls:
                a(op="dset", v=l)
            for n in [c["n"] for c in x["cs"]] + ["discriminator"]:
                a(op="getmember", n=n)
        if k == "struct":
            for m in members(x)[:2]:
                a(op="getmember", n=m["n"])
        if not contains(x, ["map"]):
            from hist import leaf_kinds
            for g in sorted(leaf_kinds(x))[:2]:
                v = self.dom({"k": g, "b": 0})[-1][1]
                for stop in (0, 1, 2, 4):
                    for how in ((0, 2) if stop else (1,)):
                        a(op="foreachset", k=g, v=v, stop=stop, how=how)
        here = bare(x)
        for f, q, y, t in self.others(lambda y: bare(y) == here, False):
            if f == s and (t != need[s] or effects(p)):
                continue
            if k in ("struct", "union", "array", "seq", "map") or self.whole and k in LEAF and (p or q):
                self.add({**need, f: t}, pure, op="setref", s=s, p=p, f=f, q=q)
        if not p:
            for f, q, y, t in self.others(lambda y: bare(y) == here, True):
                if q and f != s:
                    self.add({**need, f: t}, True, op="assignref", s=s, f=f, q=q)
        # parts made data of their own
        for f in range(1, len(self.slots) + 1):
            for u in self.slots[f - 1]:
                if bare(self.ts[u - 1]) == here and p:
                    self.add(need, pure, op="copyref", s=f, f=s, q=p, ro=0)
                    if not any(z[0] == "k" for z in p):
                        self.add(need, True, op="copyref", s=f, f=s, q=p, ro=1)
                if len(p) < 2:
                    self.add(need, pure, op="conv", s=f, f=s, q=p, t=u, ro=0)
