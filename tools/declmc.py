"""The bounded instances of XModuleMC and XTypeMC of each property."""
import itertools
from mcinst import P, S, SEQ, STRUCT, ENUM, UNION, ALIAS
from xt import *


# ---------------------------------------------------------------------------
# Modules
def named(parts, ab=False):
    return {"n": ("::" if ab else "") + "::".join(parts), "q": [int(ab)] + list(parts)}


def modules(name, names, mods, cmds, ts, cap=1, deep_ask=None, ask=True, subs=None):
    """mods: how many modules at most.  cmds(m): the commands of each module.  deep_ask: parts of the names asked for, at most."""
    out = []
    for m in range(1, mods + 1):
        for n in subs or names:
            out.append(dict(op="sub", m=m, n=n))
        out += cmds(m)
        if ask:
            for k in range(1, (deep_ask or 2) + 1):
                for parts in itertools.product(names, repeat=k):
                    out.append(dict(op="ask", m=m, **named(parts)))
                    if m == 1 or k < 3:
                        out.append(dict(op="ask", m=m, **named(parts, True)))
            out += [dict(op="get", m=m, n=n) for n in names]
            out += [dict(op="all", m=m, scoped=x) for x in (0, 1)] + [dict(op="each", m=m)]
    return {"name": name, "kind": "module", "ts": ts, "names": sorted(names), "cmds": [{"e": e} for e in out], "mods": mods, "cap": cap,
            "head": {"ts": ts, "names": sorted(names)}}


T_MOD = [STRUCT("S1", ("a", P("i32"))), STRUCT("S2", ("b", S("str", 3))), UNION("U1", P("u8"), ("c", P("i16"), [1])),
         UNION("U2", P("bool"), ("d", P("f64"), [1], True)), ENUM("E1", 4, 0, 1), ENUM("E2", 4, 3), ALIAS("A1", P("i32")),
         ALIAS("A2", SEQ(P("u8"), 2)), P("i32"), S("str", 2), P("char")]
DECL = dict(struct=(1, 2), union=(3, 4), enum=(5, 6), alias=(7, 8))


def declare(kinds, names, reps=(0, 1), mvs=(0, 1), both=True, bad=True):
    """Commands that declare"""
    def f(m):
        r = []
        for n in names:
            for k in kinds:
                if k == "const":
                    r += [dict(op="const", m=m, t=t, v=v, rep=rep, en=en, **named([n])) for t, v in ((9, [1, 0, 0, 0]), (10, [98, 99, 100]))[:2 if both else 1]
                          for rep in reps for en in reps]
                elif k == "make":
                    r += [dict(op="alias", m=m, t=t, rep=0, **named([n])) for t in (9, 1)[:2 if both else 1]]
                elif k == "later":
                    r.append(dict(op="later", m=m, t=1, rep=0, **named([n])))
                elif k == "grow":
                    r += [dict(op="grow", m=m, t=9, mn=mn, rep=0, **named([n])) for mn in ("a", "g")]
                    r += [dict(op="grow", m=m, t=9, mn="g", rep=0, **named(["A", n], ab)) for ab in (False, True)]
                else:
                    r += [dict(op="type", m=m, t=t, mv=mv, rep=rep, **named([n])) for t in DECL[k][:2 if both else 1] for mv in mvs for rep in reps]
                    if bad:
                        r.append(dict(op="type", m=m, t=DECL[k][0], mv=1, rep=reps[-1], **named([n], True)))
                        r.append(dict(op="type", m=m, t=DECL[k][0], mv=1, rep=reps[-1], **named(["A", n])))
        return r
    return f


def of_C19(deep):
    two, three = ["A", "B"], ["A", "B", "C"]
    one = lambda k, ns: declare([k], ns, reps=(0,), mvs=(1,), both=False, bad=False)
    return [modules("scopes-chain", ["A", "B"], 3, one("struct", ["A", "B"]), T_MOD, deep_ask=3),
            modules("scopes-kinds", ["A", "B"], 2 if not deep else 3, lambda m: one("struct", ["B"])(m) + one("union", ["A"])(m) + one("make", ["B"])(m) + one("const", ["A"])(m) +
                    one("enum", ["B"])(m), T_MOD, subs=["A"] if not deep else None),
            modules("scopes-deep", two, 4 if not deep else 5, one("const", ["B"]), T_MOD, deep_ask=3 if not deep else 4),
            modules("scopes-grow", ["A", "B"], 3, declare(["struct", "grow"], ["B"], reps=(0,), mvs=(1,), both=False, bad=False), T_MOD, cap=2, subs=["A"])]


def of_C20(deep):
    return [modules("declare-types", ["A"], 1, declare(["struct", "union", "enum", "alias", "make"], ["A"]), T_MOD),
            modules("declare-two-names", ["A", "B"], 1, declare(["struct", "const", "make"], ["A", "B"], both=False), T_MOD),
            modules("declare-constants", ["A", "B"], 2, declare(["const"], ["B"]), T_MOD, subs=["A"]),
            modules("declare-nested", ["A", "B"], 2 if not deep else 3, declare(["struct", "union", "later"] + (["enum"] if deep else []), ["B"], mvs=(1,)), T_MOD, subs=["A"]),
            modules("enumerate", ["A", "B", "C"] if deep else ["A", "B"], 4, declare(["enum"], ["A"], reps=(0,), both=False, bad=False), T_MOD, ask=False) if not deep else
            modules("enumerate", ["A", "B"], 4, declare(["enum", "alias"], ["A"], reps=(0,), both=False, bad=False), T_MOD)]


# ---------------------------------------------------------------------------
# Types under declaration
class Building:
    def __init__(self, name, ts, cap):
        self.name, self.ts, self.cap, self.cmds = name, ts, cap, []

    def add(self, need, **e):
        self.cmds.append({"need": [[s, [k] if isinstance(k, str) else list(k)] for s, k in need.items()], "e": e})

    def dump(self):
        return {"name": self.name, "kind": "type", "ts": self.ts, "cmds": self.cmds, "cap": self.cap, "head": {"ts": self.ts}}

    def member(self, s, n, src, how=0, id=(), key=0, opt=0, need=None):
        self.add({s: "struct", **(need or {})}, op="member", s=s, n=n, src=src, how=how, id=list(id), key=key, opt=opt)

    def look(self, s, kinds, names, count):
        for n in names:
            self.add({s: kinds}, op="find", s=s, n=n)
        if "enum" not in kinds:
            for i in range(count + 1):
                self.add({s: kinds}, op="at", s=s, i=i)

    def case(self, s, n, src, ls=(), df=False, kind="i64", text=None, how=0):
        if text is not None:
            self.add({s: "union"}, op="case", s=s, n=n, src=src, how=0, id=[], key=0, opt=0, lk="text", ls=list(text), lt=[[ord(c) for c in l] for l in text], df=False)
        else:
            w = {"i64": 8, "i32": 4, "u32": 4, "u8": 1, "i8": 1, "char": 1}[kind]
            self.add({s: "union"}, op="case", s=s, n=n, src=src, how=how, id=[], key=0, opt=0, lk=kind, ls=[to_bytes(l, w) for l in ls], lt=[], df=df)


ANYTYPE = ("struct", "union", "enum", "alias", "array", "seq", "map", "pair")
NAMED = ("struct", "union", "enum", "alias")


def structs(deep):
    b = Building("build-struct", [P("i32"), S("str", 2)], 6 if deep else 4)
    for s in (1, 2):
        b.add({}, op="struct", s=s, n="T", f=0)
        b.look(s, ("struct",), ["a", "b", "x"], 3)
        b.add({s: "struct"}, op="parent", s=s)
    b.add({1: "struct"}, op="struct", s=2, n="D", f=1)
    b.member(1, "a", ["t", 1], id=[7], key=1)
    b.member(1, "b", ["t", 2], opt=1)
    b.member(2, "a", ["t", 2], how=1)
    b.member(2, "x", ["t", 1], how=2)
    b.member(2, "b", ["s", 1], need={1: "struct"})
    b.add({1: "struct", 2: "struct"}, op="same", s=1, src=["s", 2])
    b.add({2: "struct"}, op="copy", s=1, f=2)
    b.add({2: "struct"}, op="move", s=1, f=2)
    if deep:
        b.add({1: "struct"}, op="data", d=1, src=["s", 1])
        b.add({1: "struct"}, op="rename", s=1, n="R")
    return b.dump()


def unions(deep):
    r = []
    for name, d in [("bool", P("bool")), ("u8", P("u8")), ("i16", P("i16")), ("char", P("char")), ("enum", ENUM("E", 1, 1, 4, 5)), ("i64", ALIAS("L", P("i64")))]:
        b = Building("build-union-" + name, [d, P("i32"), S("str", 2)], 5 if not deep else 6)
        b.add({}, op="union", s=1, n="U", src=["t", 1])
        lab = [0, 1] if name == "bool" else [1, 4, 5]
        for n in ("a", "b"):
            b.case(1, n, ["t", 2], lab[:1])
            b.case(1, n, ["t", 3], lab[1:], kind="i32")
        b.case(1, "a", ["t", 2], lab[:2], kind="u8")
        b.case(1, "c", ["t", 2], [], True)
        b.case(1, "c", ["t", 2], [lab[-1]], True)
        b.case(1, "a", ["t", 2], [])
        b.case(1, "discriminator", ["t", 2], lab[:1])
        b.case(1, "d", ["t", 2], [2, 300] if name != "enum" else [2])
        b.case(1, "d", ["t", 2], [127 if d["k"] in ("u8", "char") else 32767], kind="i32")
        if name == "bool":
            b.case(1, "t", ["t", 2], text=["TRUE"])
            b.case(1, "t", ["t", 2], text=["FALSE", "default"])
        elif name == "char":
            b.case(1, "t", ["t", 2], text=["'a'", "b"])
            b.case(1, "e", ["t", 2], text=["b", "default"])
        elif name == "enum":
            b.case(1, "t", ["t", 2], text=["e1", "default"])
            b.case(1, "e", ["t", 2], text=["e7"])
            b.case(1, "e", ["t", 2], text=["4"])
        else:
            b.case(1, "t", ["t", 2], text=["0x10", "default"])
            b.case(1, "e", ["t", 2], text=["017", "1"])
        b.look(1, ("union",), ["a", "b", "c", "discriminator", "x"], 3)
        for n in ("a", "b", "c", "t", "x"):
            b.add({1: "union"}, op="labels", s=1, n=n)
        r.append(b.dump())
    return r


def enums(deep):
    r = []
    for w in (1, 2, 4):
        b = Building("build-enum%d" % w, [P("i32")], 5 if deep else 4)
        top = (1 << 8 * w) - 1
        b.add({}, op="enum", s=1, n="E", w=w)
        for n in ("x", "y", "z"):
            for v in ([], 0, 1, 5, top - 1, top) if n != "y" else ([], 2, 4):
                b.add({1: "enum"}, op="enumerator", s=1, n=n, v=v if v == [] else to_bytes(v, w))
            b.add({1: "enum"}, op="find", s=1, n=n)
        for v in (0, 1, 2, 5, top):
            b.add({1: "enum"}, op="enumat", s=1, v=to_bytes(v, w))
        r.append(b.dump())
    return r


def values(deep):
    """What takes a type takes it as it is."""
    r = []
    for name, make, change in [
            ("struct", dict(op="struct", s=1, n="T", f=0), dict(op="member", s=1, n="a", src=["t", 1], how=0, id=[], key=0, opt=0)),
            ("enum", dict(op="enum", s=1, n="T", w=4), dict(op="enumerator", s=1, n="a", v=[])),
            ("union", dict(op="union", s=1, n="T", src=["t", 1]), dict(op="case", s=1, n="a", src=["t", 1], how=0, id=[], key=0, opt=0, lk="i32", ls=[to_bytes(1, 4)], lt=[], df=True))]:
        b = Building("taken-" + name, [P("i32"), S("str")], 4 if deep else 3)
        b.add({}, **make)
        b.add({1: name}, **change)
        b.add({1: name}, op="rename", s=1, n="R")
        b.add({}, op="struct", s=2, n="H", f=0)
        b.member(2, "m", ["s", 1], need={1: name})
        if name == "struct":
            b.add({1: name}, op="struct", s=2, n="H", f=1)
        for op in ("alias", "array", "seq"):
            b.add({1: ANYTYPE}, op=op, s=2, **({"n": "A"} if op == "alias" else {"b": 2}), src=["s", 1])
        b.add({1: ANYTYPE}, op="pair", s=2, src=["s", 1], to=["t", 2])
        b.add({1: ANYTYPE}, op="map", s=2, src=["t", 2], to=["s", 1], b=0)
        b.add({1: name}, op="union", s=2, n="H", src=["t", 1])
        b.add({1: name, 2: "union"}, op="case", s=2, n="m", src=["s", 1], how=1, id=[], key=0, opt=0, lk="i32", ls=[], lt=[], df=True)
        if name != "enum":
            b.add({1: ANYTYPE}, op="copy", s=2, f=1)
            if deep:
                b.add({2: tuple(k for k in ANYTYPE if k != "enum")}, op="copy", s=3, f=2)
        b.add({1: ANYTYPE}, op="data", d=1, src=["s", 1])
        b.add({2: ANYTYPE}, op="data", d=1, src=["s", 2])
        b.add({1: ANYTYPE}, op="del", s=1)
        if deep:
            b.add({2: NAMED}, op="rename", s=2, n="R2")
        b.add({1: ANYTYPE, 2: ANYTYPE}, op="same", s=1, src=["s", 2])
        r.append(b.dump())
    return r


def holders(deep):
    """Pointers that hold types: each has its own"""
    b = Building("held", [P("u16"), S("str", 3)], 3 if deep else 2)
    b.add({}, op="struct", s=1, n="T", f=0)
    b.member(1, "a", ["t", 2])
    if deep:
        b.add({1: ANYTYPE}, op="rename", s=1, n="R")
    b.add({1: ANYTYPE}, op="del", s=1)
    hs = (1, 2)
    for h in hs:
        for how in (0, 1):
            b.add({1: ANYTYPE}, op="hold", h=h, src=["s", 1], how=how)
        b.add({}, op="hold", h=h, src=["t", 2], how=h % 2)        # (a primitive type is one for all)
        for g in hs:
            for op in ("hcopy", "hassign", "hmove"):
                b.add({}, op=op, h=h, g=g)
        b.add({}, op="hfree", h=h)
        b.add({}, op="huse", h=h, s=1, n="A", how=h % 2)
    b.add({}, op="hname", h=2, n="H")
    return b.dump()


def pairs(deep):
    b = Building("pairs", [P("u16"), S("str", 3)], 5 if deep else 4)
    b.add({}, op="pair", s=1, src=["t", 1], to=["t", 2])
    for i in (0, 1):
        b.add({1: "pair"}, op="setpair", s=1, i=i, src=["t", 2 - i])
        b.add({1: "pair", 2: ANYTYPE}, op="setpair", s=1, i=i, src=["s", 2])
    b.add({1: ANYTYPE}, op="arrays", s=2, src=["s", 1], bs=[2, 3])
    b.add({}, op="arrays", s=2, src=["t", 1], bs=[])
    b.add({}, op="arrays", s=2, src=["t", 2], bs=[1, 2, 3])
    b.add({1: ANYTYPE}, op="array", s=2, src=["s", 1], b=2)
    b.add({2: ANYTYPE}, op="rename", s=2, n="R")
    if deep:
        b.add({2: ("pair", "array")}, op="copy", s=1, f=2)
    b.add({1: "pair"}, op="copy", s=2, f=1)
    b.add({1: ANYTYPE}, op="alias", s=2, n="A", src=["s", 1], how=0)
    b.add({1: "alias"}, op="alias", s=2, n="A", src=["s", 1], how=1)
    b.add({2: "alias"}, op="copy", s=1, f=2)
    b.add({2: ANYTYPE}, op="data", d=1, src=["s", 2])
    b.add({1: ANYTYPE, 2: ANYTYPE}, op="same", s=1, src=["s", 2])
    return b.dump()


def of_C16(deep):
    return [structs(deep), holders(deep), pairs(deep)] + (unions(deep) if deep else [u for u in unions(deep) if u["name"][12:] in ("bool", "i16", "enum")]) + values(deep) + (enums(deep) if deep else [])


def of_C11(deep):
    return enums(deep)


def of_C10(deep):
    return unions(deep)


def instances(prop, tier):
    return globals()["of_" + prop](tier == "thorough")
