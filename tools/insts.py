"""The bounded instances of XDataMC of each property: small types, few values, all histories."""
from mcinst import *
from hist import Hist

U8, U16, I32, BOOL, F64 = P("u8"), P("u16"), P("i32"), P("bool"), P("f64")


def b(v, w=1):
    return [v] + [0] * (w - 1)


E1 = ENUM("E", 1, 0, 2, 3)
E2 = ENUM("E2", 2, 1, 5)
UN = UNION("V", U8, ("c0", U8, [1, 2]), ("c1", S("str"), [4]))
UD = UNION("W", P("i16"), ("c0", SEQ(U8, 1), [1]), ("c1", U16, [], True), ("c2", UN, [3]))
UL = UNION("L", P("char"), ("c0", U8, [97, 98]), ("c1", S("str", 1), [99], True))
UE = UNION("X", E1, ("c0", U8, [0]), ("c1", STRUCT("Y", ("x", U16)), [3]))
UB = UNION("Z", BOOL, ("c0", U8, [1]), ("c1", U16, [0]))
PT = STRUCT("Pt", ("x", U8), ("y", U8))
LIFE = ("new", "build", "copy", "move", "assign", "del")
FEW = {"u8": [[0], [7]], "u16": [[0, 0], [3, 1]], "i32": [[0] * 4, [255] * 4], "char": [[97], [98]], "str": [[], [97]],
       "f64": [[0], [-6]], "i16": [[0, 0], [255, 255]], "bool": [[0], [1]]}


def two(n, t, ops, **k):
    return Inst(n, [t], [[1], [1]], ops, **k)


def one(n, t, ops, **k):
    return Inst(n, [t], [[1]], ops, **k)


def operators(k, deep, both=True):
    """All the operators on all pairs of a kind's telling values"""
    w = WIDTH[k]
    if k in FLOATS:
        vs = [[0], [1], [-1], [-6], [9], [1000]]
    elif k == "bool":
        vs = [[0], [1]]
    else:
        top = 1 << (8 * w - 1)
        vs = [to_bytes(x % (2 * top), w) for x in sorted({0, 1, 3, 8 * w - 1, top - 1, top, 2 * top - 1, 100} | ({2, 5, 2 * top - 2, top + 1} if deep else set()))]
        if k in CHARS and not deep:
            vs = vs[::2]
    i = Inst("operators-" + k, [P(k)], [[1], [1]], ["build", "cast", "caststr", "print"], values={k: vs})
    i.cmds = [c for c in i.cmds if not (c["e"]["op"] == "cast")]
    need = {1: 1}
    ops = set(i.ops)
    i.ops = ops | {"unop", "binop", "opas", "opasT", "cast"}
    for c in PRIMS:
        if c != "f128" and k != "f128":
            for v in vs:
                if castable(k, c, v):
                    i.add({1: 1}, True, [(1, v)], op="cast", s=1, p=[], k=c, ro=1)
    for o in ["neg", "com", "not", "preinc", "postinc", "predec", "postdec"]:
        for v in vs:
            if k in FLOATS and o == "neg" and v == [0]:
                continue
            if k in ("i32", "i64"):
                x, lim = from_bytes(v, True), 1 << (8 * w - 1)
                if o == "neg" and x == -lim or "inc" in o and x == lim - 1 or "dec" in o and x == -lim:
                    continue
            i.add(need, True, [(1, v)], op="unop", s=1, o=o)
    for o in Hist.ARITH + Hist.LOGIC + ["==", "!="]:
        ok = {(tuple(a), tuple(c)) for a in vs for c in vs if o not in Hist.ARITH or Hist.safe(None, o, k, a, c)}
        every = len(ok) == len(vs) ** 2
        for a, c in [(None, None)] if every else sorted(ok):
            x = [] if every else [(1, list(a)), (2, list(c))]
            i.add({1: 1, 2: 1}, True, x, op="binop", s=1, o=o, f=2, q=[])
            if o in Hist.ARITH:
                i.add({1: 1, 2: 1}, True, x, op="opas", s=1, o=o + "=", f=2, q=[])
        if o in Hist.ARITH and both:
            for a, c in sorted(ok):
                i.add({1: 1}, True, [(1, list(a))], op="opasT", s=1, o=o + "=", k=k, v=list(c))
    i.domain = vs
    next(c for c in i.cmds if c["e"]["op"] == "build" and c["e"]["s"] == 1)["back"] = 1
    return i


def castable(k, c, v):
    """Is the value in the range of the type it's cast to?  (C++ leaves the others open)"""
    if k not in FLOATS or c in FLOATS:
        return True
    if c == "bool":
        return True
    x = v[0] / 4.0 if False else v[0]
    return x == 0


def grid(depth=1):
    """Types of every kind, and near ones of each"""
    base = [P(k) for k in ("bool", "i8", "u8", "char", "u16", "i32", "u32", "i64", "f32", "f64", "wc")]
    base += [S("str"), S("str", 3), S("wstr"), S("u16str", 2), E1, E2]
    ts = list(base)
    some = [U8, P("i8"), U16, S("str"), S("str", 3), E1]
    for e in some:
        ts += [SEQ(e), SEQ(e, 2), ARR(e, 2), ARR(e, 3)]
    for a, c in ((U8, U8), (U8, U16), (P("i8"), U8), (S("str"), U8), (S("str", 2), U8)):
        ts += [MAP(a, c), MAP(a, c, 2)]
    ts += [STRUCT("A", ("x", U8)), STRUCT("B", ("x", U8)), STRUCT("A", ("x", P("i8"))), STRUCT("A", ("y", U8)),
           STRUCT("A", ("x", U8), ("y", U16)), STRUCT("A", ("y", U16), ("x", U8)), STRUCT("C", ("y", U16), p=STRUCT("A", ("x", U8))),
           STRUCT("A", ("x", SEQ(U8, 2))), STRUCT("A", ("x", SEQ(P("i8"), 3))), STRUCT("A", ("x", S("str")), ("z", E1)),
           STRUCT("A")]
    ts += [UN, UL, UNION("V", U8, ("c0", P("i8"), [1, 2]), ("c1", S("str"), [4])), UNION("V", U8, ("c0", U8, [1]), ("c1", S("str"), [4])),
           UNION("V", U8, ("c0", U8, [1, 2]), ("d1", S("str"), [4])), UNION("V", U8, ("c0", U8, [1, 2])),
           UNION("V", P("i8"), ("c0", U8, [1, 2]), ("c1", S("str"), [4])), UNION("V", U8, ("c0", U8, [1, 2]), ("c1", S("str"), [4], True))]
    if depth > 1:
        deep = [SEQ(STRUCT("A", ("x", U8))), SEQ(STRUCT("B", ("x", P("i8")))), ARR(SEQ(U8, 2), 2), ARR(SEQ(P("i8"), 3), 2), SEQ(SEQ(U8)), SEQ(ARR(U8, 2)),
                MAP(U8, SEQ(U8)), MAP(U8, SEQ(U8, 2)), STRUCT("D", ("a", STRUCT("A", ("x", U8)))), STRUCT("D", ("a", STRUCT("B", ("x", U8), ("y", U8)))),
                UNION("V", U8, ("c0", STRUCT("A", ("x", U8)), [1])), UNION("V", U8, ("c0", STRUCT("B", ("x", U16)), [1])),
                UNION("V", U8, ("c0", SEQ(U8), [1])), UNION("V", U8, ("c0", SEQ(U8, 2), [1]))]
        ts += deep
    ts += [ALIAS("N", t) for t in ts[::4]] + [SEQ(ALIAS("M", U8)), STRUCT("A", ("x", ALIAS("O", ALIAS("Q", U8))))]
    return ts


def instances(prop, tier):
    """The instances of a property's check"""
    deep = tier != "quick"
    f = globals().get("of_" + prop)
    return f(deep) if f else []


def of_C01(deep):
    i = Inst("pairs-of-types", grid(2 if deep else 1), [[]], ["compat", "tname"])
    return [i]


def of_C02(deep):
    ops = ["new", "resize", "touch", "dset", "copyref", "get", "set", "conv", "getmember"]
    r = [one("defaults-struct", STRUCT("D", ("e", E1), ("a", ARR(U16, 2)), ("u", UD), ("s", S("str"))), ["new", "touch", "set", "dset", "getmember"], cap=1,
             values={"u16": [[3, 1]], "u8": [[7]], "str": [[97]]}, keys=1),
         one("defaults-elements", STRUCT("D", ("q", SEQ(STRUCT("I", ("e", E2), ("u", UL)), 2)), ("m", MAP(U8, ARR(U8, 2), 2))),
             ["new", "resize", "touch", "set", "dset"], cap=2 if deep else 1, values={"u8": [[7]], "u16": [[3, 1]], "str": [[97]], "char": [[97]]}, keys=2),
         Inst("defaults-of-lacking", [STRUCT("A", ("x", U8)), STRUCT("A", ("x", U8), ("e", E2), ("u", UL), ("a", ARR(S("str"), 2 if deep else 1)))], [[1], [2]],
              ["new", "conv", "set", "touch"], values={"u8": [[7]], "str": [[97]], "char": [[97]]}, cap=1)]
    return r


def of_C03(deep):
    ops = ["build", "set", "get", "getmember", "foreachset", "iter", "items", "cast", "setself"]
    r = [one("write-nested", STRUCT("N", ("a", I32), ("n", STRUCT("I", ("x", U16), ("y", S("str", 1)))), ("q", SEQ(U8, 2))), ops, values=FEW),
         one("write-inherited", STRUCT("N", ("z", E1), p=STRUCT("B", ("x", U8), ("a", ARR(U16, 2)))), ops, values=FEW),
         one("write-entries", STRUCT("N", ("m", MAP(U8, PT, 2)), ("u", UN)), ["build", "set", "get", "touch"], cap=2, values=FEW)]
    return r


def of_C04(deep):
    ops = list(LIFE) + ["set", "push", "setref", "assignref", "copyref", "pushref", "resize"]
    r = [two("copies-struct", STRUCT("A", ("s", S("str")), ("q", SEQ(U8, 2))), ops, values=FEW, cap=1 if not deep else 2),
         Inst("copies-elements", [SEQ(PT, 2), PT], [[1], [2]], ops, values={"u8": [[7]]}, cap=2),
         Inst("copies-maps", [MAP(U8, S("str"), 2), S("str")], [[1], [2]], ops + ["insert", "insertpair", "touch"], values={"u8": [[0], [7]], "str": [[97]]}, cap=2)]
    return r


def wrap(t, n="W"):
    return STRUCT(n, ("x", t))


# types and structures with them as their only member
WRAPPED = [U8, wrap(P("i16")), ARR(U8, 2), wrap(ARR(P("i16"), 1)), S("str"), wrap(wrap(S("str", 1)), "W2"), SEQ(U8), wrap(ALIAS("N", SEQ(P("i16"), 1))), MAP(U8, S("str")),
           wrap(MAP(P("i16"), S("str", 1))), UN, wrap(UN), E1, wrap(U8), ARR(wrap(U8), 2), wrap(ARR(U8, 2)), STRUCT("P1", ("p", {"k": "pair", "a": U8, "c": S("str")})),
           {"k": "pair", "a": P("i16"), "c": S("str", 1)}]


def of_C05(deep):
    ops = ["build", "conv", "set"]
    A1 = STRUCT("A", ("x", P("i8")), ("s", S("str", 1)), ("q", SEQ(U8, 1)))
    A2 = STRUCT("A", ("q", SEQ(P("i16"), 2)), ("x", U16), ("s", S("str")), ("z", E2))
    r = [Inst("convert-struct", [A1, A2], [[1], [2]], ops, values={"i8": [[255], [128]] if deep else [[255]], "u8": [[200]], "i16": [[255, 255], [0, 1]], "u16": [[0, 128]], "str": [[97], [97, 98]]}),
         Inst("convert-kinds", [P(k) for k in ("i8", "u16", "i64", "f64", "char", "bool")] + [E1, S("str", 1), S("str")], [[1, 2, 3, 4, 5, 6, 7, 8, 9]] * (2 if deep else 1), ops,
              values={"f64": [[0], [6], [400]]}),
         Inst("convert-elements", [ARR(STRUCT("A", ("x", U8)), 2), ARR(STRUCT("B", ("y", U16)), 3 if deep else 1), SEQ(ARR(U8, 2), 2), SEQ(ARR(P("i8"), 3 if deep else 1))],
              [[1, 3], [2, 4]], ops, values={"u8": [[200]], "u16": [[9, 2]], "i8": [[255]]}),
         Inst("convert-wrapped", WRAPPED, [[2 * i + 1 for i in range(len(WRAPPED) // 2)] + [6], [2 * i + 2 for i in range(len(WRAPPED) // 2)]] if deep else
              [[1, 3, 5, 7], [2, 4, 6, 8]], ["build", "conv"],
              values={"u8": [[200]], "str": [[97, 98]], "i16": [[7, 0]]}, cap=1, keys=1),
         Inst("convert-unions", [UNION("V", U8, ("c0", U8, [1, 2]), ("c1", S("str", 1), [4])), UNION("V", U8, ("c1", S("str"), [4]), ("c0", U16, [1, 2])),
                                 UNION("V", U8, ("c0", U8, [1, 2]), ("c1", S("str"), [4], True))], [[1, 2, 3], [1, 2, 3]], ops + ["dset"], values=FEW)]
    return r


def of_C06(deep):
    ops = list(LIFE) + ["push", "setref", "copyref", "resize", "insertpair", "touch", "conv", "foreachset", "dset"]
    vs = {"str": [[97] * 20], "u8": [[7]]}
    return [Inst("memory-sequence", [SEQ(S("str"), 2), S("str"), ARR(S("str"), 2)], [[1, 3], [2]], ops + ["pushref", "vec"], values=vs, cap=2),
            Inst("memory-map", [MAP(S("str"), SEQ(S("str"), 1), 1)], [[1], [1]], ops + ["insert", "haskey"], values=vs, cap=1, keys=1),
            Inst("memory-union", [UNION("V", U8, ("c0", S("str"), [1, 2]), ("c1", ARR(S("str"), 2), [4], True)), STRUCT("A", ("x", S("str")))], [[1], [1, 2]], ops + ["set"],
                 values=vs, cap=1)]


def of_C07(deep):
    ops = ["build", "push", "resize", "set", "size", "copy", "assign", "pushref", "iter", "get", "setref"]
    r = [two("sequence-bounded", SEQ(U16, 2), ops, values={"u16": [[0, 0], [3, 1], [255, 255]]}, cap=3),
         (two if deep else one)("sequence-unbounded", SEQ(S("str")), ops, values={"str": [[], [97, 98]]}, cap=2 if not deep else 3),
         one("sequence-of-sequences", SEQ(SEQ(U8, 2), 2), ops, values={"u8": [[0], [7]]}, cap=2),
         (two if deep else one)("sequence-in-struct", STRUCT("A", ("q", SEQ(U8, 1)), ("r", SEQ(U8))), ops, values={"u8": [[0], [7]]}, cap=2)]
    return r


def of_C08(deep):
    ops = ["build", "set", "get", "setself", "copy", "size", "bounds", "caststr", "setref", "iter", "vec", "eq", "conv"]
    vs = {"str": [[], [97], [97, 0, 98]], "wstr": [[], [[97, 0, 0, 0]], [[172, 32, 0, 0], [97, 0, 0, 0]]],
          "u16str": [[], [[97, 0]], [[172, 32], [97, 0], [0, 0]]], "char": [[98]], "wc": [[97, 38, 0, 0]], "c16": [[97, 38]]}
    vs = {k: v for k, v in vs.items()}
    r = [Inst("strings", [S("str"), S("str", 2)], [[1, 2], [1, 2]], ops, values=vs, cap=3),
         one("strings-wide", STRUCT("A", ("w", S("wstr", 2)), ("x", S("wstr")), ("s", S("str", 1))), ops, values={"wstr": STRW, "str": [[], [97]], "wc": [b(200, 4)]}, cap=3),
         one("strings-16", STRUCT("A", ("w", S("u16str", 2)), ("x", SEQ(S("u16str"), 2 if deep else 1))), ops + ["push"], values={"u16str": STRW, "c16": [b(200, 2)]}, cap=3)]
    return r


STRW = [[], [97], [8364, 97, 98]]


def of_C09(deep):
    ops = ["build", "insertpair", "haskey", "touch", "get", "set", "copy", "assign", "size", "iter", "insert"]
    r = [two("map-bounded", MAP(U8, U16, 2), ops, values={"u8": [[0], [7], [255]], "u16": [[0, 0], [3, 1]][not deep:]}, cap=2, keys=3),
         one("map-of-text", MAP(S("str"), SEQ(U8, 1), 3), ops, values={"str": [[], [97], [97, 98]], "u8": [[7]]}, cap=3, keys=3),
         one("map-of-maps", MAP(U8, MAP(S("str", 1), U8)), ["build", "insertpair", "touch", "get", "set", "size", "haskey"], values={"u8": [[0], [7]], "str": [[], [97]]}, cap=2),
         one("map-of-struct-keys", MAP(PT, U8, 2), ops, values={"u8": [[0], [7]]}, cap=2)]
    return r


def of_C10(deep):
    ops = ["new", "build", "touch", "set", "get", "dset", "cur", "getmember", "copy", "assign", "setref"]
    vs = {"u8": [[0], [7]], "u16": [[3, 1]], "str": [[], [97]]}
    r = [two("union-plain", UN, ops, values=vs, discs=[9, 0]),
         one("union-defaults", UD, ops, values=vs, discs=[1, 3, 9, 32767], cap=1),
         two("union-labelled-default", UL, ops, values=vs, discs=[0]),
         two("union-enum", UE, ops, values=vs, discs=[2, 9]),
         one("union-enum4", UNION("X4", ENUM("E4", 4, 0, 2, 70000), ("c0", U8, [0, 70000]), ("c1", U16, [2])), ops, values=vs, discs=[3, 70000]),
         two("union-bool", UB, ops, values=vs, discs=[0]),
         one("union-elements", ARR(UN, 2), ops, values={"u8": [[7]], "str": [[97]]}, discs=[9])]
    return r


def of_C11(deep):
    ops = ["new", "build", "set", "get", "cast", "caststr", "copy", "assign", "conv", "setref"]
    vs = {"u8": [[0], [1], [3], [2]], "u16": [[1, 0], [5, 0]]}
    r = [Inst("enum-conversions", [E1, P("u8"), E2, P("u16"), P("i8")], [[1, 2, 5], [1, 3, 4]], ops, misuse=True, values=vs),
         Inst("enum-in-struct", [STRUCT("A", ("e", E1), ("q", SEQ(E2, 2)), ("k", MAP(E1, E2, 1)))], [[1]],
              ["new", "build", "set", "get", "resize", "touch", "cast"], misuse=False, values=vs)]
    return r


def of_C12(deep):
    ops = ["build", "eq", "selfeq", "rehash", "set", "copy"]
    r = [two("equal-struct", STRUCT("A", ("s", S("str")), ("q", SEQ(U8, 2)), ("x", U16)), ops, values=FEW if deep else dict(FEW, u8=[[7]]), distinct=1, zeros=1),
         two("equal-union", UN, ops + ["dset", "touch"], values=FEW, distinct=1, zeros=1),
         two("equal-map", MAP(U8, S("str"), 2), (ops + ["touch", "insertpair"]) if deep else ["build", "touch", "eq", "selfeq", "rehash"], values={"u8": [[0], [7]], "str": [[97]] if not deep else [[], [97]]}, distinct=1, zeros=1),
         two("equal-array", ARR(STRUCT("A", ("e", E1), ("d", U8)), 2), ops, values={"u8": [[1], [7]]}, distinct=1, zeros=1)]
    return r


def of_C13(deep):
    ops = ["build", "foreach", "foreachset", "tvisit"]
    r = [one("traverse-struct", STRUCT("A", ("s", S("str", 1)), ("n", PT), ("q", SEQ(PT, 2))), ops, values={"u8": [[7]], "str": [[97]]}),
         one("traverse-map-union", STRUCT("A", ("m", MAP(U8, SEQ(U16, 1), 2)), ("u", UN), p=STRUCT("B", ("e", E1))), (ops if deep else ["build", "foreach"]) + ["set", "touch"], values={"u8": [[0], [7]] if deep else [[7]], "u16": [[3, 1]], "str": [[97]]},
             cap=2),
         one("traverse-array", ARR(UL, 2), ["build", "foreach", "foreachset", "tvisit", "touch"], values={"u8": [[7]], "str": [[97]]})]
    return r


def of_C14(deep):
    ops = ["build", "iter", "items", "vec", "size", "bounds", "get", "set", "push"]
    r = [one("iterate-struct", STRUCT("A", ("s", S("str", 2)), ("q", SEQ(U16, 2)), ("a", ARR(S("str"), 2)), p=STRUCT("B", ("b", U8))), ops,
             values={"u8": [[7]], "u16": [[3, 1]], "str": [[], [97, 98]], "char": [[97]]}),
         one("iterate-map", MAP(S("str"), ARR(U8, 2), 2), ["build", "iter", "size", "bounds", "insertpair", "touch", "vec"], values={"u8": [[7]], "str": [[], [97]]}, cap=2),
         one("iterate-elements", ARR(SEQ(U8, 2), 2), ops + ["resize"], values={"u8": [[0], [7]]}, cap=2)]
    return r


def of_C15(deep):
    ops = ["new", "build", "touch", "get", "set", "push", "resize", "dset", "getmember", "insertpair", "haskey", "size", "bounds", "iter", "items", "vec", "cur",
           "cast", "caststr", "assign", "setref", "assignref", "pushref", "conv", "insert"]
    small = {"u8": [[7]], "u16": [[3, 1]], "str": [[97]], "char": [[97]], "i32": [[1, 0, 0, 0]], "i16": [[1, 0]]}
    ts = [STRUCT("A", ("s", S("str", 1)), ("e", E1)), SEQ(U16, 1), MAP(U8, U8, 1), UN, E1, U8, ARR(U8, 2), S("str", 1)]
    pairs = [(1, 2), (3, 4), (5, 7), (6, 8), (2, 3), (4, 1), (7, 6), (8, 5)]
    if deep:
        pairs = [(i, j) for i in range(1, 9) for j in range(1, 9)]
    r = [Inst("misuse-%d-%d" % (i, j), [ts[i - 1], ts[j - 1]], [[1], [2]], ops, misuse=True, values=small, cap=1, discs=[9], keys=1) for i, j in pairs]
    return r


def of_C17(deep):
    return [operators(k, deep, both=deep or k in ("i8", "bool")) for k in PRIMS if k != "f128" or deep]


def of_C18(deep):
    ops = ["build", "set", "get", "copy", "assign", "setref", "eq", "copyref", "iter", "items", "vec", "foreach", "push", "resize", "print", "conv", "selfeq",
           "assignref", "cast", "haskey", "insertpair", "touch", "dset"]
    A = STRUCT("A", ("s", S("str")), ("q", SEQ(U8, 1)))
    B = ALIAS("N", STRUCT("A", ("s", ALIAS("O", S("str"))), ("q", ALIAS("M", ALIAS("L", SEQ(ALIAS("K", U8), 1))))))
    small = {"u8": [[7]], "str": [[97]], "u16": [[3, 1]]}
    r = [Inst("alias-struct", [A, B, SEQ(U8, 1)], [[1], [2]], ops, values=small, cap=1),
         Inst("alias-map", [MAP(U8, UE, 1), ALIAS("N", MAP(ALIAS("K", U8), ALIAS("G", UE), 1)), UE], [[1], [2]], ops if deep else [o for o in ops if o not in ("foreach", "print", "iter", "dset")], values=small, cap=1, keys=1),
         Inst("alias-types", [t for t in grid(1)[:24] for t in (t, ALIAS("N", ALIAS("M", t)))], [[]], ["compat", "tname"]),
         Inst("alias-array", [ARR(E1, 2), ALIAS("N", ARR(ALIAS("F", E1), 2)), ALIAS("F", E1)], [[1], [2]], ops, values={"u8": [[0], [3]]}, cap=1)]
    return r


def of_C23(deep):
    ops = ["build", "print", "set"]
    return [one("print-struct", STRUCT("A", ("s", S("str")), ("c", P("char")), ("e", E1), ("q", SEQ(PT, 2))), ops, values={"u8": [[7], [200]], "str": [[], [97, 98]], "char": [[98]]}),
            one("print-map-union", STRUCT("A", ("m", MAP(U8, SEQ(U16, 1), 2)), ("u", UN), p=STRUCT("B", ("d", P("i64")))), ops + ["touch", "dset"],
                values={"u8": [[0], [7]], "u16": [[3, 1]], "str": [[97]], "i64": [[0] * 8, [255] * 8]}, cap=2),
            one("print-prims", STRUCT("A", *[("m%d" % i, P(k)) for i, k in enumerate(k for k in PRIMS if k != "f128")]), ["build", "print"])]


def dumped(prop, tier):
    return [dict(i.dump(), name=i.name, kind="data", slots=i.slots, head={"ts": i.ts, "zeros": int(i.zeros)}) for i in instances(prop, tier)]
