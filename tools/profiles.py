"""What each property's check concentrates on.  Every profile still mixes in other operations: a fault may only show
after them."""
from xt import *

BASE = dict(build=4, new=2, copy=1, copyref=1, set=6, get=1, setref=1, push=1, resize=1, mapset=2, insertpair=1,
            dset=1, assign=1, touch=1, conv=1, eq=1, twin=0.6, growth=0.4, foreach=0.5, size=0.5)


def prof(ops, **k):
    o = dict(BASE)
    o.update(ops)
    d = dict(ops={a: b for a, b in o.items() if b > 0}, topt={}, vopt={}, misuse=0.1, maxlen=8, variants=1, stop=0.25, zeros=False,
             distinct=False)
    d.update(k)
    return d


ALL = ["prim", "str", "enum", "array", "seq", "map", "struct", "union"]
PROFILES = {
    "C01": prof(dict(compat=60, tname=4, conv=1), variants=5, topt=dict(alias=0.15), roots=6),
    "C02": prof(dict(new=10, resize=5, mapset=4, touch=6, dset=4, copyref=2, foreach=1, push=1, conv=2), topt=dict(alias=0.1)),
    "C03": prof(dict(set=20, setref=6, get=6, getmember=3, cast=2, iter=2, items=2, foreach=2, foreachset=2, mapset=3, setself=1)),
    "C04": prof(dict(growth=2, twin=4, copy=5, move=5, copyref=8, assign=5, assignref=6, setref=8, set=6, push=2, pushref=4, insert=3, new=1,
                     **{"del": 3}), variants=0.3),
    "C05": prof(dict(conv=20, set=4, mapset=2, push=2, build=8, assign=3, setref=2), variants=4, roots=6, topt=dict(alias=0.15)),
    "C06": prof(dict(growth=4, copy=3, move=3, copyref=4, assign=3, assignref=3, setref=4, push=4, pushref=4, insert=3, insertpair=3,
                     resize=4, hugesize=1, newhuge=1, mapset=4, dset=3, conv=6, vec=2, print=1, foreachset=1, iter=1, badpath=2, haskey=1, set=8,
                     **{"del": 3}), misuse=0.2, variants=2),
    "C07": prof(dict(growth=4, twin=2, push=14, pushref=8, resize=8, hugesize=1.5, newhuge=1, set=4, setref=4, size=2, iter=2, copy=2, move=1, assign=2, vec=1, copyref=2),
                topt=dict(kinds=["seq", "seq", "prim", "str", "struct", "array", "map", "union"], bound=0.4), maxlen=40,
                stop=0.1, variants=0.5),
    "C08": prof(dict(twin=2, set=20, get=4, setself=3, push=4, copyref=4, eq=4, size=4, caststr=2, setref=4, conv=5, iter=2, vec=2,
                     mapset=4, copy=2, assign=2, bounds=1, foreachset=1),
                topt=dict(kinds=["str", "str", "str", "prim", "struct", "seq", "map", "array", "union"], bound=0.6), variants=2),
    "C09": prof(dict(growth=2, twin=2, newhuge=0.7, mapset=14, insertpair=8, insert=5, haskey=8, size=3, copy=2, move=1, assign=3, copyref=3, iter=3, eq=2,
                     setref=3, foreach=1, set=5, conv=3), stop=0.12, maxlen=20,
                topt=dict(kinds=["map", "map", "prim", "str", "struct", "seq", "array"], bound=0.4, pairkeys=0.3), variants=0.7),
    "C10": prof(dict(twin=2, dset=10, dsetref=4, cur=6, getmember=5, touch=8, set=8, copyref=4, setref=4, foreach=3, assign=3, copy=2,
                     move=1, conv=3, size=1, eq=2, badpath=1), stop=0.12, misuse=0.2,
                topt=dict(kinds=["union", "union", "prim", "str", "struct", "seq", "enum"]), variants=1),
    "C11": prof(dict(set=20, get=4, cast=4, caststr=2, setref=4, conv=6, opasT=5, push=2, iter=2, eq=3, copyref=2, assign=3),
                topt=dict(kinds=["enum", "enum", "enum", "prim", "struct", "seq", "array", "map"],
                          prims=["u8", "u16", "u32", "i32", "u64"]), misuse=0.3, variants=2, stop=0.3),
    "C12": prof(dict(eq=12, twin=24, selfeq=4, rehash=5, set=8, copyref=4, copy=3, conv=2, push=3, mapset=4, assign=2),
                variants=1, topt=dict(alias=0.1, pairkeys=0), zeros=True, distinct=True, realias=0.4),
    "C13": prof(dict(foreach=20, tvisit=12, foreachset=5, touch=3, set=4), topt=dict(depth=4)),
    "C14": prof(dict(iter=14, items=10, vec=10, size=8, bounds=5, push=4, mapset=4, set=4, foreach=2)),
    "C15": prof(dict(badpath=10, set=8, get=5, push=3, resize=3, dset=5, getmember=4, conv=3, assign=3, assignref=3, setref=5,
                     insertpair=3, insert=2, haskey=3, size=2, bounds=2, iter=2, items=1, vec=3, cur=2, caststr=2, cast=3,
                     binop=3, unop=2, opas=2, opasT=3, pushref=3, mapset=3), misuse=0.55, variants=1.5),
    "C17": prof(dict(unop=14, binop=24, opas=10, opasT=12, cast=10, caststr=3, set=8, build=8, conv=3, get=1, copy=1),
                topt=dict(kinds=["prim"] * 8 + ["str", "struct", "seq", "enum"], depth=1), roots=14, variants=0.3, misuse=0.12,
                stop=0.6),
    "C18": prof(dict(twin=5, copy=2, copyref=3, setref=5, assign=3, assignref=3, foreach=3, items=2, iter=2, vec=3, push=4, pushref=3,
                     mapset=3, haskey=2, eq=4, rehash=2, conv=5, compat=6, get=3, set=8, cast=2, print=2, tvisit=3, dset=2,
                     dsetref=1, unop=1, binop=2, opas=1, opasT=1, getmember=1, bounds=1, insert=1),
                topt=dict(alias=0.6), variants=1, realias=1),
    "C23": prof(dict(print=30, set=8, foreachset=1), vopt=dict(wide=False)),
}


# Histories of declarations: weights of the operations that differ from the usual ones (tools/typehist.py)
TYPES = {
    "C16": {},
    "C18": {"named": 0.7, "share": 0.35,
            "ops": dict(alias=12, union=12, case=40, enum=3, enumerator=6, struct=4, member=10, labels=6, find=4, at=3, array=4, seq=4, map=4,
                        data=8, same=10)},
    "C11": {"ops": dict(enum=14, enumerator=50, enumat=12, find=14, data=8, struct=1, union=2, case=4, member=2, array=1, seq=1, map=0)},
}


# ... and in modules (tools/modhist.py)
MODULES = {
    "C19": {"ops": dict(ask=40, get=6, sub=7)},
    "C20": {"ops": dict(all=6, each=5, type=22, alias=8, const=13, later=3)},
}
