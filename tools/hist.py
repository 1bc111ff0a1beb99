"""Histories of operations, generated while they run: the generator looks at the data the library reports (never at
what the answer should be) to choose operations that apply, and sometimes ones that must be refused."""
import json, random
from xt import *

NSLOTS = 5


class Gone(Exception):
    """The driver crashed, hung or answered nothing."""


class Hist:
    def __init__(self, rng, io, types, prof, values=None):
        self.r, self.io, self.ts, self.prof = rng, io, types, prof
        self.vals = values or Values(rng)
        self.misuse = prof.get("misuse", 0.12)
        self.weights = prof["ops"]
        self.maxlen = prof.get("maxlen", 8)
        self.by_bare = {}
        for i, t in enumerate(types):
            self.by_bare.setdefault(repr(bare(t)), []).append(i + 1)

    # ---- episodes ----
    def episode(self, n):
        self.slot = [None] * NSLOTS          # type
        self.val = [None] * NSLOTS           # value as reported, None if moved from or dead
        self.queue, self.only = [], None
        self.io.begin()
        self.do(self.op_build(0) if self.r.random() < 0.8 else self.op_new(0))
        self.do(self.op_build(1))
        self.do(self.op_new(2))
        names = list(self.weights)
        ws = [self.weights[x] for x in names]
        done = 0
        tries = 0
        while done < n and tries < n * 20:
            tries += 1
            f = self.queue.pop(0) if self.queue else getattr(self, "op_" + self.r.choices(names, ws)[0])
            try:
                c = f()
            except (IndexError, ValueError, KeyError, TypeError):
                if self.prof.get("debug"):
                    raise
                c = None                     # nothing to apply it to
            if c is None:
                continue
            done += 1
            if not self.do(c):
                break
        self.io.end()

    def do(self, c):
        if c is None:
            return True
        e = self.io.cmd(c)
        if e.get("bad", 1) or e.get("op") == "skip":
            return False
        try:
            self.track(c, e)
        except (IndexError, KeyError, TypeError):
            return False
        return True

    def track(self, c, e):
        op = c["op"]
        if e["ok"]:
            s = c.get("s", 0) - 1
            if op in ("new", "build", "conv"):
                self.slot[s] = self.ts[c["t"] - 1]
            elif op == "del":
                self.slot[s] = None
            elif op in ("copy", "move"):
                self.slot[s] = self.slot[c["f"] - 1]
            elif op == "copyref":
                self.slot[s] = self.part_type
        for i, x in enumerate(e["st"]):
            self.val[i] = x[1] if x else None
            if not x and self.slot[i] is not None and op != "move" and self.val[i] is not None:
                self.slot[i] = None

    # ---- choosing ----
    def live(self):
        return [i for i in range(NSLOTS) if self.val[i] is not None]

    def a_slot(self, pred=None):
        if self.only is not None:
            return self.only if self.val[self.only] is not None else None
        l = [i for i in self.live() if pred is None or pred(self.slot[i], self.val[i])]
        return self.r.choice(l) if l else None

    def a_type(self):
        return self.r.randint(1, len(self.ts))

    def path(self, s, ro=False, noeffect=False, want=None, depth=None):
        """A path in the slot: (steps, type, value, part of a key?, string element?)"""
        t, v = U(self.slot[s]), self.val[s]
        steps, key, chr_ = [], False, False
        r = self.r
        stop_p = self.prof.get("stop", 0.25)
        for _ in range(6):
            if want is not None and want(t, v):
                if r.random() < 0.6:
                    break
            elif want is None and r.random() < stop_p:
                break
            nxt = self.child(t, v, ro, noeffect or (key and not ro))
            if nxt is None:
                break
            step, nt, nv, iskey, isch = nxt
            steps.append(step)
            key = key or iskey
            t, v, chr_ = U(nt), nv, isch
            if isch:
                break
        return steps, t, v, key, chr_

    def bad_step(self, t):
        r = self.r
        if t["k"] == "map" and r.random() < 0.5:
            i = self.not_a(t["e"]["a"])
            if i is not None:
                return [r.choice(["a", "k"]), i, self.vals.any(self.ts[i - 1], 1)]
        return r.choice([["i", r.choice([-1, 7, 0, 1, 100])], ["n", r.choice(["nope", "discriminator", "m0"])],
                         ["it", r.choice([0, 9])], ["a"] + self.key_of(None), ["k"] + self.key_of(None)])

    def not_a(self, t):
        """Some type of the table that must be refused where t is expected, rather one that could be converted to it"""
        l = [i for i in range(1, len(self.ts) + 1) if unlike(t, self.ts[i - 1])]
        near = [i for i in l if akin(t, self.ts[i - 1])]
        l = near if near and self.r.random() < 0.7 else l
        return self.r.choice(l) if l else None

    def key_of(self, kt, values=None):
        """[type index, value] for a key: of the type kt if there is one in the table"""
        r = self.r
        if kt is not None:
            ids = self.by_bare.get(repr(bare(kt)))
            if ids:
                i = r.choice(ids)
                if values and r.random() < 0.7:
                    v = r.choice(values)
                    if not contains(kt, ["union"]) and declared(kt, v):
                        return [i, v]
                return [i, self.vals.any(self.ts[i - 1], 2)]
            return None
        i = self.a_type()
        return [i, self.vals.any(self.ts[i - 1], 1)]

    def child(self, t, v, ro, noeffect):
        r = self.r
        k = t["k"]
        if k == "struct":
            ms = members(t)
            if not ms:
                return None
            i = r.randrange(len(ms))
            if len(v) != len(ms):
                return None
            return (r.choice([["i", i], ["n", ms[i]["n"]], ["n", ms[i]["n"], 1], ["im", i]]), ms[i]["t"], v[i], False, False)
        if k in ("array", "seq"):
            if not v:
                return None
            i = r.choice([0, len(v) - 1, r.randrange(len(v))])
            return (r.choice([["i", i], ["i", i], ["it", i]]), t["e"], v[i], False, False)
        if k == "pair":
            i = r.randint(0, 1)
            return (["i", i], t["a"] if i == 0 else t["c"], v[i], False, False)
        if k == "map":
            x = r.random()
            if v and x < 0.25:
                i = r.randrange(len(v))
                j = r.randint(0, 1)
                return (["it", i], t["e"], v[i], True, False)
            kv = self.key_of(t["e"]["a"], [e[0] for e in v])
            if kv is None:
                return None
            found = [e for e in v if same(t["e"]["a"], e[0], kv[1])]
            step = "k" if (not ro and not noeffect and r.random() < 0.6) else "a"
            if found:
                return ([step] + kv, t["e"]["c"], found[0][1], False, False)
            if step == "k" and (t["b"] == 0 or len(v) < t["b"]):
                return ([step] + kv, t["e"]["c"], default(t["e"]["c"]), False, False)
            return ([step] + kv, t["e"]["c"], default(t["e"]["c"]), False, False) if r.random() < self.misuse else None
        if k == "union":
            if ro and r.random() < 0.1:
                return (["d"], t["d"], v[0], False, False)
            cur = v[1]
            if ro or noeffect or r.random() < 0.6:
                m = cur
                if m == 0 or r.random() < self.misuse:
                    if noeffect:
                        return None
                    m = r.randint(1, len(t["cs"]))
            else:
                m = r.randint(1, len(t["cs"]))
            c = t["cs"][m - 1]
            return (["n", c["n"]] + ([1] if r.random() < 0.3 else []), c["t"], v[2] if m == cur else default(c["t"]), False, False)
        if k in STRS:
            if not v or r.random() < 0.7:
                return None
            i = r.randrange(len(v))
            ck = CHAR_OF[k]
            return (r.choice([["i", i], ["it", i]]), {"k": ck}, to_bytes(v[i], WIDTH[ck]), False, True)
        return None

    def target(self, ro=False, want=None, noeffect=False):
        """A part to act on: (slot, steps, type, value, key part?).  Sometimes through a path that must be refused."""
        s = self.a_slot()
        if s is None:
            return None
        if want is not None:
            good = [i for i in self.live() if reach(self.slot[i], want)]
            if good and self.only is None:
                s = self.r.choice(good)
        steps, t, v, key, ch = self.path(s, ro, noeffect, want)
        if want is not None and not want(t, v) and self.r.random() > self.misuse:
            return None
        if self.r.random() < self.misuse * 0.4 and not noeffect:
            b = self.bad_step(t)
            if b and (b[0] != "k" or not ro) and not (key and t["k"] in ("seq", "map")):
                steps = steps + [b]
                x = self.taken(t, v, b)
                if x:
                    t, v = U(x[0]), x[1]
                    key = key or x[2]
        return s, steps, t, v, key

    def taken(self, t, v, b):
        """(type, value, part of a key?) of where a step meant to be refused leads, should it apply after all"""
        k = t["k"]
        if b[0] in ("a", "k"):
            return (t["e"]["c"], default(t["e"]["c"]), False) if k == "map" else None
        if b[0] not in ("i", "it"):
            return None
        i = b[1]
        if k == "struct" and 0 <= i < len(members(t)):
            return members(t)[i]["t"], v[i], False
        if k == "pair" and 0 <= i < 2:
            return t["a"] if i == 0 else t["c"], v[i], i == 0
        if i < 0 or k not in ["array", "seq", "map"] + STRS or i >= len(v):
            return None
        if k in STRS:
            return {"k": CHAR_OF[k]}, to_bytes(v[i], WIDTH[CHAR_OF[k]]), False
        return t["e"], v[i], k == "map"

    # ---- operations ----
    def op_new(self, s=None):
        return {"op": "new", "s": (self.r.randrange(NSLOTS) if s is None else s) + 1, "t": self.a_type()}

    def op_build(self, s=None):
        t = self.a_type()
        s = self.r.randrange(NSLOTS) if s is None else s
        if self.r.random() < 0.4 and self.live():       # another data of a type in use
            ids = self.by_bare.get(repr(bare(self.slot[self.a_slot()])))
            if ids:
                t = self.r.choice(ids)
        return {"op": "build", "s": s + 1, "t": t, "v": self.vals.any(self.ts[t - 1])}

    def op_del(self):
        l = [i for i in range(NSLOTS) if self.slot[i] is not None]
        return {"op": "del", "s": self.r.choice(l) + 1} if len(self.live()) > 1 else None

    def op_copy(self):
        f = self.a_slot()
        return {"op": "copy", "s": self.r.randrange(NSLOTS) + 1, "f": f + 1}

    CHANGES = ["set", "set", "set", "dset", "dset", "push", "resize", "mapset", "touch", "setref"]

    def op_twin(self):
        """A copy, a change in one of the two, and their comparison"""
        f = self.a_slot()
        s = self.r.choice([i for i in range(NSLOTS) if i != f])
        name = self.r.choice(self.CHANGES)

        def change():
            self.only = self.r.choice([f, s])
            try:
                return getattr(self, "op_" + name)()
            finally:
                self.only = None

        def compare():
            a, b = self.r.sample([s, f], 2)
            if repr(bare(self.slot[s])) != repr(bare(self.slot[f])):
                return None
            return {"op": "eq", "s": a + 1, "p": [], "f": b + 1, "q": [], "distinct": int(self.prof["distinct"])}
        self.queue = [change, compare]
        if self.r.random() < 0.4:
            ids = self.by_bare.get(repr(bare(self.slot[f])))
            if ids and not contains(self.slot[f], ["union", "enum"]):       # the same value, built from nothing, but in one part
                self.queue = [compare]
                v = self.val[f] if self.r.random() < 0.35 else self.vals.near(self.slot[f], self.val[f])
                return {"op": "build", "s": s + 1, "t": self.r.choice(ids), "v": v}
        return {"op": "copy", "s": s + 1, "f": f + 1}

    def op_growth(self):
        """A collection grows, is taken elsewhere, and both grow"""
        r = self.r
        s, p, t, v, key = self.target(noeffect=True, want=lambda t, v: t["k"] in ("seq", "map"))
        if key or t["k"] not in ("seq", "map"):
            return None
        size = [len(v)]
        o = r.choice([i for i in range(NSLOTS) if i != s])

        def more(s, p):
            def f():
                size[0] += 1
                if t["b"] == 0 and size[0] > 2 * self.maxlen:
                    return None
                if t["k"] == "map":
                    kv = self.key_of(t["e"]["a"])
                    return kv and {"op": "touch", "s": s + 1, "p": p + [["k"] + kv], "ro": 0}
                e = U(t["e"])
                if e["k"] in PRIMS + STRS and r.random() < 0.8:
                    k, x = self.value_for(e)
                    return {"op": "push", "s": s + 1, "p": p, "k": k, "v": x}
                if r.random() < 0.6:
                    return {"op": "pushref", "s": s + 1, "p": p, "f": s + 1, "q": p + [["i", r.randrange(3)]]}
                return {"op": "resize", "s": s + 1, "p": p, "n": size[0]}
            return f
        ids = self.by_bare.get(repr(bare(t)))
        ways = ["copy", "copy", "copyref", "copyref", "assign", "move"] + (["conv"] if ids else [])
        way = r.choice(ways)

        def taken():
            whole = way in ("copy", "move", "assign")
            self.part_type = t
            if way == "assign":
                if self.slot[o] is None or repr(bare(self.slot[o])) != repr(bare(self.slot[s])):
                    return {"op": "copy", "s": o + 1, "f": s + 1}
                return {"op": "assign", "s": o + 1, "f": s + 1}
            if way == "copyref":
                return {"op": "copyref", "s": o + 1, "f": s + 1, "q": p, "ro": r.randint(0, 1), "via": r.randint(0, 1)}
            if way == "conv":
                return {"op": "conv", "s": o + 1, "f": s + 1, "q": p, "t": r.choice(ids), "ro": r.randint(0, 1)}
            return {"op": way, "s": o + 1, "f": s + 1}
        q = p if way in ("copy", "move", "assign") else []
        later = [more(o, q) for _ in range(r.randint(1, 4))]
        if way != "move":
            later += [more(s, p) for _ in range(r.randint(0, 2))]
            r.shuffle(later)
        self.queue = [more(s, p) for _ in range(r.randint(0, 4))] + [taken] + later
        return self.queue.pop(0)()

    def op_move(self):
        f = self.a_slot()
        if len(self.live()) < 2:
            return None
        return {"op": "move", "s": self.r.randrange(NSLOTS) + 1, "f": f + 1}

    def op_copyref(self):
        ro = self.r.randint(0, 1)
        f, q, t, v, key = self.target(ro=bool(ro), noeffect=not ro and self.r.random() < 0.5)
        self.part_type = t
        return {"op": "copyref", "s": self.r.randrange(NSLOTS) + 1, "f": f + 1, "q": q, "ro": ro, "via": self.r.randint(0, 1)}

    def op_conv(self):
        ro = self.r.randint(0, 1)
        f, q, t, v, key = self.target(ro=bool(ro))
        ids = range(1, len(self.ts) + 1)
        near = [i for i in ids if U(self.ts[i - 1])["k"] == t["k"]]
        fams = [i for i in ids if self.family(i) and self.family(i) == self.family_of(t)]
        x = self.r.random()
        pool = fams if fams and x < 0.6 else near if near and x < 0.85 else list(ids)
        return {"op": "conv", "s": self.r.randrange(NSLOTS) + 1, "f": f + 1, "q": q, "t": self.r.choice(pool), "ro": ro}

    fam = None

    def family(self, i):
        return self.fam[i - 1] if self.fam else None

    def family_of(self, t):
        for i, x in enumerate(self.ts):
            if U(x) is t or x is t:
                return self.family(i + 1)
        return None

    def src_same(self, t, s, ro, avoid_key=False):
        """A part whose type equals t as a source"""
        want = repr(bare(t))
        for _ in range(8):
            f = self.a_slot()
            if f is None:
                return None
            steps, st, sv, key, ch = self.path(f, ro, noeffect=(not ro), want=lambda x, v: repr(bare(x)) == want)
            if repr(bare(st)) == want:
                return f, steps, st, sv
        return None

    def src_unlike(self, t, ro):
        """A part that can't be given where a t is expected, rather of a type that could be converted to it"""
        x = None
        for _ in range(8):
            f = self.a_slot()
            steps, st, sv, key, ch = self.path(f, ro, noeffect=(not ro))
            if unlike(t, st):
                x = f, steps, st, sv
                if akin(t, st):
                    break
        return x

    def op_assign(self):
        s = self.r.choice([i for i in range(NSLOTS) if self.slot[i] is not None])
        want = repr(bare(self.slot[s]))
        l = [i for i in self.live() if repr(bare(self.slot[i])) == want]
        if not l or self.r.random() < self.misuse:
            l = self.live()
        return {"op": "assign", "s": s + 1, "f": self.r.choice(l) + 1}

    def op_assignref(self):
        s = self.r.choice([i for i in range(NSLOTS) if self.slot[i] is not None])
        x = self.src_same(self.slot[s], s, True) if self.r.random() > self.misuse else None
        if x is None:
            f, q, t, v, key = self.target(ro=True)
            return {"op": "assignref", "s": s + 1, "f": f + 1, "q": q}
        return {"op": "assignref", "s": s + 1, "f": x[0] + 1, "q": x[1]}

    def op_setref(self):
        s, p, t, v, key = self.target()
        if key:
            return None
        x = self.src_same(t, s, False) if self.r.random() > self.misuse else None
        if x is None:
            if self.r.random() > self.misuse:
                return None
            f, q, _, _, _ = self.target(noeffect=True)
        else:
            f, q = x[0], x[1]
        if f == s and effects(p):
            return None
        return {"op": "setref", "s": s + 1, "p": p, "f": f + 1, "q": q}

    def value_for(self, t):
        if t["k"] in STRS:
            return t["k"], self.vals.text(t["k"])
        if t["k"] == "enum":
            k = {1: "u8", 2: "u16", 4: "u32"}[t["w"]]
            if self.r.random() < self.misuse:
                k = self.r.choice(["u8", "u16", "u32"])
            if WIDTH[k] == t["w"] and self.r.random() > self.misuse * 2:
                return k, self.r.choice(t["es"])["v"]
            return k, to_bytes(self.r.choice([0, 1, 2, 3, 5, 8, 13, 77, 255]), WIDTH[k])
        if t["k"] in WIDTH:
            return t["k"], self.vals.prim(t["k"])
        k = self.r.choice(PRIMS + STRS)
        return k, (self.vals.text(k) if k in STRS else self.vals.prim(k))

    LEAF = PRIMS + STRS + ["enum"]

    def op_set(self):
        s, p, t, v, key = self.target(want=lambda t, v: t["k"] in self.LEAF)
        if key:
            return None
        k, x = self.value_for(t)
        if self.r.random() < self.misuse * 0.7 and t["k"] != "enum":
            k = self.r.choice([k] + PRIMS + STRS)
            x = self.vals.text(k) if k in STRS else self.vals.prim(k)
        via = self.r.choice([0, 0, 1])
        if not p and self.r.random() < 0.4:
            via = 2
        return {"op": "set", "s": s + 1, "p": p, "k": k, "v": x, "via": via}

    def op_setself(self):
        s, p, t, v, key = self.target(want=lambda t, v: t["k"] in PRIMS + STRS)
        if key:
            return None
        return {"op": "setself", "s": s + 1, "p": p, "k": t["k"] if t["k"] in PRIMS + STRS else "u8"}

    def op_get(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro), want=lambda t, v: t["k"] in self.LEAF)
        k, _ = self.value_for(t)
        if self.r.random() < self.misuse and t["k"] != "enum":
            k = self.r.choice(PRIMS + STRS)
        return {"op": "get", "s": s + 1, "p": p, "k": k, "ro": ro}

    def op_cast(self):
        s, p, t, v, key = self.target(ro=True, want=lambda t, v: t["k"] in PRIMS + ["enum"])
        return {"op": "cast", "s": s + 1, "p": p, "k": self.r.choice(PRIMS), "ro": 1}

    def op_caststr(self):
        s, p, t, v, key = self.target(ro=True, want=lambda t, v: t["k"] in self.LEAF)
        return {"op": "caststr", "s": s + 1, "p": p, "ro": 1}

    def seq_target(self):
        return self.target(want=lambda t, v: t["k"] == "seq")

    def op_push(self):
        s, p, t, v, key = self.target(want=lambda t, v: t["k"] == "seq" and U(t["e"])["k"] in PRIMS + STRS)
        if key or (t["k"] == "seq" and t["b"] == 0 and len(v) >= self.maxlen):
            return None
        k, x = self.value_for(U(t["e"])) if t["k"] == "seq" and U(t["e"])["k"] != "enum" else ("u8", [1])
        if self.r.random() < self.misuse:
            k = self.r.choice(PRIMS + STRS)
            x = self.vals.text(k) if k in STRS else self.vals.prim(k)
        return {"op": "push", "s": s + 1, "p": p, "k": k, "v": x}

    def op_pushref(self):
        s, p, t, v, key = self.seq_target()
        if key or (t["k"] == "seq" and t["b"] == 0 and len(v) >= self.maxlen):
            return None
        x = self.src_same(t["e"], s, False) if t["k"] == "seq" else None
        if t["k"] == "seq" and self.r.random() < self.misuse * 0.3:
            x = self.src_unlike(t["e"], False)
        if x is None:
            if self.r.random() > self.misuse:
                return None
            f, q, st, _, _ = self.target(noeffect=True)
            if t["k"] == "seq" and not unlike(t["e"], st):
                return None
        else:
            f, q = x[0], x[1]
        if f == s and effects(p):
            return None
        return {"op": "pushref", "s": s + 1, "p": p, "f": f + 1, "q": q}

    def op_resize(self):
        s, p, t, v, key = self.seq_target()
        if key:
            return None
        n = len(v) if t["k"] == "seq" else 0
        m = self.r.choice([n, n + 1, n + 2, n + 3, max(0, n - 1), 0])
        if t["k"] == "seq" and U(t["e"])["k"] in PRIMS and (t["b"] == 0 or t["b"] in BIG) and self.r.random() < (0.04 if t["b"] == 0 else 0.4):
            m = self.r.choice(BIG)
        elif t["k"] == "seq" and t["b"] == 0 and m > self.maxlen:
            return None
        return {"op": "resize", "s": s + 1, "p": p, "n": m}

    def op_hugesize(self):
        s, p, t, v, key = self.seq_target()
        if t["k"] == "seq" and not takes_memory(t["e"]):      # any number of them can be had
            return None
        return None if key else {"op": "hugesize", "s": s + 1, "p": p, "how": self.r.randrange(6)}

    def op_newhuge(self):
        t, u = self.a_type(), self.a_type() if self.r.random() < 0.4 else 0
        return {"op": "newhuge", "t": t, "u": u, "how": self.r.randrange(4)} if u or takes_memory(self.ts[t - 1]) else None

    def map_target(self):
        return self.target(want=lambda t, v: t["k"] == "map")

    def op_insertpair(self):
        s, p, t, v, key = self.map_target()
        if key or (t["k"] == "map" and t["b"] == 0 and len(v) >= self.maxlen):
            return None
        if t["k"] == "map" and self.r.random() > self.misuse * 0.5:
            ids = self.by_bare.get(repr(bare(t["e"])))
            if not ids:
                return None
            i = self.r.choice(ids)
        else:
            i = self.not_a(t["e"]) if t["k"] == "map" else self.a_type()
            if i is None:
                return None
        x = self.vals.any(self.ts[i - 1], 2)
        if t["k"] == "map" and v and self.r.random() < 0.3 and not contains(t["e"], ["union"]) and U(self.ts[i - 1])["k"] == "pair" \
                and repr(bare(U(self.ts[i - 1])["a"])) == repr(bare(t["e"]["a"])):
            key = self.r.choice(v)[0]
            if declared(t["e"]["a"], key):
                x = [key, x[1]]
        return {"op": "insertpair", "s": s + 1, "p": p, "t": i, "v": x}

    def op_insert(self):
        s, p, t, v, key = self.map_target()
        if key or (t["k"] == "map" and t["b"] == 0 and len(v) >= self.maxlen):
            return None
        x = self.src_same(t["e"], s, True) if t["k"] == "map" else None
        if t["k"] == "map" and self.r.random() < self.misuse * 0.3:
            x = self.src_unlike(t["e"], True)
        if x is None:
            if self.r.random() > self.misuse:
                return None
            f, q, st, _, _ = self.target(ro=True)
            if t["k"] == "map" and not unlike(t["e"], st):
                return None
        else:
            f, q = x[0], x[1]
        if f == s and effects(p):
            return None
        return {"op": "insert", "s": s + 1, "p": p, "f": f + 1, "q": q}

    def op_mapset(self):
        """map[key] = value"""
        s, p, t, v, key = self.map_target()
        if key or t["k"] != "map":
            return None
        kv = self.key_of(t["e"]["a"], [e[0] for e in v])
        ct = U(t["e"]["c"])
        if kv is None or (t["b"] == 0 and len(v) >= self.maxlen):
            return None
        p = p + [["k"] + kv]
        if ct["k"] in self.LEAF:
            k, x = self.value_for(ct)
            return {"op": "set", "s": s + 1, "p": p, "k": k, "v": x, "via": 0}
        return {"op": "touch", "s": s + 1, "p": p, "ro": 0}

    def op_haskey(self):
        s, p, t, v, key = self.map_target()
        kv = self.key_of(t["e"]["a"], [e[0] for e in v]) if t["k"] == "map" else None
        if t["k"] == "map" and self.r.random() < self.misuse * 0.4:
            i = self.not_a(t["e"]["a"])
            if i is None:
                return None
            kv = [i, self.vals.any(self.ts[i - 1], 1)]
        if kv is None:
            if self.r.random() > self.misuse:
                return None
            kv = self.key_of(None)
            if t["k"] == "map" and not unlike(t["e"]["a"], self.ts[kv[0] - 1]):
                return None
        return {"op": "haskey", "s": s + 1, "p": p, "t": kv[0], "v": kv[1]}

    COLL = ["array", "seq", "map"] + STRS

    def op_size(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro), want=lambda t, v: t["k"] in self.COLL + ["struct", "union", "pair"])
        return {"op": "size", "s": s + 1, "p": p, "ro": ro}

    def op_bounds(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro), want=lambda t, v: t["k"] in self.COLL)
        return {"op": "bounds", "s": s + 1, "p": p, "ro": ro}

    def union_target(self, ro=False):
        return self.target(ro=ro, want=lambda t, v: t["k"] == "union")

    def op_dset(self):
        s, p, t, v, key = self.union_target()
        if key:
            return None
        w = disc_width(t) if t["k"] == "union" else 4
        labels = [l for c in t["cs"] for l in c["ls"]] if t["k"] == "union" else []
        if labels and self.r.random() < 0.75:
            if v[1] and t["cs"][v[1] - 1]["ls"] and self.r.random() < 0.5:
                labels = t["cs"][v[1] - 1]["ls"]
            l = list(self.r.choice(labels))
        else:
            l = to_bytes(self.r.choice([0, 1, 2, 3, 7, 50, 99]), w)
        return {"op": "dset", "s": s + 1, "p": p, "v": l}

    def op_dsetref(self):
        s, p, t, v, key = self.union_target()
        if key or t["k"] != "union":
            return None
        want = repr(bare(t["d"]))
        for _ in range(6):
            f = self.a_slot()
            steps, st, sv, k2, ch = self.path(f, True, want=lambda x, v: repr(bare(x)) == want or x["k"] == "union")
            if st["k"] == "union" and repr(bare(st["d"])) == want:
                return {"op": "dsetref", "s": s + 1, "p": p, "f": f + 1, "q": steps + [["d"]]} if not (f == s and effects(p)) else None
            if repr(bare(st)) == want:
                return {"op": "dsetref", "s": s + 1, "p": p, "f": f + 1, "q": steps} if not (f == s and effects(p)) else None
        return None

    def op_cur(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.union_target(bool(ro))
        return {"op": "cur", "s": s + 1, "p": p, "ro": ro}

    def op_touch(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro))
        return {"op": "touch", "s": s + 1, "p": p, "ro": ro}

    def op_badpath(self):
        """a path with a step that does not apply"""
        ro = self.r.randint(0, 1)
        s = self.a_slot()
        steps, t, v, key, ch = self.path(s, bool(ro))
        if key and not ro:
            return None
        b = self.bad_step(t)
        if b is None or (ro and b[0] == "k"):
            return None
        return {"op": "touch", "s": s + 1, "p": steps + [b], "ro": ro}

    def op_getmember(self):
        s, p, t, v, key = self.target(want=lambda t, v: t["k"] in ("struct", "union"))
        if t["k"] == "struct":
            n = self.r.choice([m["n"] for m in members(t)] + (["nope"] if self.r.random() < self.misuse else []))
        elif t["k"] == "union":
            n = self.r.choice([c["n"] for c in t["cs"]] + ["discriminator"])
        else:
            n = "nope"
        return {"op": "getmember", "s": s + 1, "p": p, "n": n}

    def op_eq(self):
        s, p, t, v, key = self.target(ro=True)
        want = repr(loose(t))
        for _ in range(8):
            f = self.a_slot()
            steps, st, sv, k2, ch = self.path(f, True, want=lambda x, v: repr(loose(x)) == want)
            if repr(loose(st)) == want:
                if t["k"] == "array" and repr(bare(st)) != repr(bare(t)):
                    continue
                if (f, steps) == (s, p) and self.r.random() < 0.8:
                    continue
                return {"op": "eq", "s": s + 1, "p": p, "f": f + 1, "q": steps, "distinct": int(self.prof["distinct"])}
        return None

    def op_selfeq(self):
        s, p, t, v, key = self.target(ro=True)
        return {"op": "selfeq", "s": s + 1, "p": p}

    def op_rehash(self):
        s, p, t, v, key = self.target(ro=True)
        return {"op": "rehash", "s": s + 1, "p": p}

    def op_iter(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro), want=lambda t, v: t["k"] in self.COLL)
        return {"op": "iter", "s": s + 1, "p": p, "ro": ro, "via": self.r.randrange(4)}

    def op_items(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro), want=lambda t, v: t["k"] == "struct")
        if t["k"] in ("union", "pair"):
            return None
        return {"op": "items", "s": s + 1, "p": p, "ro": ro, "via": self.r.randrange(4)}

    def op_vec(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro), want=lambda t, v: t["k"] in self.COLL)
        e = None if t["k"] not in self.COLL else U(t["e"])["k"] if t["k"] in ("array", "seq") else CHAR_OF.get(t["k"])
        k = e if e in PRIMS + STRS and self.r.random() > self.misuse else self.r.choice(PRIMS + STRS)
        return {"op": "vec", "s": s + 1, "p": p, "k": k, "ro": ro}

    def op_foreach(self):
        ro = self.r.randint(0, 1)
        s, p, t, v, key = self.target(ro=bool(ro))
        return {"op": "foreach", "s": s + 1, "p": p, "ro": ro, "stop": self.r.choice([0, 0, 1, 2, 3, 5, 8]),
                "how": self.r.choice([0, 0, 1, 1, 2])}

    def op_foreachset(self):
        s, p, t, v, key = self.target(want=lambda t, v: not contains(t, ["map"]))
        if key or contains(t, ["map"]):
            return None
        ks = leaf_kinds(t)
        k = self.r.choice(sorted(ks)) if ks else "u8"
        return {"op": "foreachset", "s": s + 1, "p": p, "k": k, "v": self.vals.text(k) if k in STRS else self.vals.prim(k),
                "stop": self.r.choice([0, 0, 0, 1, 2, 3, 5, 8]), "how": self.r.choice([0, 0, 1, 1, 2])}

    def op_print(self):
        s, p, t, v, key = self.target(ro=True)
        return {"op": "print", "s": s + 1, "p": p, "ro": 1, "os": 1 if not p and self.r.random() < 0.5 else 0}

    # ---- operators ----
    def prim_slot(self, misuse=None):
        m = self.misuse if misuse is None else misuse
        s = self.a_slot(lambda t, v: U(t)["k"] in PRIMS)
        if s is None or self.r.random() < m:
            s = self.a_slot()
        return s

    def op_unop(self):
        s = self.prim_slot()
        t, v = U(self.slot[s]), self.val[s]
        o = self.r.choice(["neg", "com", "not", "preinc", "postinc", "predec", "postdec"])
        k = t["k"]
        if k in FLOATS and o == "neg" and (v == [0] or len(v) != 1):
            return None
        if k in ("i32", "i64"):
            x = from_bytes(v, True)
            lim = 1 << (8 * WIDTH[k] - 1)
            if (o == "neg" and x == -lim) or ("inc" in o and x == lim - 1) or ("dec" in o and x == -lim):
                return None
        return {"op": "unop", "s": s + 1, "o": o}

    ARITH = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
    LOGIC = ["&&", "||", "<", ">", "<=", ">="]

    def safe(self, o, k, a, b):
        if k in FLOATS:
            if len(a) != 1 or len(b) != 1:
                return False
            if o == "*":
                return a[0] != 0 and b[0] != 0
            if o == "/":
                return b[0] != 0 and a[0] != 0
            if o in "+-":
                return True
            return True
        if k not in INTS:
            return True
        sg = k in SIGNED
        x, y = from_bytes(a, sg), from_bytes(b, sg)
        w = 8 * WIDTH[k]
        if o in "/%":
            return y != 0 and not (x == -(1 << (w - 1)) and y == -1)
        if o in ("<<", ">>"):
            return 0 <= y < w
        if sg and o in "+-*":
            z = x + y if o == "+" else x - y if o == "-" else x * y
            return w < 32 or -(1 << (w - 1)) <= z < (1 << (w - 1))
        if k == "u16" and o == "*":
            return x * y < (1 << 31)
        return True

    def op_binop(self):
        s = self.prim_slot()
        t, a = U(self.slot[s]), self.val[s]
        o = self.r.choice(self.ARITH + self.LOGIC + ["==", "!="])
        x = None
        if self.r.random() > self.misuse:
            x = self.src_same(t, s, True)
        if x is None:
            f, q, st, b, _ = self.target(ro=True)
            if o in ("==", "!=") and repr(loose(st)) != repr(loose(t)):
                return None
            if t["k"] == "array" and repr(bare(st)) != repr(bare(t)):
                return None
        else:
            f, q, st, b = x
        if o in self.ARITH and not self.operand_ok(o, t, a, st, b):
            return None
        return {"op": "binop", "s": s + 1, "o": o, "f": f + 1, "q": q}

    def operand_ok(self, o, t, a, st, b):
        k = t["k"]
        if st["k"] == "enum" and k in PRIMS and WIDTH[k] == st["w"]:
            return k in UNSIGNED and self.safe(o, k, a, b)
        return st["k"] != k or self.safe(o, k, a, b)

    def op_opas(self):
        c = self.op_binop()
        if c is None or c["o"] not in self.ARITH:
            return None
        return dict(c, op="opas", o=c["o"] + "=")

    def op_opasT(self):
        s = self.a_slot(lambda t, v: U(t)["k"] in PRIMS + ["enum"])
        if s is None or self.r.random() < self.misuse:
            s = self.a_slot()
        t, a = U(self.slot[s]), self.val[s]
        o = self.r.choice(self.ARITH)
        k = t["k"] if t["k"] in PRIMS else {1: "u8", 2: "u16", 4: "u32"}[t["w"]] if t["k"] == "enum" else "i32"
        if self.r.random() < self.misuse and t["k"] != "enum":
            k = self.r.choice(PRIMS)
        b = self.vals.prim(k)
        if self.r.random() < 0.6 and k in INTS:
            b = to_bytes(self.r.randint(0, 5), WIDTH[k])
        if k in FLOATS and o not in "+-*/":
            return None
        if not self.operand_ok(o, {"k": k} if t["k"] == "enum" else t, a, {"k": k}, b):
            return None
        return {"op": "opasT", "s": s + 1, "o": o + "=", "k": k, "v": b}

    # ---- types ----
    def op_compat(self):
        i = self.a_type()
        pool = [j for j in range(1, len(self.ts) + 1) if self.family(j) == self.family(i)]
        j = self.r.choice(pool) if self.r.random() < 0.7 else self.a_type()
        return {"op": "compat", "t": i, "u": j}

    def op_tvisit(self):
        return {"op": "tvisit", "t": self.a_type(), "stop": self.r.choice([0, 0, 1, 2, 4]), "how": self.r.choice([0, 1, 1, 2])}

    def op_tname(self):
        return {"op": "tname", "t": self.a_type()}


def unlike(a, b):
    """Clearly not equal types: giving b where a is expected must be refused whatever the details of compatibility."""
    a, b = U(a), U(b)
    if a["k"] == "struct" or b["k"] == "struct":
        return False
    ka, kb = a["k"], b["k"]
    if ka in WIDTH and kb in WIDTH:
        return WIDTH[ka] != WIDTH[kb]
    if "enum" in (ka, kb):
        return False
    if ka == kb:
        if ka in STRS:
            return a["b"] != b["b"]
        if ka in ("array", "seq", "map"):
            return a["b"] != b["b"] or unlike(a["e"], b["e"])
        if ka == "pair":
            return unlike(a["a"], b["a"]) or unlike(a["c"], b["c"])
        return False
    return True


def akin(a, b):
    a, b = U(a)["k"], U(b)["k"]
    return a == b or (a in WIDTH and b in WIDTH)


def effects(p):
    return any(s[0] == "k" for s in p) or any(s[0] == "n" and "c" == s[1][:1] for s in p)


def default(t):
    t = U(t)
    k = t["k"]
    if k in FLOATS:
        return [0]
    if k in WIDTH:
        return [0] * WIDTH[k]
    if k == "enum":
        return [0] * t["w"]
    if k in STRS + ["seq", "map"]:
        return []
    if k == "array":
        return [default(t["e"]) for _ in range(t["b"])]
    if k == "pair":
        return [default(t["a"]), default(t["c"])]
    if k == "struct":
        return [default(m["t"]) for m in members(t)]
    for i, c in enumerate(t["cs"]):
        if c["df"]:
            return [[0] * disc_width(t), i + 1, default(c["t"])]
    return [[0] * disc_width(t), 0]


def reach(t, want, d=0):
    """Could a part of t satisfy want?"""
    t = U(t)
    try:
        if want(t, [[0], 0] if t["k"] == "union" else []):
            return True
    except (IndexError, KeyError, TypeError):
        pass
    if d > 5:
        return False
    k = t["k"]
    if k in ("array", "seq", "map"):
        return reach(t["e"], want, d + 1)
    if k == "pair":
        return reach(t["a"], want, d + 1) or reach(t["c"], want, d + 1)
    if k == "struct":
        return any(reach(m["t"], want, d + 1) for m in members(t))
    if k == "union":
        return any(reach(c["t"], want, d + 1) for c in t["cs"])
    return False


def leaf_kinds(t):
    t = U(t)
    k = t["k"]
    if k in PRIMS + STRS:
        return {k}
    if k in ("array", "seq", "map"):
        return leaf_kinds(t["e"])
    if k == "pair":
        return leaf_kinds(t["a"]) | leaf_kinds(t["c"])
    if k == "struct":
        return set().union(*[leaf_kinds(m["t"]) for m in members(t)]) if members(t) else set()
    if k == "union":
        return set().union(*[leaf_kinds(c["t"]) for c in t["cs"]])
    return set()
