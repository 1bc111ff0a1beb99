"""Histories of dynamic data: types of a shard, generation, judgement."""
import json, os, random, time
from xt import *
from hist import Hist, Gone
from run import *


def maps_of(t):
    t = U(t)
    if t["k"] == "map":
        yield t
    subs = [t.get("e"), t.get("a"), t.get("c")]
    subs += [m["t"] for m in (members(t) if t["k"] == "struct" else t.get("cs", []))]
    for c in subs:
        if c:
            yield from maps_of(c)


def type_table(rng, p):
    g = Types(rng, **p["topt"])
    ts, fam = [], []
    for i in range(p.get("roots", 8)):
        t = g.any(p["topt"].get("depth", 3))
        ts.append(t)
        fam.append(i)
        n = p["variants"]
        n = int(n) + (1 if rng.random() < n - int(n) else 0)
        for _ in range(n):
            ts.append(g.variant(t))
            fam.append(i)
        if rng.random() < p.get("realias", 0.15):
            ts.append(g.realias(t, rng.choice([0, 0.3, 0.6])))
            fam.append(i)
    for k in rng.sample(PRIMS, 3) + rng.sample(STRS, 1):
        ts.append({"k": k} if k in WIDTH else {"k": k, "b": 0})
        fam.append(-1)
    for t in list(ts):
        for m in maps_of(t):
            for x in (m["e"]["a"], m["e"]):
                if len(ts) < 44 and not any(bare(y) == bare(x) for y in ts):
                    ts.append(x)
                    fam.append(-2)
    return ts, fam


def shard(binary, p, seed, episodes, length, work, idx, deadline=None):
    """Generate, run and judge one shard.  Returns a dict, or None if there was no time left to begin."""
    if deadline and time.time() > deadline:
        return None
    rng = random.Random(seed)
    ts, fam = type_table(rng, p)
    base = os.path.join(work, "d%d" % idx)
    log, script = base + ".log", base + ".cmds"
    res = dict(idx=idx, log=log, script=script, ts=len(ts), episodes=0, gone=None, kind="data")
    io = IO(binary, {"ts": ts, "zeros": int(p["zeros"])}, log, script)
    h = Hist(rng, io, ts, p, Values(rng, **p["vopt"]))
    h.fam = fam
    try:
        for _ in range(episodes):
            h.episode(length)
            res["episodes"] += 1
        io.close()
    except Gone as x:
        io.log.close()
        io.script.close()
        res["gone"] = str(x)
        res["stderr"] = open(log + ".err").read()[:4000]
    res["commands"] = io.lines
    j = judge(log, base + ".tlc", timeout=840)
    res.update(lines=j.lines, states=j.states, mismatches=j.mismatches, error=j.error)
    if not j.error and not j.mismatches and not res["gone"]:
        res["ops"] = tally(log)
    if not res["gone"] and not res["mismatches"] and not j.error and not os.environ.get("KEEP"):
        for x in (log, log + ".err") + ((script,) if idx else ()):
            os.remove(x)
    return res


def tally(log):
    t = {}
    for l in open(log):
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if "ok" in e:
            c = t.setdefault(e["op"], [0, 0])
            c[0 if e["ok"] else 1] += 1
    return t
