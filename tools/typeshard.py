"""Shards of histories of types, modules and texts: generation and judgement."""
import os, random, time
from run import *
from hist import Gone
from data import tally


def shard(kind, binary, p, seed, episodes, length, work, idx, deadline=None):
    if deadline and time.time() > deadline:
        return None
    rng = random.Random(seed)
    base = os.path.join(work, "%s%d" % (kind, idx))
    log, script = base + ".log", base + ".cmds"
    res = dict(idx=idx, log=log, script=script, episodes=0, gone=None, kind=kind)
    if kind == "type":
        import typehist
        ts = typehist.table(rng)
        head = {"ts": ts}
        spec = "XTypeTrace"
        make = lambda io: typehist.TypeHist(rng, io, ts, p)
    elif kind == "text":
        import texthist
        head, spec = {"text": 1}, "XStrTrace"
        make = lambda io: texthist.TextHist(rng, io, p)
    elif kind == "gen":
        import genhist
        head, spec = {"gen": 1}, "XGenTrace"
        make = lambda io: genhist.GenHist(rng, io, p)
    else:
        import modhist
        head = modhist.header(rng, p)
        spec = "XModuleTrace"
        make = lambda io: modhist.ModHist(rng, io, head, p)
    io = IO(binary, head, log, script)
    try:
        h = make(io)
        if kind == "text":
            io.begin()
            h.sweep(idx, p.get("parts", 24))
            io.end()
        for _ in range(episodes):
            h.episode(length)
            res["episodes"] += 1
        io.close()
    except Gone as x:
        io.log.close()
        io.script.close()
        res["gone"] = str(x)
        res["stderr"] = open(log + ".err").read()[:4000]
    res["commands"] = io.lines
    j = judge(log, base + ".tlc", spec=spec, timeout=840)
    res.update(lines=j.lines, states=j.states, mismatches=j.mismatches, error=j.error)
    if not j.error and not j.mismatches and not res["gone"]:
        res["ops"] = tally(log)
        if not os.environ.get("KEEP"):
            for x in (log, log + ".err") + ((script,) if idx else ()):
                os.remove(x)
    return res
