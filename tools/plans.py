"""The checks: which engines decide which property, and how deep."""
import glob, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor, as_completed
from run import *
import data as D
import typeshard as T
import declmc, insts, profiles, tour

BUILD = os.path.join(VERIF, "build")
WORKERS = max(2, min(8, os.cpu_count() or 4))

ASSUMPTIONS = ["histories stay clear of what the interface leaves undefined (reading moved-from data, writing a map's keys in "
               "place, iterators kept across changes, C++ undefined arithmetic)",
               "TLC, the JSON reader of the driver and the compiler are trusted"]

# shards, episodes per shard, operations per episode
SIZE = {"quick": (24, 16, 60), "thorough": (96, 60, 110)}


SIZE_DECL = {"quick": (24, 50, 60), "thorough": (96, 160, 90)}


class Report:
    """What a run explored, and what it found."""

    def __init__(self, prop, tier, seed, work, t0):
        self.prop, self.tier, self.seed, self.work, self.t0 = prop, tier, seed, work, t0
        self.states = self.transitions = self.traces = 0
        self.ops = {}
        self.samples = []
        self.violations = []
        self.errors = []
        self.extra = {}

    def violate(self, what, lines, driver, spec):
        """Keep the commands that show a violation, to be replayed with tools/replay.py."""
        os.makedirs(BUILD, exist_ok=True)
        path = os.path.join(BUILD, "replay-%s-%d.json" % (self.prop, len(self.violations)))
        json.dump({"property": self.prop, "what": what, "driver": driver, "spec": spec, "commands": lines}, open(path, "w"))
        self.violations.append((what, path))

    def add_ops(self, ops):
        for k, (a, b) in ops.items():
            c = self.ops.setdefault(k, [0, 0])
            c[0] += a
            c[1] += b

    def finish(self, findings=()):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:6],
                   operations={k: {"carried_out": v[0], "refused": v[1]} for k, v in sorted(self.ops.items())},
                   **self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        if self.errors:
            ev["errors"] = [e[:1500] for e in self.errors]
        return ev


def run_script(binary, lines, log, timeout=30):
    """Feed recorded commands to a driver; returns None or why it went away."""
    try:
        io = IO(binary, json.loads(lines[0]), log, log + ".cmds", timeout=timeout)
    except Gone as x:
        return str(x)
    try:
        for l in lines[1:]:
            io.send(json.loads(l))
        io.close()
    except Gone as x:
        io.log.close()
        io.script.close()
        io.p.kill()
        return str(x)
    return None


def stderr_head(log):
    try:
        t = open(log + ".err").read()
    except OSError:
        return ""
    return t[:1500]


def judge_script(binary, lines, base, spec, timeout=30):
    """(violation description or None, model error or None)"""
    gone = run_script(binary, lines, base + ".log", timeout)
    j = judge(base + ".log", base + ".tlc", spec=spec, timeout=600)
    if gone:
        return "the library's process did not finish: %s %s" % (gone, stderr_head(base + ".log")), None
    if j.mismatches:
        l, op, want = j.mismatches[0]
        try:
            got = open(base + ".log").read().split("\n")[l - 1][:1200]
        except IndexError:
            got = ""
        return "line %d (%s): the library did %s ; allowed: %s" % (l, op, got, want[:1200]), None
    return None, j.error


def episode_of(lines, at):
    """Header and commands of the episode that line number at (1-based) belongs to."""
    at = min(at, len(lines))
    b = at - 1
    while b > 0 and '"op": "begin"' not in lines[b]:
        b -= 1
    e = at - 1
    while e < len(lines) - 1 and '"op": "end"' not in lines[e]:
        e += 1
    ep = [lines[0]] + lines[max(b, 1):e + 1]
    if '"op": "end"' not in ep[-1]:
        ep.append('{"op": "end"}')
    return ep


def examine(rep, binary, res, driver, spec):
    """Decide what a shard shows: nothing, a violation, or a failure of the machinery."""
    lines = [l for l in open(res["script"]).read().split("\n") if l]
    spots = [(m[0], "%s: %s" % (m[1], m[2][:600])) for m in res["mismatches"][:3]]
    if res["gone"]:
        spots.append((len(lines), res["gone"] + " " + (res.get("stderr") or "")[:1200]))
    for i, (at, what) in enumerate(spots):
        base = os.path.join(rep.work, "confirm-%s-%d" % (res["idx"], i))
        for cmds in (episode_of(lines, at), lines):
            bad, err = judge_script(binary, cmds, base, spec, timeout=60)
            if bad:
                rep.violate(bad, cmds, driver, spec)
                return True
        if not res["gone"] or "no answer" not in res["gone"]:
            rep.violate("(not reproduced when replayed) " + what, lines, driver, spec)
            return True
    if res["error"] and not res["gone"]:
        base = os.path.join(rep.work, "again-%s" % res["idx"])          # the machinery failed, or was out of time: once more
        j = judge(res["log"], base + ".tlc", spec=spec, timeout=600)
        if j.mismatches:
            return examine(rep, binary, dict(res, mismatches=j.mismatches, error=None), driver, spec)
        if j.error:
            rep.errors.append(j.error)
    return False


# ---------------------------------------------------------------------------
def data_histories(rep, binary, prop):
    """Random histories of dynamic data, every step compared with XData."""
    shards, episodes, length = SIZE[rep.tier]
    p = profiles.PROFILES[prop]
    deadline = time.time() + (80 if rep.tier == "quick" else 3000)
    jobs = []
    with ProcessPoolExecutor(WORKERS) as ex:
        for i in range(shards):
            jobs.append(ex.submit(D.shard, binary, p, rep.seed * 100003 + i * 7919 + sum(map(ord, prop)), episodes, length,
                                  rep.work, i, deadline))
        collect(rep, jobs, binary, "data_driver", "XDataTrace")


def collect(rep, jobs, binary, driver, spec):
    for f in jobs:
        r = f.result()
        if r is None:
            continue
        rep.states += r["states"]
        rep.transitions += r["commands"]
        rep.traces += r["episodes"]
        rep.add_ops(r.get("ops", {}))
        if r["idx"] == 0 and os.path.exists(r["script"]):
            rep.samples += [l[:400] for l in open(r["script"]).read().split("\n")[1:4]]
        if not rep.violations and (r["mismatches"] or r["gone"] or r["error"]):
            if examine(rep, binary, r, driver, spec):
                for g in jobs:
                    g.cancel()
                return


def declared(rep, binary, prop, kind, profile, share=1.0):
    """Random histories of declarations (types or modules), every step compared with their specification."""
    shards, episodes, length = SIZE_DECL[rep.tier]
    deadline = time.time() + (70 if rep.tier == "quick" else 3300)
    with ProcessPoolExecutor(WORKERS) as ex:
        jobs = [ex.submit(T.shard, kind, binary, profile, rep.seed * 100003 + i * 7919 + sum(map(ord, prop + kind)),
                          max(4, int(episodes * share)), length, rep.work, i, deadline) for i in range(shards)]
        collect(rep, jobs, binary, kind + "_driver", {"type": "XTypeTrace", "module": "XModuleTrace", "text": "XStrTrace", "gen": "XGenTrace"}[kind])


def build(rep, name):
    out = os.path.join(rep.work, name)
    if os.path.exists(out):
        return out
    ok, text = compile_driver(name, out)
    if not ok:
        rep.errors.append("the driver %s does not compile against the repository: %s" % (name, text[:3000]))
        return None
    return out


def plan_data(rep, prop):
    b = build(rep, "data_driver")
    if b:
        data_histories(rep, b, prop)


# transitions of a part of a tour; seconds for all the tours
PART = 3000
TOURS = {"quick": 40, "thorough": 2400}


def plan_tours(kind):
    """Bounded instances: TLC visits all their states, and the real library is led through their transitions."""
    driver = kind + "_driver"

    def plan(rep, prop):
        binary = build(rep, driver)
        if not binary:
            return
        all_ = insts.dumped(prop, rep.tier) if kind == "data" else [i for i in declmc.instances(prop, rep.tier) if i["kind"] == kind]
        deadline = time.time() + TOURS[rep.tier]
        rng = random.Random(rep.seed)
        models = rep.extra.setdefault("models", {})

        with ProcessPoolExecutor(WORKERS) as ex:
            jobs, rest = [], []
            found = {ex.submit(tour.explore, d, os.path.join(rep.work, d["name"]), TOURS[rep.tier] * 2): n for n, d in enumerate(all_)}
            for f in as_completed(found):
                n = found[f]
                states, transitions, edges, err = f.result()
                d = all_[n]
                if err == "timeout":
                    models[d["name"]] = {"not finished in": TOURS[rep.tier] * 2}
                    continue
                if err:
                    rep.errors.append(err)
                    for j in jobs:
                        j.cancel()
                    return
                rep.states += states
                models[d["name"]] = {"states": states, "transitions": transitions, "pairs": 0, "driven": 0, "commands": len(d["cmds"])}
                parts = max(1, transitions // PART)
                todo = [(tour.shard, binary, d, edges, p, parts, rep.work, "%s%d" % (kind, n), deadline) for p in rng.sample(range(parts), parts)]
                jobs += [ex.submit(*t) for t in todo[:2]]           # some of each instance first
                rest += todo[2:]
            rng.shuffle(rest)
            jobs += [ex.submit(*t) for t in rest]
            for j in jobs:
                r = j.result()
                if r is not None:
                    m = models[r["name"]]
                    m["driven"] += r["covered"]
                    m["pairs"] += r["total"]
                    m["steps"] = m.get("steps", 0) + r["commands"]
            collect(rep, jobs, binary, driver, tour.TRACE[kind])
    return plan


def plan_types(rep, prop):
    b = build(rep, "type_driver")
    if b:
        profile = profiles.TYPES.get(prop, {})
        declared(rep, b, prop, "type", profile, profile.get("share", 1.0))


def plan_modules(rep, prop):
    b = build(rep, "module_driver")
    if b:
        declared(rep, b, prop, "module", profiles.MODULES.get(prop, {}))


def model(rep, prop, spec, cfg, timeout=600, workers=WORKERS):
    """Exhaustive exploration of a bounded instance of a specification, with its invariants."""
    rc, out = tlc(spec, cfg=cfg, timeout=timeout, workers=workers, heap="8g", metadir=os.path.join(rep.work, cfg + ".mc"))
    m = STATES.search(out)
    if rc != 0 or not m or "No error has been found" not in out:
        rep.errors.append("the model %s (%s) fails: status %s %s" % (spec, cfg, rc, out[-2500:]))
        return
    rep.states += int(m.group(2))
    rep.extra.setdefault("models", {})[cfg] = {"transitions": int(m.group(1)), "states": int(m.group(2))}


def plan_text(rep, prop):
    b = build(rep, "text_driver")
    if b:
        for cfg in ("XStrMC8.cfg", "XStrMC16.cfg") + (("XStrMC8big.cfg", "XStrMC16big.cfg") if rep.tier == "thorough" else ()):
            model(rep, prop, "XStrMC", cfg, timeout=3000)
        declared(rep, b, prop, "text", {"parts": SIZE_DECL[rep.tier][0]}, 0.6)


def plan_gen(rep, prop):
    b = build(rep, "gen_driver")
    if b:
        known(rep, b, prop, "gen_driver")
        declared(rep, b, prop, "gen", {"constrefs": 0.3}, 0.3 if rep.tier == "quick" else 1.0)


def known(rep, binary, prop, driver):
    """Findings that were recorded and not repaired: tell the ones that still fail (known/*.json)."""
    for f in sorted(glob.glob(os.path.join(VERIF, "known", prop + "-*.json"))):
        k = json.load(open(f))
        bad, err = judge_script(binary, [json.dumps(c) for c in k["commands"]], os.path.join(rep.work, os.path.basename(f)), k["spec"])
        if bad:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))


def both(*plans):
    def run_all(rep, prop):
        for p in plans:
            if not rep.violations and not rep.errors:
                p(rep, prop)
    return run_all


TECHNIQUE, NOTES = {}, {}
PLANS = {p: both(plan_data, plan_tours("data")) for p in profiles.PROFILES}
PLANS["C10"] = both(plan_data, plan_tours("data"), plan_tours("type"))
PLANS["C11"] = both(plan_data, plan_types, plan_tours("data"), plan_tours("type"))
PLANS["C18"] = both(plan_data, plan_types, plan_tours("data"))
PLANS["C16"] = both(plan_types, plan_tours("type"))
PLANS["C19"] = PLANS["C20"] = both(plan_modules, plan_tours("module"))
PLANS["C22"] = plan_text
PLANS["C21"] = plan_gen


def run(prop, tier, seed, work, t0):
    rep = Report(prop, tier, seed, work, t0)
    PLANS[prop](rep, prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(rep.finish(), f, indent=1)
    if rep.violations:
        for w, path in rep.violations[:3]:
            print(w[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if rep.errors:
        for e in rep.errors[:3]:
            print("ERROR " + e[:3000])
        return 3
    print("property=%s held: %d histories, %d steps, %.0f s" % (prop, rep.traces, rep.transitions, time.time() - t0))
    return 0
