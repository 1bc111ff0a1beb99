"""Walks through all the transitions that TLC found in a bounded instance (spec/X{Data,Module,Type}MC.tla) with the real library."""
import itertools, json, os, time, zlib
from collections import deque
from xt import *
from hist import Gone
from run import *
from data import tally

ANYD = [-9, -9]
EPISODE = 300
MODEL = {"data": "XDataMC", "module": "XModuleMC", "type": "XTypeMC"}
TRACE = {"data": "XDataTrace", "module": "XModuleTrace", "type": "XTypeTrace"}


def explore(inst, base, timeout=600, heap="3g"):
    """Have TLC explore an instance.  Returns (states, transitions, file of the transitions, error)"""
    f, edges = base + ".inst", base + ".edges"
    json.dump(inst, open(f, "w"))
    if os.path.exists(edges):
        os.remove(edges)
    spec = MODEL[inst["kind"]]
    rc, out = tlc(spec, env={"XMC": f, "XEDGES": edges}, timeout=timeout, heap=heap, metadir=base + ".mc", short=timeout < 300)
    m = STATES.search(out)
    if rc == 124:
        return 0, 0, edges, "timeout"
    if rc != 0 or not m or "No error has been found" not in out:
        return 0, 0, edges, "the model %s fails (%s): status %s %s" % (spec, base, rc, "\n".join(l for l in out.split("\n") if not l.startswith(("Semantic", "Parsing", "Linting")))[:4000])
    return int(m.group(2)), int(m.group(1)), edges, None


class Graph:
    def __init__(self, edges):
        self.ids, self.keys, self.out = {}, [], []
        for l in open(edges):
            c, a, b = json.loads(json.loads(l))
            a, b = self.id(a), self.id(b)
            d = self.out[a].setdefault(c, [])
            if b not in d:
                d.append(b)
        self.to = [{b for d in o.values() for b in d} for o in self.out]

    def id(self, k):
        s = json.dumps(k)
        i = self.ids.get(s)
        if i is None:
            i = self.ids[s] = len(self.keys)
            self.keys.append(k)
            self.out.append({})
        return i


def match(t, c, o):
    """Is the observed value o the one of the model, c?  Discriminators that are open in it may be anything."""
    t = U(t)
    k = t["k"]
    if k in ("array", "seq"):
        return len(c) == len(o) and all(match(t["e"], x, y) for x, y in zip(c, o))
    if k == "map":
        return len(c) == len(o) and any(all(match(t["e"], x, y) for x, y in zip(c, p)) for p in itertools.permutations(o))
    if k == "pair":
        return match(t["a"], c[0], o[0]) and match(t["c"], c[1], o[1])
    if k == "struct":
        return all(match(m["t"], x, y) for m, x, y in zip(members(t), c, o))
    if k == "union":
        return c[1] == o[1] and (c[0] == ANYD or c[0] == o[0]) and (c[1] == 0 or match(t["cs"][c[1] - 1]["t"], c[2], o[2]))
    return c == o


class Tour:
    def __init__(self, inst, graph, io, part, parts, deadline):
        self.i, self.g, self.io, self.deadline = inst, graph, io, deadline
        self.todo = {}
        for s, o in enumerate(graph.out):
            if zlib.crc32(json.dumps(graph.keys[s]).encode()) % parts == part:
                # the ones that stay in the state first
                self.todo[s] = deque(sorted(o, key=lambda c: (o[c] != [s], c)))
        self.total = sum(map(len, self.todo.values()))
        self.did = {}                       # what a command that may end in several states did
        self.done = self.steps = self.episodes = self.lost = 0

    def same(self, key, st):
        for i, x in enumerate(key):
            o = st[i]
            if x == [] or x[0] == "moved":
                if o:
                    return False
            elif not o or o[0] != x[0]:
                return False
            else:
                for t in self.i["slots"][i]:
                    t = self.i["ts"][t - 1]
                    try:
                        if match(t, x[1], o[1]):
                            break
                    except (IndexError, TypeError, KeyError):
                        pass
                else:
                    return False
        return True

    def step(self, s, c):
        """Carry out a command.  The state it leads to, or None."""
        d = self.look(s, c)
        if len(self.g.out[s][c]) > 1:
            self.did[s, c] = d
        return d

    def look(self, s, c):
        e = self.io.cmd(self.i["cmds"][c - 1]["e"])
        self.steps += 1
        if e.get("bad", 1) or e.get("op") == "skip":
            return None
        for exact in (True, False):
            for d in self.g.out[s][c]:
                if self.same(self.g.keys[d], e["st"]) and (not exact or "[-9, -9]" not in json.dumps(self.g.keys[d])):
                    return d
        return None

    def way(self, s):
        """Commands to the nearest state with something left to do"""
        seen, q = {s: None}, deque([s])
        while q:
            a = q.popleft()
            if self.todo.get(a):
                p = []
                while seen[a] is not None:
                    a, c, b = seen[a]
                    p.append((c, b))
                return p[::-1]
            for c, d in self.g.out[a].items():
                for b in d if (a, c) not in self.did else [self.did[a, c]]:
                    if b is not None and b not in seen:
                        seen[b] = (a, c, b)
                        q.append(b)
        return None

    def run(self):
        s, n, misses = 0, EPISODE + 1, 0            # (misses: the library chose another outcome than hoped)
        begun = False
        while self.done < self.total and time.time() < self.deadline:
            if s is None or n > EPISODE:
                if begun:
                    self.io.end()
                self.io.begin()
                begun, s, n = True, 0, 0
                self.episodes += 1
            q = self.todo.get(s)
            if q:
                c = q.popleft()
                self.done += 1
                s = self.step(s, c)
                n += 1
                self.lost += s is None
                continue
            w = self.way(s)
            if w is None:
                if n == 0:
                    break
                n = EPISODE + 1
                continue
            for c, b in w:
                s = self.step(s, c)
                n += 1
                if s != b:
                    misses += 1
                    break
            if misses > 300:
                break
        if begun:
            self.io.end()


class Declared(Tour):
    """Of declarations: the specification says where each command leads to."""

    def look(self, s, c):
        e = self.io.cmd(self.i["cmds"][c - 1]["e"])
        self.steps += 1
        return None if e.get("bad", 1) or e.get("op") == "skip" else self.g.out[s][c][0]


def shard(binary, inst, edges, part, parts, work, idx, deadline):
    if time.time() > deadline:
        return None
    base = os.path.join(work, "t%s-%d" % (idx, part))
    log, script = base + ".log", base + ".cmds"
    res = dict(idx="%s-%d" % (idx, part), log=log, script=script, episodes=0, gone=None, kind=inst["kind"], name=inst["name"], commands=0, covered=0,
               total=0, lost=0)
    g = Graph(edges)
    io = IO(binary, inst["head"], log, script)
    t = (Tour if inst["kind"] == "data" else Declared)(inst, g, io, part, parts, deadline)
    try:
        t.run()
        io.close()
    except Gone as x:
        io.log.close()
        io.script.close()
        res["gone"] = str(x)
        res["stderr"] = open(log + ".err").read()[:4000]
    res.update(commands=io.lines, covered=t.done, total=t.total, lost=t.lost, episodes=t.episodes)
    j = judge(log, base + ".tlc", spec=TRACE[inst["kind"]], timeout=840)
    res.update(lines=j.lines, states=j.states, mismatches=j.mismatches, error=j.error)
    if not j.error and not j.mismatches and not res["gone"]:
        res["ops"] = tally(log)
    if not res["gone"] and not res["mismatches"] and not j.error and not os.environ.get("KEEP"):
        for x in (log, log + ".err", script):
            os.remove(x)
    return res
