"""Running drivers and TLC."""
import json, os, re, select, subprocess, sys, time
from hist import Gone

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XTYPES_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def compile_driver(name, out, extra=()):
    cmd = ["g++", "-std=c++17", "-O0", "-g1", "-fsanitize=address", "-DXTYPES_EXCEPTIONS", "-I" + REPO + "/include",
           *extra, os.path.join(VERIF, "driver", name + ".cpp"), "-o", out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=23:allocator_may_return_null=0:"
           "detect_stack_use_after_return=1:max_allocation_size_mb=2000", LC_ALL="C")


class IO:
    """A driver process: commands in, recorded lines out; the lines are kept in a log and the commands in a script."""

    def __init__(self, binary, header, log, script, timeout=20):
        self.t = timeout
        self.log = open(log, "w")
        self.script = open(script, "w")
        self.err = open(log + ".err", "w")
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV, bufsize=0)
        self.buf = b""
        self.last = None
        self.lines = 0
        self.send(header)

    def send(self, c):
        self.last = c
        l = json.dumps(c) + "\n"
        self.script.write(l)
        self.script.flush()
        try:
            self.p.stdin.write(l.encode())
        except (BrokenPipeError, OSError):
            raise Gone("the driver ended")
        return self.answer()

    def answer(self):
        end = time.time() + self.t
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.p.kill()
                raise Gone("no answer after %d s" % self.t)
            x = os.read(self.p.stdout.fileno(), 1 << 20)
            if not x:
                raise Gone("the driver ended with status %s" % self.p.wait())
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        self.log.write(l.decode("utf-8", "replace") + "\n")
        self.lines += 1
        try:
            return json.loads(l)
        except ValueError:
            raise Gone("the driver answered something unreadable")

    def begin(self):
        return self.send({"op": "begin"})

    def cmd(self, c):
        return self.send(c)

    def end(self):
        return self.send({"op": "end"})

    def close(self):
        try:
            self.p.stdin.close()
            self.answer()
            rc = self.p.wait(timeout=self.t)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = -9
        finally:
            self.log.close()
            self.script.close()
            self.err.close()
        if rc != 0:
            raise Gone("the driver ended with status %s" % rc)


def tlc(spec, cfg=None, env=None, timeout=60, workers=1, heap="3g", extra=(), metadir=None, cwd=SPEC, short=False):
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=%d" % (1 if short else 4), "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", metadir, "-config", cfg or spec + ".cfg", *extra, spec + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=cwd, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")


MIS = re.compile(r'^<<"MISMATCH", (\d+), "([^"]*)">>', re.M)
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
END = re.compile(r'^<<"TRACE-END", (\d+), (\d+)>>', re.M)


class Judged:
    def __init__(self):
        self.lines = 0
        self.states = 0
        self.mismatches = []     # (line number, what)
        self.error = None        # the model itself failed


def judge(trace, metadir, spec="XDataTrace", env=None, timeout=60):
    """Check a recorded log against a trace specification."""
    j = Judged()
    n = sum(1 for _ in open(trace))
    e = {"XLOG": trace}
    e.update(env or {})
    rc, out = tlc(spec, env=e, timeout=timeout, metadir=metadir, short=n < 8000)
    j.lines = n
    j.out = out
    m = STATES.search(out)
    if m:
        j.states = int(m.group(2))
    for m in MIS.finditer(out):
        rest = out[m.end():m.end() + 3000]
        k = rest.find('"SPECIFIED"')
        j.mismatches.append((int(m.group(1)), m.group(2), " ".join(rest[k:k + 1800].split()) if k >= 0 else ""))
    end = END.search(out)
    if end is None or rc != 0:
        # A line that the specification cannot even interpret is one it does not allow.
        at = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if "Attempted to" in out or "evaluat" in out and "The error occurred" in out:
            j.mismatches.append((int(at[-1]) if at else 0, "uninterpretable", out[-2500:]))
        else:
            j.error = "TLC status %s: %s" % (rc, out[-2500:])
    return j
