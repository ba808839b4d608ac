"""Runs operation lists on the library under test and has TLC decide whether each recorded
execution is a behaviour of the specification (spec/Trace.tla)."""
import collections, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORK = os.path.join(VERIF, "work")
JOBS = int(os.environ.get("VP_JOBS", "8"))

class Machinery(Exception):
    """the machinery itself failed; says nothing about the code"""

def java(cfg, module, extra=(), env=None, heap="3g", timeout=800, workers=1, cwd=None, meta=None):
    meta = meta or tempfile.mkdtemp(prefix="tlc", dir=WORK)
    cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd or os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return -1, "TIMEOUT\n" + ((x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""))
    finally:
        shutil.rmtree(meta, ignore_errors=True)

class Session:
    """one check: a scratch directory, the library, and the tallies that go to the evidence"""
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + ".", dir=WORK)
        self.name = name
        try:
            self.lib = B.build()
        except B.BuildError as e:
            raise Machinery("the library does not build: " + str(e)[:2000])
        self.env = B.env(self.lib)
        self.env["PYTHONPATH"] = HERE
        # a share of the executions reuses freed memory at once, so that what the library keeps
        # under the address of a dead object meets a new one
        self.env2 = dict(self.env, PYTHONMALLOC="pymalloc", ASAN_OPTIONS=self.env["ASAN_OPTIONS"]
                         + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0:max_redzone=16")
        self.traces = 0
        self.events = 0
        self.ops = collections.Counter()
        self.rcs = collections.Counter()
        self.found = []          # violations
        self.mc = []             # exhaustive explorations
        self.sample = []         # a few executions, written out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- executing ------------------------------------------------------------
    def execute(self, opsfile, evfile, timeout=600, reuse=False):
        """returns a list of (trace index, reason) for traces that crashed or hung"""
        crashes = []
        first = 0
        n = sum(1 for _ in open(opsfile))
        open(evfile, "w").close()
        while True:
            try:
                r = subprocess.run([sys.executable, os.path.join(HERE, "interp.py"), opsfile, evfile, str(first)],
                                   env=self.env2 if reuse else self.env, capture_output=True, text=True, timeout=timeout, errors="replace")
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = -1000, "no answer within %d s" % timeout
            if rc == 0:
                return crashes
            last = None
            for line in open(evfile):
                if line.startswith('{"a": "begin"'):
                    last = json.loads(line)["id"]
            if last is None:
                raise Machinery("interpreter failed: rc %s %s" % (rc, err[-3000:]))
            m = re.search(r"(SUMMARY: .*|ERROR: AddressSanitizer[^\n]*)", err)
            crashes.append((last, "no answer" if rc in (-1000, -14) else "crash (exit %s) %s" % (rc, m.group(1) if m else err[-300:])))
            # a torn last line would not parse
            data = open(evfile).read()
            if data and not data.endswith("\n"):
                open(evfile, "w").write(data[:data.rfind("\n") + 1])
            first = last + 1
            timeout = min(timeout, 120)
            if len(crashes) > 5 or first >= n or rc in (-1000, -14):
                return crashes

    def judge(self, evfile, timeout=800):
        """mismatches as (line number, expected)"""
        bad = []
        for attempt in range(6):
            n = sum(1 for _ in open(evfile))
            if n == 0:
                return bad
            rc, out = java("Trace.cfg", "Trace.tla", env={"TRACE": evfile}, timeout=timeout)
            ms = re.findall(r'^"MISMATCH (\d+) (.*)"$', out, re.M)
            if rc == 0 and "No error has been found" in out:
                total = re.search(r'^"TOTAL (\d+)"$', out, re.M)
                if not total or int(total.group(1)) != len(ms):
                    raise Machinery("TLC's verdict could not be read: " + out[-2000:])
                return bad + [(int(a), b.strip()) for a, b in ms]
            if "TIMEOUT" in out:
                raise Machinery("TLC timed out")
            # an event the specification cannot even interpret: find it, take it as a mismatch, go on after it
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if not ls:
                raise Machinery("TLC failed: " + out[-3000:])
            at = int(ls[-1])
            why = re.search(r"(Error: .*?)(?=\nError: The behavior|\Z)", out, re.S)
            bad += [(int(a), b.strip()) for a, b in ms if int(a) < at]
            bad.append((at, "the specification cannot interpret the event: " + (why.group(1) if why else "")[:600]))
            lines = open(evfile).read().split("\n")
            if lines[-1] == "":
                lines.pop()
            # blank the rest of that execution and everything already judged
            k = at - 1
            lines[k] = '{"a": "begin", "id": -1}'
            k += 1
            while k < len(lines) and not lines[k].startswith('{"a": "begin"'):
                lines[k] = '{"a": "begin", "id": -1}'
                k += 1
            for i in range(at - 1):
                lines[i] = '{"a": "begin", "id": -1}'
            open(evfile, "w").write("\n".join(lines) + "\n")
        return bad

    def chunk(self, k, traces, reuse=False):
        ops = os.path.join(self.dir, "%s.ops" % k)
        evs = os.path.join(self.dir, "%s.ev" % k)
        with open(ops, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        crashes = self.execute(ops, evs, reuse=reuse)
        tally = collections.Counter()
        rcs = collections.Counter()
        ids = {}
        cur = -1
        events = []
        for n, line in enumerate(open(evs), 1):
            ev = json.loads(line)
            events.append(ev)
            if ev["a"] == "begin":
                cur = ev["id"]
            else:
                tally[ev["a"]] += 1
                rcs[ev["rc"]] += 1
            ids[n] = cur
        if len(self.sample) < 2 and len(events) > 3:
            self.sample.append(events[1:13])
        bad = []
        for ln, exp in self.judge(evs):
            bad.append((ids[ln], events[ln - 1], exp))
        for tid, why in crashes:
            bad.append((tid, {"a": "crash"}, why))
        return tally, rcs, bad

    def validate(self, traces, label=""):
        """run the traces, record the violations"""
        traces = list(traces)
        if not traces or any(f["expected"] == "no answer" for f in self.found):
            return
        size = sum(len(t) for t in traces)
        nch = max(1, min(JOBS * (1 + size // 60000), len(traces)))
        parts = [traces[i::nch] for i in range(nch)]
        uid = "%s%d" % (label, len(os.listdir(self.dir)))
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda kv: self.chunk("%s-%d" % (uid, kv[0]), kv[1], kv[0] % 4 == 3), enumerate(parts)))
        self.traces += len(traces)
        seen = set()
        for k, (tally, rcs, bad) in enumerate(res):
            self.events += sum(tally.values())
            self.ops.update(tally)
            self.rcs.update(rcs)
            for tid, ev, exp in bad:
                key = json.dumps([ev["a"], ev.get("rc"), ev.get("k"), ev.get("t")])
                if key in seen or len(self.found) >= 8:
                    continue
                seen.add(key)
                t = parts[k][tid]
                # believe it only if it happens again, alone or after what the process had executed before
                before = []
                again = self.chunk("%s-%d-again%d" % (uid, k, tid), [t], k % 4 == 3)[2]
                if not again and exp != "no answer":
                    before = parts[k][:tid]
                    again = [b for b in self.chunk("%s-%d-after%d" % (uid, k, tid), before + [t], k % 4 == 3)[2] if b[0] == tid]
                if again:
                    self.found.append({"label": label, "trace": t, "before": before, "event": again[0][1], "expected": again[0][2]})
                else:
                    print("note: not reproduced: %s %s" % (ev, exp), file=sys.stderr)

    def modelcheck(self, module, cfg=None, workers=None, timeout=800, heap="8g", env=None):
        """exhaustive exploration of a model; returns TLC's output"""
        rc, out = java(cfg or module + ".cfg", module + ".tla", timeout=timeout, workers=workers or JOBS, heap=heap, env=env)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or "No error has been found" not in out:
            raise Machinery("model %s: %s" % (cfg or module, out[-3000:]))
        self.mc.append({"model": cfg or module, "states": int(m.group(2)), "transitions": int(m.group(1)), "exhaustive": m.group(3) == "0"})
        return out

    def emitted(self, module, cfg=None, **kw):
        """what a model printed while it was explored"""
        out = self.modelcheck(module, cfg, workers=1, **kw)
        return [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^"EMIT (.*)"$', out, re.M)]

    def explored(self, world, limit=200):
        """all that can happen in a small world (gen/models.py), as walks to be made on the library"""
        f = os.path.join(self.dir, "script%d.json" % len(self.mc))
        with open(f, "w") as o:
            json.dump(world.script(), o)
        return world.walks(self.emitted("MCRun", env={"SCRIPT": f}), limit)
