"""Shared machinery: building the TLC override, running TLC, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
SLOW = 1          # time limits are multiplied by this (thorough tier)
CORES = max(2, min(8, os.cpu_count() or 2))


class CodeRaised(Exception):
    """The code under test raised where no specification lets it."""


class Machinery(Exception):
    """The machinery itself failed: never a verdict about the code."""


def build_dir():
    """Compiles the Java evaluation of module Rat (about 2 s) unless it is up to date."""
    src = os.path.join(VERIF, "java")
    out = os.path.join(VERIF, "build")
    files = sorted(f for f in os.listdir(src) if f.endswith(".java"))
    want = [os.path.join(out, f[:-5] + ".class") for f in files]
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in files)
    if all(os.path.exists(w) and os.path.getmtime(w) >= newest for w in want):
        return out
    tmp = tempfile.mkdtemp(prefix="ratbuild")
    r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + [os.path.join(src, f) for f in files],
                       capture_output=True, text=True)
    if r.returncode:
        raise Machinery("javac: " + r.stderr)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(tmp):
        shutil.move(os.path.join(tmp, f), os.path.join(out, f))
    shutil.rmtree(tmp, ignore_errors=True)
    return out


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not self.generated:
            self.generated = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0 and "Error:" not in self.out


def tlc(module, cfg=None, *, env=None, args=(), workers=1, timeout=800, heap="3g", work=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>. env: values visible through IOEnv."""
    cp = build_dir() + ":" + JARS
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", cp, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg or module + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout * SLOW, env=e, cwd=work or meta)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        raise Machinery(f"TLC {module} timed out after {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(rc, out, time.time() - t0)


def tail(s, n=60):
    ls = [x for x in s.splitlines() if not x.startswith(("Loading ", "Semantic ", "Linting ", "Parsing "))]
    return "\n".join(ls[-n:])


def model(module, cfg=None, **kw):
    """Model-checks a specification; its failure is a machinery failure (the model does not depend on /repo)."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise Machinery(f"model {module}/{cfg}: rc={r.rc}\n" + tail(r.out))
    return r


def generate(module, cfg=None, **kw):
    """Runs a specification whose terminal states append one JSON line each to the file IOEnv.OUT."""
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    os.close(fd)
    os.unlink(path)
    env = dict(kw.pop("env", {}) or {})
    env["OUT"] = path
    try:
        r = tlc(module, cfg, env=env, **kw)
        if not r.ok:
            raise Machinery(f"generate {module}/{cfg}: rc={r.rc}\n" + tail(r.out))
        rows = []
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        row = json.loads(line)
                        rows.append(json.loads(row) if isinstance(row, str) else row)
        return r, rows
    finally:
        if os.path.exists(path):
            os.unlink(path)


def validate(module, rows, cfg=None, shards=None, key=None, timeout=800, heap="2g", env=None):
    """Checks recorded executions against a trace specification.

    rows: list of traces (each a list of events, validated as one behaviour).
    Returns (list of failures, total events, stats); a failure is (trace index, event index, clause).
    The trace specification is total: it prints one FAIL tuple per failing clause and must consume
    every event, otherwise the machinery has failed.
    """
    if not rows:
        raise Machinery("no traces for " + module)
    shards = max(1, min(shards or CORES, len(rows)))
    # balance by size
    buckets = [[] for _ in range(shards)]
    load = [0] * shards
    size = [len(json.dumps(t)) for t in rows]
    for i in sorted(range(len(rows)), key=lambda i: -size[i]):
        j = load.index(min(load))
        buckets[j].append(i)
        load[j] += size[i]
    tmp = tempfile.mkdtemp(prefix="trace")

    def one(j):
        path = os.path.join(tmp, f"t{j}.ndjson")
        index = []
        with open(path, "w") as f:
            for i in buckets[j]:
                base = len(index) + 1
                for k, ev in enumerate(rows[i]):
                    index.append((i, k))
                    f.write(json.dumps(dict(ev, first=(k == 0), base=base)) + "\n")
        e = dict(env or {})
        e["TRACE"] = path
        r = tlc(module, cfg, env=e, timeout=timeout, heap=heap)
        if not r.ok:
            raise Machinery(f"validate {module}: rc={r.rc}\n" + tail(r.out))
        m = re.search(r'<<"CONSUMED", (\d+)>>', r.out)
        if not m or int(m.group(1)) != len(index):
            raise Machinery(f"validate {module}: trace not consumed ({m and m.group(1)} of {len(index)})\n" + tail(r.out))
        fails = []
        flat = re.sub(r"\s+", " ", r.out)
        for mm in re.finditer(r'<< ?"FAIL", (\d+), "((?:[^"\\]|\\.)*)" ?>>', flat):
            i, k = index[int(mm.group(1)) - 1]
            fails.append((i, k, mm.group(2).replace('\\"', "'")))
        if len(fails) != flat.count('"FAIL"'):
            raise Machinery(f"validate {module}: unreadable failure report\n" + tail(r.out))
        return fails, len(index), r

    try:
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, [j for j in range(shards) if buckets[j]]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    fails = sorted(set(f for r in res for f in r[0]))
    return fails, sum(r[1] for r in res), dict(states=sum(r[2].distinct for r in res), transitions=sum(r[2].generated for r in res))


def run_harness(script, args, timeout=600):
    """Runs a driver of the real code in a separate interpreter; it prints JSON lines to a file."""
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", PYTHONPATH="/repo/src:" + os.path.join(VERIF, "harness"))
    try:
        r = subprocess.run([PY, "-W", "ignore", os.path.join(VERIF, "harness", script), path] + [str(a) for a in args],
                           capture_output=True, text=True, timeout=timeout * SLOW, env=e, cwd="/")
        if r.returncode:
            frames = re.findall(r'File "([^"]+)", line', r.stderr)
            last = max([i for i, f in enumerate(frames) if f.startswith(os.path.join(VERIF, "harness"))], default=-1)
            inner = [f for f in frames[last + 1:] if "/src/ellalgo/" in f]
            if inner and last >= 0:
                raise CodeRaised(f"{tail(r.stderr, 1)} in {os.path.basename(inner[-1])}, driven by {script} {args[0]}")
            raise Machinery(f"harness {script} {args}: rc={r.returncode}\n" + tail(r.stdout + r.stderr, 40))
        with open(path) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        raise Machinery(f"harness {script} timed out")
    finally:
        os.unlink(path)


def parallel(jobs):
    """Runs thunks in parallel; returns results in order."""
    with ThreadPoolExecutor(CORES) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.assumptions, self.violations, self.known = [], [], [], []
        self.extra = {}
        self.thorough = tier == "thorough"
        global SLOW
        SLOW = 12 if self.thorough else 1

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, r):
        if isinstance(r, TLCResult):
            self.states += r.distinct
            self.transitions += r.generated
        else:
            self.states += r["states"]
            self.transitions += r["transitions"]

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, case):
        self.violations.append(dict(what=what, case=case))

    def note(self, key, val):
        self.extra[key] = val

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, evaluations=self.evals,
                                samples=self.samples or ["none"], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        if self.violations:
            d = os.path.join(VERIF, "work", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  failing:", v["what"], "|", json.dumps(v["case"], default=str)[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} evaluations={self.evals} wall={time.time()-self.t0:.1f}s")
        return 0


def load_known(prop):
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"]


def replay(chk, script, what, rows, seed, keep=lambda b, e: True):
    """Steps generated behaviours through the real code (in parallel); mismatches are violations."""
    tmp = tempfile.mkdtemp(prefix="beh")
    jobs = []
    try:
        for j in range(CORES):
            part = rows[j::CORES]
            if not part:
                continue
            p = os.path.join(tmp, f"{j}.ndjson")
            with open(p, "w") as f:
                for b in part:
                    f.write(json.dumps(b) + "\n")
            jobs.append(lambda p=p, j=j: run_harness(script, [what, p, seed * 100 + j]))
        res = parallel(jobs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for r in res:
        chk.traces += r["count"]
        for b, e in r["fails"]:
            if keep(b, e):
                chk.violation(e, b)


def record(chk, script, what, per, shards=4, extra=()):
    """Records executions of the real code: shards x per traces."""
    parts = parallel([lambda s=s: run_harness(script, [what, chk.seed * 1000 + s, per, *extra]) for s in range(shards)])
    return [t for p in parts for t in p]


def judge(chk, module, traces, keep=lambda clause: True, context=2, cfg=None, shards=None):
    """Validates recorded executions with a trace specification."""
    fails, nev, stats = validate(module, traces, cfg=cfg, shards=shards)
    chk.count(stats)
    chk.traces += len(traces)
    chk.evals += nev
    chk.sample("recorded trace of the real code accepted by " + module + ": " + json.dumps(traces[len(traces) // 2])[:400])
    for i, k, clause in fails:
        if keep(clause):
            chk.violation(clause, traces[i][max(0, k + 1 - context):k + 1])


def step(script, what, rows, seed, extra=()):
    """Steps generated behaviours through the real code in parallel and returns what was recorded."""
    tmp = tempfile.mkdtemp(prefix="scr")
    try:
        jobs = []
        for j in range(CORES):
            if not rows[j::CORES]:
                continue
            p = os.path.join(tmp, f"{j}.nd")
            with open(p, "w") as f:
                for b in rows[j::CORES]:
                    f.write(json.dumps(b) + "\n")
            jobs.append(lambda p=p, j=j: run_harness(script, [what, p, seed * 100 + j, *extra]))
        return [t for part in parallel(jobs) for t in part]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
