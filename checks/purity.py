"""C13 (Purity.tla, PurityModel.tla), C24 (Interleave.tla, InterTrace.tla)."""
import json, os, random, tempfile
import vlib


def with_cfg(text, f):
    """A configuration whose constants depend on what the harness can do."""
    fd, p = tempfile.mkstemp(suffix=".cfg")
    os.write(fd, text.encode())
    os.close(fd)
    try:
        return f(p)
    finally:
        os.unlink(p)


def C13(chk):
    chk.assumptions += ["operations on small instances with floating-point or integer arrays; contents compared bit for bit"]
    ops = vlib.run_harness("h_purity.py", ["ops"])
    names = "{" + ", ".join(json.dumps(o) for o in ops) + "}"
    cfg = "SPECIFICATION Spec\nCONSTANTS Ops = %s H = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    r, rows = with_cfg(cfg % (names, 2), lambda p: vlib.generate("PurityModel", p, workers=2))
    chk.count(r)
    r, more = with_cfg(cfg % (names, 6), lambda p: vlib.generate("PurityModel", p, args=["-simulate", f"num={chk.n(8, 200)}", "-depth", "7", "-seed", str(chk.seed)]))
    chk.count(r)
    rows.sort()
    more.sort()
    rows += random.Random(chk.seed).sample(more, min(len(more), chk.n(200, 5000)))
    chk.note("operations", ops)
    chk.sample("call sequence: " + json.dumps(rows[len(rows) // 2]))
    traces = []
    for rep in range(chk.n(4, 12)):
        traces += vlib.step("h_purity.py", "script", rows, chk.seed + rep)
    vlib.judge(chk, "Purity", traces)


def C24(chk):
    chk.assumptions += ["scripts of four steps per instance; results compared bit for bit with a fresh interpreter"]
    kinds = vlib.run_harness("h_inter.py", ["kinds"])
    names = "{" + ", ".join(json.dumps(o) for o in kinds) + "}"
    cfg = "SPECIFICATION Spec\nCONSTANTS Kinds = %s Steps = 4\nINVARIANTS NoInfluence Emit\nCHECK_DEADLOCK FALSE\n" % names
    r, rows = with_cfg(cfg, lambda p: vlib.generate("Interleave", p, workers=4))
    chk.count(r)
    rows.sort(key=json.dumps)
    rnd = random.Random(chk.seed)
    seeds = list(range(chk.seed * 10, chk.seed * 10 + chk.n(3, 6)))
    same = [b for b in rows if b["a"] == b["b"]]
    rows = rnd.sample(rows, min(len(rows), chk.n(6000, 40000))) + same
    for b in rows:
        b["sa"], b["sb"] = rnd.choice(seeds), rnd.choice(seeds)
    todo = [(k, s) for k in kinds for s in seeds]
    res = vlib.parallel([lambda k=k, s=s: vlib.run_harness("h_inter.py", ["solo", k, s]) for k, s in todo])
    fd, p = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({f"{k}/{s}": v for (k, s), v in zip(todo, res)}, f)
    chk.note("kinds", kinds)
    chk.sample("interleaving: " + json.dumps(rows[0]))
    try:
        traces = vlib.step("h_inter.py", "script", rows, chk.seed, extra=[p])
    finally:
        os.unlink(p)
    traces += vlib.run_harness("h_inter.py", ["defaults"])
    vlib.judge(chk, "InterTrace", traces)
