"""C07-C11: the search space (SearchSpace.tla, SSModel.tla, SSTrace.tla, SSLock.tla)."""
import json, random
import vlib


def scripts(chk, cap):
    r0 = vlib.model("SSLaws", workers=vlib.CORES)
    chk.count(r0)
    gens = [lambda: vlib.generate("SSModel", "SSModelT.cfg" if chk.thorough else "SSModel.cfg", workers=4, heap="8g"),
            lambda: vlib.generate("SSModel", "SSModelNP.cfg", workers=2),
            lambda: vlib.generate("SSModel", "SSSim.cfg", args=["-simulate", f"num={chk.n(400, 6000)}", "-depth", "9", "-seed", str(chk.seed)])]
    rows = []
    for k, (r, rs) in enumerate(vlib.parallel(gens)):
        chk.count(r)
        rs.sort(key=json.dumps)
        if k == 0 and len(rs) > cap:
            rs = random.Random(chk.seed).sample(rs, cap)
        rows += rs
    chk.note("model_scripts_stepped", len(rows))
    chk.sample("cut script of SSModel stepped through the real classes: " + json.dumps(rows[len(rows) // 3])[:500])
    return rows


def step(rows, seed, extra=()):
    return vlib.step("h_space.py", "script", rows, seed, extra)


def common(chk):
    chk.assumptions += ["dimension at least 2, ellipsoids with condition number up to about 1e5 after scaling",
                        "the shape is observed through the size measure of trial central cuts on copies",
                        "rounding is allowed for by a relative tolerance of 1e-7 (1e-6 for containment)"]
    rows = scripts(chk, 5000 if not chk.thorough else 10 ** 9)
    traces = step(rows, chk.seed)
    if chk.prop == "C10":
        for t in traces:
            w, g = t[0]["want"], t[0]["got"]
            if w[:len(g)] != g:
                chk.violation(f"statuses {g} where the specification has {w}", t[:3])
    traces += vlib.record(chk, "h_space.py", "random", chk.n(60, 600), shards=vlib.CORES)
    for t in traces:
        t[0].pop("want", None), t[0].pop("got", None)
    vlib.judge(chk, "SSTrace", traces, keep=lambda c: chk.prop in c)
    if chk.prop != "C08":
        vlib.judge(chk, "SSFlat", vlib.record(chk, "h_space.py", "flat", chk.n(60, 600), shards=vlib.CORES), keep=lambda c: chk.prop in c)


C07 = C08 = C09 = C10 = common


def C11(chk):
    common(chk)
    rows = scripts(chk, 1500 if not chk.thorough else 20000)
    traces = step(rows, chk.seed + 1, ["LOCK"])
    traces += vlib.record(chk, "h_space.py", "random", chk.n(40, 400), shards=vlib.CORES, extra=["LOCK"])
    vlib.judge(chk, "SSLock", traces)
