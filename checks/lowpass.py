"""C17: the lowpass oracle (Lowpass.tla, LowpassModel.tla, LPTrace.tla)."""
import json, random
import vlib


def C17(chk):
    chk.assumptions += ["band edges such that the stopband holds at least one frequency; responses compared up to 1e-11 of the sum of the magnitudes"]
    gens = [lambda: (vlib.model("LowpassScan" and "LowpassModel", "LowpassScan.cfg"), [])]
    gens += [lambda c=c: vlib.generate("LowpassModel", c) for c in ("LowpassA.cfg", "LowpassB.cfg", "LowpassC.cfg")]
    rows = []
    for r, rs in vlib.parallel(gens):
        chk.count(r)
        rs.sort(key=json.dumps)
        rows += random.Random(chk.seed).sample(rs, min(len(rs), chk.n(1000, 100000)))
    chk.sample("history of LowpassModel realised by filters: " + json.dumps(rows[0])[:300])
    traces = vlib.step("h_lowpass.py", "script", rows, chk.seed)
    chk.note("realised_cases", {t: sum(1 for tr in traces for e in tr[1:] if e.get("want") == t) for t in ("none", "passup", "passlow", "stopup", "stoplow", "translow")})
    traces += vlib.record(chk, "h_lowpass.py", "random", chk.n(40, 500), shards=vlib.CORES)
    traces += vlib.record(chk, "h_lowpass.py", "design", chk.n(1, 4), shards=vlib.CORES)
    vlib.judge(chk, "LPTrace", traces)
