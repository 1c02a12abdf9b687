"""C16: matrix-inequality oracles (LMI.tla, LMIModel.tla, LMITrace.tla)."""
import json, random
import vlib


def C16(chk):
    chk.assumptions += ["symmetric coefficient matrices; the verdict is demanded away from the boundary or when the elimination is exact in doubles",
                        "feasible points are sampled and decided exactly by the specification"]
    sims = vlib.parallel([lambda c=c: vlib.generate("LMIModel", c, args=["-simulate", f"num={chk.n(500, 6000)}", "-depth", "5", "-seed", str(chk.seed)])
                          for c in ("LMIModel2.cfg", "LMIModel3.cfg")])
    rows = []
    for r, rs in sims:
        chk.count(r)
        rs.sort(key=json.dumps)
        rows += random.Random(chk.seed).sample(rs, min(len(rs), chk.n(2500, 40000)))
    chk.sample("history of LMIModel stepped through the real oracles: " + json.dumps(rows[0])[:300])
    traces = vlib.step("h_lmi.py", "script", rows, chk.seed)
    traces += vlib.record(chk, "h_lmi.py", "random", chk.n(80, 1200), shards=vlib.CORES)
    vlib.judge(chk, "LMITrace", traces, context=1)
