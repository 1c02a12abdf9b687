"""C23: complete problems (EndToEnd.tla, E2EModel.tla, E2ETrace.tla)."""
import json
import vlib


def C23(chk):
    chk.assumptions += ["exact oracles of polyhedra; feasibility and values decided up to 1e-9 relative",
                        "the gap of a minimum is bounded by volume and tolerance as derived in EndToEnd.tla"]
    per = chk.n(60, 600)
    jobs = [lambda n=n, s=s: vlib.generate("E2EModel", f"E2EModel{n}.cfg", args=["-simulate", f"num={per}", "-depth", "60", "-seed", str(chk.seed * 10 + s)])
            for n in (3, 2) for s in range(4)]
    rows = []
    for r, rs in vlib.parallel(jobs):
        chk.count(r)
        rs.sort(key=json.dumps)
        rows += rs
    chk.sample("problem drawn and solved by E2EModel, then given to the real code: " + json.dumps(rows[0])[:300])
    traces = vlib.step("h_e2e.py", "script", rows, chk.seed)
    traces += vlib.record(chk, "h_e2e.py", "random", chk.n(40, 600), shards=vlib.CORES)
    vlib.judge(chk, "E2ETrace", traces, context=9)
