"""C14, C15: the factorisation manager (LDLT.tla, LDLTModel.tla, LDTrace.tla)."""
import json, random
import vlib


def common(chk):
    chk.assumptions += ["symmetric matrices; the verdict is demanded when every pivot is at least 1e-5 of the largest diagonal entry away from zero or the elimination is exact in doubles",
                        "rounding: relative 1e-9 on certificates and square roots"]
    gens = [lambda: vlib.generate("LDLTModel", "LDLT2T.cfg" if chk.thorough else "LDLT2.cfg", workers=3),
            lambda: vlib.generate("LDLTModel", "LDLT3T.cfg" if chk.thorough else "LDLT3.cfg", workers=3)]
    rows = []
    for r, rs in vlib.parallel(gens):
        chk.count(r)
        rs.sort(key=json.dumps)
        cap = 6000 if not chk.thorough else 100000
        rows += rs if len(rs) <= cap else random.Random(chk.seed).sample(rs, cap)
    r, rs = vlib.generate("LDLTModel", "LDLTSim4.cfg", args=["-simulate", f"num={chk.n(300, 4000)}", "-depth", "18", "-seed", str(chk.seed)])
    chk.count(r)
    rows += rs
    chk.note("model_histories_stepped", len(rows))
    chk.sample("history of LDLTModel stepped through the real manager: " + json.dumps(rows[len(rows) // 2])[:300])
    traces = vlib.step("h_ldlt.py", "script", rows, chk.seed)
    traces += vlib.record(chk, "h_ldlt.py", "random", chk.n(120, 2000), shards=vlib.CORES)
    known = vlib.load_known(chk.prop)
    seen = []

    def keep(clause):
        if clause.startswith("KNOWN C14"):
            seen.append(clause)
            return chk.prop == "C14" and not known
        return chk.prop in clause
    vlib.judge(chk, "LDTrace", traces, keep=keep, context=2)
    if chk.prop == "C14":
        chk.note("known_deviation_hits", len(seen))
        for k in known:
            if seen:
                chk.known.append(k["what"])


C14 = C15 = common
