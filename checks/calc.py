"""C12: the cut coefficients (CutCalc.tla)."""
import json
import vlib


def C12(chk):
    chk.assumptions += ["both hyperplanes meet the ellipsoid and the cut has effect (the formulas' domain)",
                        "formulations dividing by the sum of the offsets are called with that sum away from zero"]
    r, rows = vlib.generate("CutCalcGen", "CutCalcGenT.cfg" if chk.thorough else "CutCalcGen.cfg", workers=4)
    chk.count(r)
    rows.sort(key=json.dumps)
    chk.sample("grid case with exact coefficients: " + json.dumps(rows[len(rows) // 2])[:400])
    vlib.replay(chk, "h_calc.py", "grid", rows, chk.seed)
    traces = vlib.record(chk, "h_calc.py", "runs", chk.n(600, 6000), shards=vlib.CORES)
    vlib.judge(chk, "CCTrace", traces)
