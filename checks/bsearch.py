"""C05, C06: binary search and its adaptor (BSearch.tla, BSAdaptor.tla)."""
import json
import vlib


def C05(chk):
    chk.assumptions += ["the number type of a bracket is that of its upper end (as documented in the code); a lower end of another type is an integer"]
    r, rows = vlib.generate("BSearchGen", "BSearchGenT.cfg" if chk.thorough else "BSearchGen.cfg", workers=4)
    chk.count(r)
    r2, rows2 = vlib.generate("BSearchGen", "BSearchSim.cfg",
                              args=["-simulate", f"num={chk.n(1500, 20000)}", "-depth", "100", "-seed", str(chk.seed)])
    chk.count(r2)
    rows += rows2
    rows.sort(key=json.dumps)
    chk.sample("behaviour stepped through bsearch: " + json.dumps(rows[len(rows) // 2])[:400])
    for rep in range(chk.n(2, 6)):
        vlib.replay(chk, "h_bsearch.py", "bs", rows, chk.seed * 10 + rep)
    traces = vlib.record(chk, "h_bsearch.py", "runs_bs", chk.n(150, 1200))
    vlib.judge(chk, "BSTrace", traces)


def C06(chk):
    r, rows = vlib.generate("BSAdaptorGen", "BSAdaptorGenT.cfg" if chk.thorough else "BSAdaptorGen.cfg", workers=4)
    chk.count(r)
    rows.sort(key=json.dumps)
    chk.sample("behaviour stepped through BSearchAdaptor: " + json.dumps(rows[len(rows) // 2])[:400])
    for rep in range(chk.n(1, 3)):
        vlib.replay(chk, "h_bsearch.py", "ad", rows, chk.seed * 10 + rep)
    traces = vlib.record(chk, "h_bsearch.py", "runs_ad", chk.n(60, 500))
    vlib.judge(chk, "BSATrace", traces)
