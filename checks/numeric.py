"""C21 (CG.tla), C22 (Spectral.tla), C25 (Fib.tla)."""
import json, random
import vlib


def C21(chk):
    chk.assumptions += ["iteration counts are demanded for condition numbers up to 10 and tolerances above 1e-9 of the right-hand side",
                        "rounding: 1e-11 of the data is allowed on top of the tolerance"]
    rows = []
    for r, rs in vlib.parallel([lambda: vlib.generate("CGModel", "CGModel2.cfg", workers=2), lambda: vlib.generate("CGModel", "CGModel3.cfg", workers=4)]):
        chk.count(r)
        rs.sort(key=json.dumps)
        rows += random.Random(chk.seed).sample(rs, min(len(rs), chk.n(2500, 50000)))
    chk.sample("system of CGModel solved by the real solver: " + json.dumps(rows[0])[:300])
    traces = vlib.step("h_cg.py", "script", rows, chk.seed)
    traces += vlib.record(chk, "h_cg.py", "random", chk.n(150, 3000), shards=vlib.CORES)
    chk.note("outcomes", {k: sum(1 for t in traces if (t[0]["err"] == "") == (k == "returned")) for k in ("returned", "raised")})
    vlib.judge(chk, "CGTrace", traces)


def C22(chk):
    chk.assumptions += ["filters of up to 64 taps, zeros of modulus at most 0.97 and exp(-0.4/n) (the method samples 100 n frequencies); autocorrelation compared up to 1e-6",
                        "clearly invalid: a response below -0.001 and -0.001 times the sum of the magnitudes at a multiple of pi/12"]
    r, rows = vlib.generate("SpectralModel", workers=4)
    chk.count(r)
    rows.sort(key=json.dumps)
    rows = random.Random(chk.seed).sample(rows, min(len(rows), chk.n(1500, 20000)))
    chk.sample("filter of SpectralModel (and its minimum-phase version): " + json.dumps(rows[-1])[:300])
    traces = vlib.step("h_spectral.py", "script", rows, chk.seed)
    traces += vlib.record(chk, "h_spectral.py", "random", chk.n(80, 1500), shards=vlib.CORES)
    vlib.judge(chk, "SFTrace", traces, context=1)


def C25(chk):
    chk.assumptions += ["arguments up to the stated bound; the output is searched for the number"]
    traces = vlib.record(chk, "h_fib.py", "go", 0, shards=1) if False else vlib.run_harness("h_fib.py", ["go", chk.seed, chk.n(1200, 5000)])
    chk.note("arguments", len(traces[0]))
    vlib.judge(chk, "Fib", traces, context=1)
