"""C01-C04: the cutting-plane loops (CuttingPlane.tla)."""
import json, os, tempfile
import vlib

MODE = {"C01": ["feas"], "C02": ["optim"], "C03": ["optq"], "C04": ["feas", "optim", "optq"]}


def concerns(prop, mode, msg):
    """Does this mismatch break this property's own text?"""
    count = msg.startswith("count ")
    late = msg.startswith("went on after")
    early = msg.startswith("stopped after")
    if prop == "C04":
        return count or late or early or msg.startswith("raised") or "out of turn" in msg or "was not applied" in msg
    if count:
        return False
    if late:
        return prop == "C03"   # C03 says which answers end the run
    if early:
        return prop in ("C01", "C03")
    return True


def replay(chk, rows, seed):
    shards = vlib.CORES
    tmp = tempfile.mkdtemp(prefix="beh")
    jobs = []
    for j in range(shards):
        part = rows[j::shards]
        if not part:
            continue
        p = os.path.join(tmp, f"{j}.ndjson")
        with open(p, "w") as f:
            for b in part:
                f.write(json.dumps(b) + "\n")
        jobs.append(lambda p=p, j=j: vlib.run_harness("h_drivers.py", ["replay", p, seed * 100 + j]))
    res = vlib.parallel(jobs)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    for r in res:
        chk.traces += r["count"]
        for b, e in r["fails"]:
            if concerns(chk.prop, b["mode"], e):
                chk.violation(e, b)


def common(chk):
    prop = chk.prop
    chk.assumptions += ["oracle and space follow their protocols (the specification's environment)",
                        "statuses of the discrete update are Success, NoSoln or NoEffect"]
    r = vlib.model("CuttingPlane", workers=vlib.CORES, heap="6g")
    chk.count(r)
    r = vlib.model("CuttingPlane", "CuttingPlaneLive.cfg", workers=2)
    chk.count(r)
    gens = []
    for m in MODE[prop]:
        cfg = f"CPGen_{m}.cfg"
        if chk.thorough and m == "optq":
            cfg = "CPGen_optqT.cfg"
        gens.append(lambda cfg=cfg: vlib.generate("CuttingPlaneGen", cfg, workers=2, heap="6g"))
        n = chk.n(3000, 40000)
        gens.append(lambda m=m, n=n: vlib.generate("CPSim", f"CPSim_{m}.cfg", heap="4g",
                    args=["-simulate", f"num={n}", "-depth", "400", "-seed", str(chk.seed)]))
        n2 = chk.n(12, 120)
        gens.append(lambda m=m, n=n2: vlib.generate("CPSim", f"CPLong_{m}.cfg", heap="4g",
                    args=["-simulate", f"num={n}", "-depth", "7000", "-seed", str(chk.seed)]))
    total = 0
    for (r, rows) in vlib.parallel(gens):
        chk.count(r)
        total += len(rows)
        if not rows:
            raise vlib.Machinery("no behaviours generated")
        rows.sort(key=json.dumps)
        chk.sample("behaviour of the specification stepped through the real loop: " + json.dumps(rows[len(rows) // 2])[:400])
        for rep in range(chk.n(1, 3)):
            replay(chk, rows, chk.seed * 7 + rep)
    chk.note("behaviours_replayed", total)
    # recorded runs of real oracles and spaces
    parts = vlib.parallel([lambda s=s: vlib.run_harness("h_drivers.py", ["runs", chk.seed * 1000 + s, chk.n(60, 400)])
                           for s in range(4)])
    traces = [t for p in parts for t in p["traces"]]
    chk.note("runs_cut_short_by_oracle_or_space_errors", sum(sum(p["inner"].values()) for p in parts))
    fails, nev, stats = vlib.validate("CPTrace", traces)
    chk.count(stats)
    chk.traces += len(traces)
    chk.note("recorded_runs", len(traces))
    chk.note("recorded_events", nev)
    for i, k, clause in fails:
        if prop in clause and traces[i][0]["mode"] in MODE[prop]:
            chk.violation(clause, traces[i][:k + 1][-6:])


C01 = C02 = C03 = C04 = common
