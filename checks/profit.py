"""C18-C20: the profit oracles (Profit.tla, ProfitModel.tla, PFTrace.tla)."""
import json, random
import vlib


def common(chk, kind, cfg, cap, per):
    chk.assumptions += ["positive parameters, elasticities with sum below one, current value not negative",
                        "better plans are proposed along the boundary and decided exactly; relative tolerance 1e-9"]
    r, rows = vlib.generate("ProfitModel", cfg)
    chk.count(r)
    rows.sort(key=json.dumps)
    rows = random.Random(chk.seed).sample(rows, min(cap, len(rows)))
    chk.sample("history of ProfitModel realised with numbers: " + json.dumps(rows[0])[:300])
    traces = vlib.step("h_profit.py", "script", rows, chk.seed)
    traces += vlib.record(chk, "h_profit.py", "random", per, shards=vlib.CORES, extra=[kind])
    known = vlib.load_known(chk.prop)
    seen = []

    def keep(clause):
        if clause.startswith("KNOWN " + chk.prop):
            seen.append(clause)
            return not known
        return chk.prop in clause
    vlib.judge(chk, "PFTrace", traces, keep=keep, context=3)
    chk.note("answers", {k: sum(1 for t in traces for e in t if e["ev"] == kind and (e["val"] == "none") == (k == "rejected")) for k in ("accepted", "rejected")})
    for k in known:
        if seen:
            chk.note("known_deviation_hits", len(seen))
            chk.known.append(k["what"])


def C18(chk):
    common(chk, "plain", "ProfitPlain.cfg", 256, chk.n(30, 400))


def C19(chk):
    common(chk, "robust", "ProfitRobust.cfg", 64, chk.n(25, 300))


def C20(chk):
    common(chk, "discrete", "ProfitDiscrete.cfg", chk.n(1500, 7600), chk.n(60, 800))
