"""Writes MANIFEST.json from the table of built checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
D = "TLA+/TLC: "
T = {
 "C01": (D + "model checking of CuttingPlane.tla, every bounded behaviour stepped through cutting_plane_feas, recorded runs validated against it (CPTrace.tla)",
         "Exhaustive over all interactions up to 4 iterations, simulated runs up to 2001; assumes oracle and space keep to their protocol."),
 "C02": (D + "model checking of CuttingPlane.tla, every bounded behaviour stepped through cutting_plane_optim, recorded runs validated (CPTrace.tla)",
         "Exhaustive up to 4 iterations, simulated runs up to 2001; assumes oracle and space keep to their protocol."),
 "C03": (D + "model checking of CuttingPlane.tla, every bounded behaviour stepped through cutting_plane_optim_q, recorded runs validated (CPTrace.tla)",
         "Exhaustive up to 3 iterations, simulated runs up to 2001; statuses limited to the three the discrete update can give."),
 "C04": (D + "model checking of CuttingPlane.tla (safety and termination), bounded behaviours of all three loops stepped through the code, recorded runs validated (CPTrace.tla)",
         "Exhaustive up to 3-4 iterations, simulated runs up to 2001 including the default budget."),
 "C05": (D + "model checking of BSearch.tla over exact rationals, behaviours stepped through bsearch, recorded runs validated (BSTrace.tla)",
         "All accept/reject answers up to the bound, integer and float brackets; midpoints of floats checked up to rounding."),
 "C06": (D + "model checking of BSAdaptor.tla, behaviours stepped through BSearchAdaptor with scripted and real spaces",
         "All outcome sequences up to the bound; the space is observed through its public interface."),
 "C07": (D + "trace validation of recorded cut histories against SearchSpace.tla with exact rational arithmetic",
         "Containment decided exactly (up to 1e-7 relative) for each recorded update; histories are sampled."),
 "C08": (D + "trace validation of recorded cut histories against SearchSpace.tla with exact rational determinants",
         "Decided per recorded update; histories are sampled."),
 "C09": (D + "trace validation: optimality (John) conditions of the minimum-volume ellipsoid evaluated exactly in SearchSpace.tla",
         "Decided per recorded update; histories are sampled."),
 "C10": (D + "trace validation: status table of SearchSpace.tla decided exactly, unchanged state after refusals",
         "Decided per recorded update; histories are sampled, exact tangency excluded."),
 "C11": (D + "trace validation of lock-step histories of all class/flag combinations against SearchSpace.tla",
         "Decided per recorded update; histories are sampled."),
 "C12": (D + "trace validation: coefficient formulas of CutCalc.tla evaluated exactly on recorded calls of every formulation",
         "Each recorded call decided up to rounding."),
 "C13": (D + "trace validation: before/after contents of every caller-owned array (Purity.tla)",
         "Every public operation, sampled arguments; bitwise comparison."),
 "C14": (D + "model checking of LDLT.tla over all small integer matrices, each replayed on LDLTMgr, recorded larger matrices validated",
         "Exhaustive over small integer matrices, sampled beyond."),
 "C15": (D + "model checking of LDLT.tla over all small integer matrices, certificates of the code validated exactly",
         "Exhaustive over small integer matrices, sampled beyond."),
 "C16": (D + "trace validation: verdicts and cuts of the LMI oracles decided exactly by LMI.tla",
         "Sampled problems and histories; every recorded answer decided exactly."),
 "C17": (D + "trace validation of recorded assessment histories against Lowpass.tla",
         "Sampled problems and histories; responses recomputed in the specification."),
 "C18": (D + "trace validation of recorded assessments against Profit.tla",
         "Sampled problems and points; every recorded answer decided by the specification."),
 "C19": (D + "trace validation of recorded assessments against Profit.tla (robust part)",
         "Sampled problems and points; corners of the uncertainty box enumerated in the specification."),
 "C20": (D + "trace validation of recorded assessment histories against Profit.tla (discrete part)",
         "Sampled problems, points and retry histories; one known finding (offset sign) is listed."),
 "C21": (D + "trace validation: residual and outcome of recorded solves decided exactly by CG.tla",
         "Sampled systems; every recorded outcome decided."),
 "C22": (D + "trace validation: autocorrelation identity and Schur-Cohn minimum-phase test in exact rationals (Spectral.tla)",
         "Sampled filters; every recorded answer decided up to rounding."),
 "C23": (D + "trace validation: end-to-end answers against optima enumerated by EndToEnd.tla",
         "Sampled problems with exactly enumerable optima."),
 "C24": (D + "TLC-enumerated interleavings of two instances (Interleave.tla) stepped through the code and compared with solo runs",
         "All interleavings of short scripts for every class; bitwise comparison."),
 "C25": (D + "recurrence of Fib.tla checked by TLC on the recorded values; command line included",
         "Arguments up to the bound."),
}
BUILT = open(os.path.join(HERE, "tools", "built.txt")).read().split()
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
                      evidence_file=f"evidence/{p['id']}.json", technique=T[p["id"]][0], level="model_checking", level_note=T[p["id"]][1])
                 for p in props if p["id"] in BUILT],
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in BUILT],
         notes="No hooks in /repo: everything is observed through public interfaces. Only fix: commits were made there.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
