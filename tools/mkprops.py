"""Writes properties.jsonl (kept in one place so that wording and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
S = "src/ellalgo/"
CP = S + "cutting_plane.py"
p("C01", "A feasibility search returns only points its oracle accepted",
  "A feasibility search returns a point only when the user's oracle, asked about exactly that point, reported no cut; it returns no point only when the search space refused a cut, its size measure fell below the tolerance, or the iteration budget was used up. Every cut the oracle reports is applied to the space once, unchanged and in order, as a biased cut, and the oracle is always asked about the space's current centre.",
  ["histories", "inputs"], "every sequence of oracle answers, space statuses and size measures, every budget and tolerance",
  "the tests run a handful of fixed problems to the end; they never see a rejected cut after n successes, a size that crosses the tolerance at a chosen step, or an oracle that accepts at the last allowed query",
  [CP], [("feasibility loop", CP + ":cutting_plane_feas")], ["cutting_plane_feas return value", "calls received by oracle and space"])
p("C02", "Optimisation returns the last improvement, untouched by later steps",
  "An optimisation run returns the objective value of the last improvement its oracle reported together with the centre at which it was reported, as it was at that moment, or no point and the initial value when nothing improved. The oracle is always asked about the current centre with the latest value; the cut of an improving answer is applied as a central cut, every other cut as a biased cut, each once and unchanged.",
  ["histories", "inputs"], "every sequence of improving/non-improving oracle answers, statuses and sizes, with spaces that update their centre in place",
  "the tests assert iteration counts of a few fixed problems; aliasing and stale values show only for particular improve/refuse orders",
  [CP, S + "ell.py", S + "ell_stable.py"], [("optimisation loop", CP + ":cutting_plane_optim")], ["cutting_plane_optim return value", "calls received by oracle and space"])
p("C03", "Discrete optimisation follows the retry protocol and keeps the best point",
  "A discrete optimisation run returns the last improved value with the evaluation point reported along with it, as it was at that moment, even when the cut of that answer is then refused or ineffective. The oracle is asked to retry exactly after a cut that had no effect and for which it had announced alternatives; a cut without effect and without alternatives, or an empty region, ends the run.",
  ["histories", "inputs"], "every sequence of answers (improving or not, alternatives or not), statuses and sizes",
  "one fixed problem with one iteration count; the sequences of ineffective cuts and retries are never enumerated",
  [CP], [("discrete loop with retry flag", CP + ":cutting_plane_optim_q")], ["cutting_plane_optim_q return value", "calls received by oracle and space"])
p("C04", "Every search stops at the first stop condition with an honest iteration count",
  "Every cutting-plane run stops at the first iteration whose cut is refused (for the discrete run: no solution, or no effect without alternatives) or after which the space's size measure is below the tolerance, never later and never earlier, and asks its oracle at most max_iters times. The reported count is the number of completed iterations before the one that ended the run, and equals max_iters exactly when the budget ran out; a budget of zero asks nothing.",
  ["histories", "configurations"], "all three loops, every budget, every tolerance, sizes equal to, just above and just below the tolerance",
  "tests use default or one custom option set; the boundary tsq = tolerance and the last permitted iteration are not reached",
  [CP, S + "ell_config.py"], [("loop exits", CP)], ["returned iteration count", "number of oracle queries"])
p("C05", "Binary search keeps a bracket and returns the smallest accepted value",
  "Binary search only probes the midpoint of its current bracket (converted to the bracket's number type, which is that of its upper end), replaces the upper end by an accepted probe and the lower end by a rejected one, and returns the final upper end: the smallest accepted probe, or the initial upper bound if none was accepted. It stops as soon as the half-width is below the tolerance or after max_iters probes, and reports the number of probes made.",
  ["inputs", "histories"], "every interval of floats or integers, every oracle (monotone or not), every tolerance and budget",
  "the tests probe two intervals with one threshold each",
  [CP], [("bracket update", CP + ":bsearch")], ["bsearch return value", "probes received by the oracle"])
p("C06", "The binary-search adaptor isolates its subproblems",
  "For each probed value the adaptor passes that value to its oracle before solving, solves the feasibility subproblem from its own search space with its own options, and answers whether a point was found. The adaptor's space keeps its shape throughout; its centre changes only to the point found by a successful probe, so that after any sequence of probes its best point is the feasible point of the last successful one.",
  ["histories", "inputs"], "every sequence of probe values and subproblem outcomes, with either search-space class",
  "one fixed search is run; that failed probes leave no trace is not asserted",
  [CP], [("deep copy of the space, set_xc on success", CP + ":BSearchAdaptor.assess_bs")], ["BSearchAdaptor.assess_bs", "BSearchAdaptor.x_best", "adaptor.space"])
ELL = [S + "ell.py", S + "ell_stable.py", S + "ell_calc.py", S + "ell_calc_core.py"]
p("C07", "No cut ever removes a point that satisfies it",
  "After any sequence of successful biased, central and discrete cuts, single or parallel, every point of the initial ellipsoid that satisfies all cuts applied so far still lies in the current ellipsoid (up to rounding). This holds for both search-space classes, with and without parallel cuts enabled and with and without deferred scaling.",
  ["histories", "inputs", "configurations"], "all dimensions >= 2, gradients, offsets (deep; for the discrete update also shallow), parallel widths, and histories on well-conditioned ellipsoids",
  "tests check signs of a few coefficients and positive definiteness after one cut, never containment",
  ELL, [("rank-one update", S + "ell.py:_update_core; " + S + "ell_stable.py:_update_core"), ("cut coefficients", S + "ell_calc_core.py")], ["xc()", "shape observed through tsq() of probe cuts on copies"])
p("C08", "Every successful cut shrinks the ellipsoid, deep ones at the guaranteed rate",
  "A successful cut with non-negative offset (single, parallel or central) reduces the squared volume of the n-dimensional ellipsoid at least by the factor of a central cut, (n^2/(n^2-1))^n (n-1)/(n+1); any other successful cut does not enlarge it. The ellipsoid stays a genuine ellipsoid: finite centre and positive definite shape.",
  ["histories", "inputs", "configurations"], "all dimensions >= 2, cuts and histories, both classes and all flags",
  "volume is compared in one property test for one central cut",
  ELL, [("cut coefficients", S + "ell_calc_core.py"), ("rank-one update and scale factor", S + "ell.py, " + S + "ell_stable.py")], ["shape observed through tsq() of probe cuts on copies"])
p("C09", "Each update is the minimum-volume ellipsoid around what the cut keeps",
  "When a cut's hyperplanes meet the current ellipsoid, the updated ellipsoid is the one of smallest volume containing the kept part (the half-ellipsoid below a single cut, the slab between two parallel ones), for central, biased and discrete updates. When the second hyperplane of a parallel cut lies beyond the ellipsoid, or parallel cuts are disabled, the update is that of the single cut.",
  ["inputs", "configurations"], "all dimensions >= 2, offsets strictly inside the ellipsoid, cut widths, flags, both classes",
  "tests compare a dozen fixed coefficient triples for n = 4",
  ELL, [("closed-form coefficients", S + "ell_calc_core.py"), ("dispatch", S + "ell_calc.py")], ["EllCalc results", "xc() and shape after an update"])
p("C10", "Cut statuses tell the truth and refused cuts change nothing",
  "A cut is answered 'no solution' exactly when no point of the current ellipsoid satisfies it, 'no effect' exactly when it is a shallow cut given to the discrete update for which the current ellipsoid is already the smallest one, and 'success' otherwise (exact tangency aside, and parallel cuts whose first hyperplane lies beyond the far side of the ellipsoid, which only a shallow discrete cut can be, aside). A cut that is not answered 'success', and a zero gradient, which is refused with an error, leave centre and shape as they were.",
  ["inputs", "histories", "configurations"], "all offsets of either sign including slabs beyond either side of the ellipsoid, all three update kinds, both classes",
  "tests sample a few offsets per branch and do not look at the state after a refusal",
  ELL, [("case analysis", S + "ell_calc.py"), ("early returns", S + "ell.py, " + S + "ell_stable.py")], ["returned CutStatus", "xc() and shape before and after"])
p("C11", "Both ellipsoid classes represent the same ellipsoid through any history",
  "The plain and the factored (stable) search space, each with deferred or immediate scaling, started from the same scalar or diagonal shape and fed the same cuts, report the same statuses, centres and size measures and describe the same ellipsoid after every step (up to rounding). The size measure reported after an update is the squared extent of the ellipsoid before it along the cut's gradient.",
  ["histories", "inputs", "configurations"], "all histories of mixed updates (floating-point or integer gradients, re-centring, refused cuts), dimensions and flag settings",
  "iteration counts of two problems happen to agree; immediate scaling of the stable class is never run",
  [S + "ell.py", S + "ell_stable.py"], [("LDL^T rank-one update", S + "ell_stable.py:_update_core"), ("deferred scaling", "no_defer_trick")], ["status", "xc()", "tsq()", "shape through probe cuts"])
p("C12", "All formulations of the cut coefficients agree",
  "For a given dimension the alternative formulations of one cut (with and without precomputed terms, current and old) return the same three coefficients; a parallel cut whose lower offset is zero is the parallel central cut, a biased cut with offset zero is the central cut. Centre displacement and shrink coefficients are consistent with touching the kept part at its boundary.",
  ["inputs"], "all dimensions >= 2 and all offsets inside the ellipsoid at all scales",
  "doctests compare a few triples for n = 3 and n = 4",
  [S + "ell_calc_core.py"], [("EllCalcCore formulas", S + "ell_calc_core.py")], ["EllCalcCore.calc_*"])
p("C13", "Library calls never modify what the caller passed in",
  "Constructing a search space, applying cuts, running a search, assessing a point, factorising a matrix or solving a linear system leaves the caller's arrays unchanged: initial centre and shape values, gradients and offsets, points returned by an earlier optimisation run, cuts and points returned by an oracle, constraint matrices, right-hand sides and initial guesses. In particular two runs started from the same arrays give the same result.",
  ["histories", "inputs"], "all public entry points, any order of calls on shared arrays",
  "no test reuses an array after passing it in",
  [S + "ell.py", S + "ell_stable.py", CP, S + "conjugate_gradient.py", S + "oracles/"], [("copies before in-place updates", "constructors, _update_core, oracles")], ["arguments before and after each call"])
LD = S + "oracles/ldlt_mgr.py"
p("C14", "The factorisation verdict is positive definiteness, and its square root is exact",
  "Factorisation answers true exactly for positive definite matrices (singular and indefinite ones, away from rounding, are rejected), whatever was factorised before with the same manager and whether elements come from an array or an access function. For a matrix accepted as positive definite the square root is upper triangular with positive diagonal and its transpose times itself is the matrix; asking for it after a rejection is an error, and the semidefinite variant answers true exactly for positive semidefinite matrices.",
  ["inputs", "histories"], "all symmetric matrices of any order with any pivot sign pattern, sequences of factorisations on one manager",
  "nine fixed matrices",
  [LD], [("row-wise LDL^T with early exit", LD + ":factor"), ("semidefinite restart", LD + ":factor_with_allow_semidefinite")], ["factorize/factor result", "is_spd", "sqrt"])
p("C15", "A rejected matrix comes with a valid certificate",
  "After a rejection the reported window is a contiguous principal block of the matrix and the witness vector on it is non-zero and satisfies v'Av = -ep with the returned ep >= 0 (positive when the failing pivot is negative); the quadratic-form helper evaluates v'Mv for any matrix M on the same window. Asking for a witness of an accepted matrix is an error; the certificate concerns the last factorised matrix regardless of history and computing it does not change the verdict.",
  ["inputs", "histories"], "all rejected matrices, failing at any pivot, sequences of factorisations on one manager",
  "the tests look at three fixed matrices",
  [LD], [("back substitution", LD + ":witness"), ("windowed quadratic form", LD + ":sym_quad")], ["witness()", "wit", "pos", "sym_quad"])
p("C16", "LMI oracles accept exactly feasible points and cut off no feasible one",
  "Each matrix-inequality oracle accepts a point exactly when the matrix at that point is positive definite (boundary aside). Otherwise the cut it returns has non-negative offset, is violated or touched at the point, and is satisfied by every feasible point; its offset is the violation of the constraint along the returned direction, and the lazy and the explicit oracle give the same cut for the same problem whatever points were assessed before.",
  ["inputs", "histories"], "all families of symmetric coefficient matrices, all points, sequences of assessments on one oracle",
  "two fixed families are run to convergence; no cut is compared with feasible points",
  [S + "oracles/lmi_oracle.py", S + "oracles/lmi_old_oracle.py", S + "oracles/lmi0_oracle.py", LD], [("subgradient from the witness", S + "oracles/lmi*_oracle.py:assess_feas")], ["assess_feas result"])
LP = S + "oracles/lowpass_oracle.py"
p("C17", "The lowpass oracle's verdicts and cuts are right whatever its scan position",
  "The filter oracle accepts coefficients exactly when, at every sampled frequency, the response is within the passband limits, between zero and the current bound in the stopband and non-negative in between, whatever was assessed before. Otherwise it returns a constraint that is violated at the point, with the exact violation and opposite-side distance, satisfied by every filter meeting the specification; an accepted point yields the largest stopband response as objective value and the matching central cut.",
  ["inputs", "histories", "configurations"], "all filter lengths, band edges, limits, coefficient vectors and sequences of assessments",
  "one specification (n = 32) and three points",
  [LP], [("round-robin scans", LP + ":assess_feas"), ("objective cut", LP + ":assess_optim")], ["assess_feas and assess_optim results"],
  [dict(name="idx1/idx2/idx3", meaning="scan positions", where=LP)])
PR = S + "oracles/profit_oracle.py"
p("C18", "The profit oracle's cuts keep every better plan and its value is the true profit",
  "At any point and current value the profit oracle either returns a violated constraint, with the logarithm of the ratio by which it is violated as offset, whose cut is satisfied by every input plan that respects the limit and earns at least the current value, or reports the point's true profit, which is then at least the current value, with a central cut satisfied by every plan that respects the limit and earns at least that profit. The verdict does not depend on the points assessed before.",
  ["inputs", "histories"], "all positive prices, scales, limits, elasticities with sum below one, points, values and assessment sequences",
  "property tests check types and signs; no cut is compared with better plans",
  [PR], [("log-space convex reformulation, round robin", PR + ":ProfitOracle")], ["assess_feas, assess_optim results"],
  [dict(name="idx", meaning="round-robin position", where=PR)])
p("C19", "The robust profit oracle guards against every scenario in its uncertainty set",
  "The robust oracle accepts a point with a value only if the plan respects the reduced limit and earns at least that value for every price, input cost and elasticity in the stated intervals; the value it reports is the worst case over them, attained for one of them. Its cuts are satisfied by every plan that is better in that robust sense, and the nominal elasticities given by the user are never altered.",
  ["inputs", "histories"], "all interval sizes, points in every sign quadrant, sequences of assessments",
  "one fixed uncertainty set, one fixed run",
  [PR], [("worst-case parameters by sign", PR + ":ProfitRbOracle")], ["assess_optim results"])
p("C20", "The discrete profit oracle evaluates rounded plans and its cuts belong to them",
  "When the continuous point is admissible the discrete oracle evaluates the plan rounded to the nearest positive integers (zero becomes one), reports that plan, announces alternatives only on a first attempt, and on a retry re-evaluates the same rounded plan; a reported value is the true profit of the reported admissible integer plan. When the continuous point is not admissible it returns that point's own cut and no value; cuts taken at the rounded plan are expressed relative to the current centre.",
  ["inputs", "histories"], "all parameters, points (including ones rounding to zero or above the limit), first attempts and retries",
  "one run with a fixed count; rounding and offsets are not checked",
  [PR], [("rounding and offset adjustment", PR + ":ProfitQOracle.assess_optim_q")], ["assess_optim_q result"])
p("C21", "The linear solver returns a solution within tolerance or raises",
  "For a symmetric positive definite system of any order the conjugate-gradient solver returns a vector whose residual is below the requested tolerance (up to rounding), also when the right-hand side is zero or the initial guess is already a solution, taking no more iterations than allowed; otherwise it raises an error and returns nothing. The number of iterations needed is at most the order for well-conditioned systems, and neither the matrix, the right-hand side nor the initial guess is modified.",
  ["inputs"], "all orders, well-conditioned positive definite matrices, right-hand sides, initial guesses, tolerances, budgets",
  "three calls with one 2x2 matrix",
  [S + "conjugate_gradient.py"], [("CG recurrence and stop test", S + "conjugate_gradient.py")], ["return value or exception"])
SF = S + "oracles/spectral_fact.py"
p("C22", "Spectral factorisation inverts autocorrelation with a minimum-phase filter",
  "For an autocorrelation with positive spectrum the spectral factor is real, has that autocorrelation and is minimum phase (no zero outside the unit circle); the inverse function returns exactly the autocorrelation sequence of a filter. A spectrum that touches zero, or dips below it only by rounding, still gives a real factor whose autocorrelation is close to the given one. Empty, non-finite or clearly invalid (negative-spectrum) inputs raise an error instead of returning a filter.",
  ["inputs"], "all orders and minimum-phase filters with zeros bounded away from the unit circle",
  "one round trip and shape checks",
  [SF], [("Kolmogorov method", SF)], ["spectral_fact", "inverse_spectral_fact"])
p("C23", "Searches solve well-posed convex problems from end to end",
  "If a ball of radius r of feasible points lies inside the initial ellipsoid (geometric mean radius R), a feasibility search with an exact oracle finds a feasible point within the theoretical number of iterations 2n(n+1)ln(R/r) (plus one), given the budget, and never reports infeasibility; an infeasible problem is never answered with a point. A search with an additional linear equation, given as a slab whose two hyperplanes coincide, still finds a point. On bounded linear programs the optimisation run ends without an exception, with a feasible point whose value equals the returned value and is within the accuracy that the iterations made and the tolerance imply of the exact optimum, and a bisection over the value through BSearchAdaptor ends at that optimum too.",
  ["inputs", "configurations"], "all feasible and infeasible polyhedra in small dimension, objectives, starting ellipsoids, both classes, single and parallel cuts",
  "a dozen fixed problems with pinned iteration counts",
  [CP] + ELL, [("whole pipeline", "cutting_plane_feas / cutting_plane_optim with Ell / EllStable")], ["results of complete runs"])
p("C24", "Instances do not influence each other",
  "Operations on one search space, oracle, factorisation manager, options object or run never change the behaviour of another: however the steps of two independent objects are interleaved, and whatever objects were created or used before, each gives the results it gives when run alone. Default options stay at 2000 iterations and tolerance 1e-20 for calls that do not pass their own.",
  ["schedules", "histories"], "all interleavings of step sequences of two instances of every class",
  "each test uses fresh objects one at a time",
  [S + "ell.py", S + "ell_stable.py", S + "oracles/", S + "ell_config.py", CP], [("per-instance state", "constructors; class-level defaults")], ["results of interleaved and solo runs"])
p("C25", "The Fibonacci example is the Fibonacci sequence",
  "The example function returns 1 for 1 and 2 and the sum of its two predecessors for every larger argument, exactly, and rejects arguments below one; the command-line entry point prints that number for the argument it was given and accepts the verbosity flags.",
  ["inputs"], "all positive integers (unbounded size)",
  "four sample arguments",
  [S + "skeleton.py"], [("iterative sum", S + "skeleton.py:fib")], ["fib", "main output"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
