"""Every formulation of the cut coefficients on the real code."""
import json, math, random, sys
from fractions import Fraction
from hcommon import attempt, emit, hx
from ellalgo.ell_calc_core import EllCalcCore
from ellalgo.ell_calc import EllCalc


def answers(n, b0, b1, tsq, rnd, kind):
    """All formulations that apply to this cut: [(name, ok, value)]."""
    c = EllCalcCore(rnd.choice([float(n), n]))
    e = EllCalc(n)
    tau = math.sqrt(tsq)
    out = []

    def add(name, f, *a):
        out.append((name,) + attempt(f, *a))

    def addd(name, f, *a):
        ok, v = attempt(f, *a)
        if ok:
            st, v = v
            if getattr(st, "name", "") != "Success" or v is None:
                ok, v = False, "status " + str(getattr(st, "name", st))
        out.append((name, ok, v))
    if kind == "central":
        add("calc_central_cut", c.calc_central_cut, tau)
        add("calc_bias_cut at zero", c.calc_bias_cut, 0.0, tau)
        add("calc_bias_cut_fast at zero", c.calc_bias_cut_fast, 0.0, tau, tau)
        addd("EllCalc central", e.calc_single_or_parallel_central_cut, 0.0, tsq)
        addd("EllCalc central, far slab", e.calc_single_or_parallel_central_cut, [0.0, 1.5 * tau], tsq)
        addd("EllCalc bias at zero", e.calc_single_or_parallel, 0, tsq)
        addd("EllCalc q at zero", e.calc_single_or_parallel_q, 0.0, tsq)
    elif b1 is None:
        add("calc_bias_cut", c.calc_bias_cut, b0, tau)
        add("calc_bias_cut_fast", c.calc_bias_cut_fast, b0, tau, tau + n * b0)
        addd("EllCalc.calc_bias_cut_q", e.calc_bias_cut_q, b0, tsq)
        addd("EllCalc.calc_single_or_parallel_q", e.calc_single_or_parallel_q, b0, tsq)
        addd("EllCalc.calc_single_or_parallel_q, far slab", e.calc_single_or_parallel_q, (b0, 2 * tau), tsq)
        if b0 >= 0:
            addd("EllCalc.calc_bias_cut", e.calc_bias_cut, b0, tsq)
            addd("EllCalc.calc_single_or_parallel", e.calc_single_or_parallel, [b0], tsq)
            addd("EllCalc.calc_single_or_parallel, far slab", e.calc_single_or_parallel, [b0, 1.1 * tau], tsq)
    else:
        b0b1 = b0 * b1
        eta = tsq + n * b0b1
        add("calc_parallel_bias_cut", c.calc_parallel_bias_cut, b0, b1, tsq)
        add("calc_parallel_bias_cut_fast", c.calc_parallel_bias_cut_fast, b0, b1, tsq, b0b1, eta)
        if abs(b0 + b1) >= 0.02 * tau:
            add("calc_parallel_bias_cut_fast2", c.calc_parallel_bias_cut_fast2, b0, b1, tsq, b0b1, eta)
            add("calc_parallel_bias_cut_old", c.calc_parallel_bias_cut_old, b0, b1, tsq)
        if True:
            add("calc_parallel_bias_cut_fast_old", c.calc_parallel_bias_cut_fast_old, b0, b1, tsq, b0b1, eta)
        addd("EllCalc.calc_parallel", e.calc_parallel, b0, b1, tsq)
        addd("EllCalc.calc_parallel_q", e.calc_parallel_q, b0, b1, tsq)
        addd("EllCalc.calc_single_or_parallel", e.calc_single_or_parallel, (b0, b1), tsq)
        addd("EllCalc.calc_single_or_parallel_q", e.calc_single_or_parallel_q, [b0, b1], tsq)
        if b0 == 0:
            add("calc_parallel_central_cut", c.calc_parallel_central_cut, b1, tsq)
            if b1 >= 0.02 * tau:
                add("calc_parallel_central_cut_old", c.calc_parallel_central_cut_old, b1, tsq)
            addd("EllCalc central slab", e.calc_single_or_parallel_central_cut, [0.0, b1], tsq)
    return out


def record(n, b0, b1, tsq, rnd, kind):
    ans = []
    for name, ok, v in answers(n, b0, b1, tsq, rnd, kind):
        if ok:
            try:
                r, s, d = v
                ans.append(dict(f=name, err="", rho=hx(r), sigma=hx(s), delta=hx(d)))
                continue
            except Exception:
                v = "shape"
        ans.append(dict(f=name, err=str(v), rho="nan", sigma="nan", delta="nan"))
    return [dict(n=n, b0=hx(b0), b1="none" if b1 is None else hx(b1), tsq=hx(tsq), kind=kind, ans=ans)]


def runs(seed, count):
    rnd = random.Random(seed)
    out = []
    while len(out) < count:
        n = rnd.choice([2, 3, 4, 5, 6, 7, 8, 10, 16, 33, 100, 1000])
        tsq = 10.0 ** rnd.uniform(-14, 14)
        tau = math.sqrt(tsq)
        kind = rnd.choice(["central", "bias", "bias", "par", "par", "par", "par0"])
        if kind == "central":
            out.append(record(n, 0.0, None, tsq, rnd, kind))
        elif kind == "bias":
            b0 = tau * rnd.choice([rnd.uniform(-0.98 / n, 0.99), 0.0, 1e-9, 0.5, 0.97])
            out.append(record(n, b0, None, tsq, rnd, "cut"))
        else:
            b0 = 0.0 if kind == "par0" else tau * rnd.choice([rnd.uniform(-0.95, 0.95), rnd.uniform(0, 0.95), 0.1])
            b1 = tau * rnd.choice([rnd.uniform(-0.98, 0.98), rnd.uniform(0, 0.98), 0.02, 0.5])
            if b1 - b0 < 0.01 * tau or tsq + n * b0 * b1 < 1e-3 * tsq:
                continue
            if rnd.random() < 0.1 and tsq > 100:
                b0, b1, tsq = int(b0), int(b1), int(tsq)
                if b1 - b0 < 0.01 * tau or tsq + n * b0 * b1 < 1e-3 * tsq:
                    continue
            out.append(record(n, b0, b1, tsq, rnd, "cut"))
    return out


def check(b, seed):
    """One case of CutCalcGen: every formulation gives the coefficients the specification computed."""
    rnd = random.Random(seed)
    fr = lambda s: float(Fraction(s))
    n, b0, b1, tsq = b["n"], fr(b["b0"]), None if b["b1"] == "none" else fr(b["b1"]), fr(b["tsq"])
    want = [fr(b[k]) for k in ("rho", "sigma", "delta")]
    tau = math.sqrt(tsq)
    kinds = ["cut"] + (["central"] if b1 is None and b0 == 0 else [])
    for kind in kinds:
        for name, ok, v in answers(n, b0, b1, tsq, rnd, kind):
            if not ok:
                return f"{name} raised {v}"
            for x, w, s in zip(v, want, (tau, 1.0, max(1.0, want[2]))):
                if not abs(x - w) <= 1e-8 * s:
                    return f"{name} gives {tuple(v)} instead of {want}"
    return None


if __name__ == "__main__":
    if sys.argv[2] == "grid":
        fails, n = [], 0
        with open(sys.argv[3]) as f:
            for line in f:
                b = json.loads(line)
                n += 1
                e = check(b, n)
                if e:
                    fails.append((b, e))
                    if len(fails) > 20:
                        break
        emit(dict(count=n, fails=fails))
    else:
        emit(runs(int(sys.argv[3]), int(sys.argv[4])))
