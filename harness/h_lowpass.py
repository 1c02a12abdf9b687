"""Assessment histories of the real lowpass oracle.

script FILE SEED   histories of LowpassModel.tla, realised by filters violating exactly the stated constraint
random SEED N      random specifications, filters and histories
"""
import json, math, random, sys
import numpy as np
from hcommon import attempt, emit, hx, hv
from ellalgo.oracles.lowpass_oracle import LowpassOracle, create_lowpass_case


def ask(orc, op, x, gamma):
    if op == "optim":
        ok, r = attempt(orc.assess_optim, x.copy(), gamma)
    else:
        ok, r = attempt(orc.assess_feas, x.copy())
    return describe(op, x, gamma, ok, r)


def describe(op, x, gamma, ok, r):
    e = dict(ev="assess", op=op, x=hv(x), gamma=hx(gamma), err="" if ok else str(r), none=False, val="none", g=[], b=[])
    if not ok:
        return e
    try:
        if op == "optim":
            cut, val = r
            e["val"] = "none" if val is None else hx(val)
        else:
            cut = r
        if cut is None:
            e["none"] = True
            if op == "optim":
                e["err"] = "nocut"
        else:
            g, b = cut
            e["g"] = hv(g)
            e["b"] = [hx(t) for t in b] if isinstance(b, (tuple, list, np.ndarray)) else [hx(b)]
    except Exception as x:
        e["err"] = "shape"
    return e


def new(n, wpass, wstop, lp, up, sp):
    return dict(ev="new", n=n, wpass=hx(wpass), wstop=hx(wstop), lp=hx(lp), up=hx(up), sp=hx(sp))


def rows(n):
    m = 15 * n
    w = np.linspace(0, np.pi, m)
    return np.concatenate([np.ones((m, 1)), 2 * np.cos(np.outer(w, np.arange(1, n)))], axis=1)


def spike(n, k, sign):
    """A filter whose response has its single extreme (sign) on the grid at index k."""
    c = math.cos(math.pi * k / (15 * n - 1))
    x = np.zeros(n)
    x[:3] = [-0.5 - c * c, c, -0.25]
    return sign * x


def realise(case, n, np_, ns, lp, up, rnd):
    """(filter, bound) violating exactly the stated constraint of the specification, or none."""
    S = rows(n)
    m = len(S)
    band = dict(passup=range(np_), passlow=range(np_), stopup=range(ns, m), stoplow=range(ns, m), translow=range(np_, ns))
    t, k = case["t"], case["k"]
    if t == "none":
        x = spike(n, rnd.randrange(m), rnd.choice([1, -1])) * 1e-3 * (up - lp)
        x[0] += (lp + up) / 2
        return x, 2 * up
    sign = 1 if t.endswith("up") else -1
    x0 = spike(n, k, sign)
    r = S @ x0
    idx = [i for i in range(m) if i != k]
    # response at k beyond its limit, everywhere else inside
    if t == "stopup":
        second = max([r[i] for i in band[t] if i != k] or [r[k] - 0.5])
        a = (up - lp) / (r.max() - r.min()) * 0.9
        x = a * x0
        x[0] += lp + 0.05 * (up - lp) - (S @ x).min()
        r = S @ x
        second = max([r[i] for i in band[t] if i != k] or [r[k] - 0.1 * (up - lp)])
        return x, (r[k] + second) / 2
    limit = dict(passup=up, passlow=lp, stoplow=0.0, translow=0.0)[t]
    others = [r[i] * sign for i in (band[t] if t.startswith("pass") else range(m)) if i != k]
    second = max(others) if others else r[k] * sign - 0.5
    gap = r[k] * sign - second
    # everything else must fit: passband range up-lp, nothing negative
    if t in ("passup", "passlow"):
        a = 0.9 * (up - lp) / (r.max() - r.min())
        x = a * x0
        x[0] += limit - sign * a * (r[k] * sign - gap / 2)
        R = S @ x
        return x, max(2 * up, 2 * R.max())
    # negative only at k; the passband must stay within its limits: shrink so that the rest is close to the band
    a = 1.0
    x = a * x0
    x[0] += -sign * a * (r[k] * sign - gap / 2)
    R = S @ x
    lo_, hi_ = R[list(range(np_))].min(), R[list(range(np_))].max()
    return x, 2 * R.max(), lo_, hi_


def script(path, seed):
    rnd = random.Random(seed)
    out = []
    n = 3
    for line in open(path):
        b = json.loads(line)
        m, np_, ns = b["m"], b["np"], b["ns"]
        assert m == 15 * n
        wpass, wstop = (np_ - 1 + 0.5) / (m - 1), (ns - 1 + 0.5) / (m - 1)
        lp, up = 1.0, 2.0
        items = []
        # negative-response cases need passband limits wide enough for their filter
        real = [realise(c, n, np_, ns, lp, up, rnd) for c in b["h"]]
        wide = [q for q in real if len(q) == 4]
        if wide:
            lp, up = min(q[2] for q in wide) - 0.01, max(q[3] for q in wide) + 0.01
            real = [q if len(q) == 4 else realise(c, n, np_, ns, lp, up, rnd) for q, c in zip(real, b["h"])]
        sp = max(q[1] for q in real)
        orc = LowpassOracle(n, wpass, wstop, lp, up, sp)
        ev = [new(n, wpass, wstop, lp, up, sp)]
        for c, q in zip(b["h"], real):
            op = "optim" if c["t"] == "stopup" or rnd.random() < 0.6 else "feas"
            ev.append(dict(ask(orc, op, q[0], q[1]), want=c["t"]))
        out.append(ev)
    return out


def runs(seed, count):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        n = rnd.choice([1, 2, 3, 4, 5, 6, 8])
        m = 15 * n
        while True:
            wpass = rnd.choice([rnd.uniform(0, 0.6), 0.12, 0.0, 0.25])
            wstop = rnd.choice([wpass, rnd.uniform(wpass, 0.98), 0.2, 0.5])
            if wpass <= wstop and floorok(wpass, m) and floorok(wstop, m) and math.floor(wstop * (m - 1)) + 1 < m:
                break
        std = rnd.random() < 0.15
        if std:
            orc = create_lowpass_case(n)
            wpass, wstop = 0.12, 0.20
            if not (floorok(wpass, m) and floorok(wstop, m)):
                continue
            d = 1.025
            lp, up, sp = (10 ** (-20 * np.log10(d) / 20)) ** 2, (10 ** (20 * np.log10(d) / 20)) ** 2, (10 ** (20 * np.log10(0.125) / 20)) ** 2
        else:
            lp = rnd.choice([0.9, 0.95, rnd.uniform(0.1, 1)])
            up = lp + rnd.choice([0.1, 0.3, 1.0])
            sp = rnd.choice([0.05, 0.2, 1.0])
            orc = LowpassOracle(n, wpass, wstop, lp, up, sp)
        ev = [new(n, wpass, wstop, lp, up, sp)]
        S = rows(n)
        for _ in range(rnd.randint(2, 7)):
            x = np.array([rnd.gauss(0, 0.3) for _ in range(n)]) * rnd.choice([0.0, 0.1, 0.3, 1.0])
            x[0] += rnd.choice([1.0, (lp + up) / 2, lp, 0.3, 0.0])
            if rnd.random() < 0.5:      # an autocorrelation: response never negative
                hh = np.array([rnd.gauss(0, 0.3) for _ in range(n)]) + 1.0 / n
                x = np.array([hh[: n - j].dot(hh[j:]) for j in range(n)])
                if rnd.random() < 0.7:
                    x /= max(1e-9, (S @ x)[: math.floor(wpass * (m - 1)) + 1].mean())
            r = S @ x
            ns = math.floor(wstop * (m - 1)) + 1
            gamma = rnd.choice([sp, r[ns:].max() * rnd.choice([0.9, 1.1]), abs(rnd.gauss(0, 1)), 10.0])
            ev.append(dict(ask(orc, rnd.choice(["optim", "optim", "feas"]), x, float(gamma)), want="any"))
        out.append(ev)
    return out


def designs(seed, count):
    """Complete filter designs by the real optimisation loop; some of the questions and answers on the way."""
    from ellalgo.cutting_plane import cutting_plane_optim
    from ellalgo.ell import Ell
    from ellalgo.ell_config import Options
    rnd = random.Random(seed)
    out = []
    for k in range(count):
        n = [32, 20, 12, 48][(seed + k) % 4]
        orc = create_lowpass_case(n) if n != 48 else create_lowpass_case()
        lp, up, sp = (10 ** (-20 * np.log10(1.025) / 20)) ** 2, (10 ** (20 * np.log10(1.025) / 20)) ** 2, (10 ** (20 * np.log10(0.125) / 20)) ** 2
        yes, no = [], []

        class Ask:
            def assess_optim(self, x, gamma):
                ok, r = attempt(orc.assess_optim, x, gamma)
                e = describe("optim", x, float(gamma), ok, r)
                (yes if e["val"] != "none" else no).append(dict(e, want="any"))
                if e["err"]:
                    raise RuntimeError
                return r
        o = Options()
        o.max_iters = 60 * n
        x0 = np.zeros(n)
        x0[0] = rnd.choice([0.0, 0.25, 1.0])
        attempt(cutting_plane_optim, Ask(), Ell(rnd.choice([4.0, 40.0]), x0), sp, o)
        ev = sorted(rnd.sample(range(len(no)), min(len(no), 9)))
        ev = [no[i] for i in ev] + yes[:2] + yes[-4:]
        out.append([new(n, 0.12, 0.20, lp, up, sp)] + ev)
    return out


def floorok(w, m):
    f = (w * (m - 1)) % 1.0
    return w == 0.0 or 1e-6 < f < 1 - 1e-6


if __name__ == "__main__":
    emit(script(sys.argv[3], int(sys.argv[4])) if sys.argv[2] == "script" else {"random": runs, "design": designs}[sys.argv[2]](int(sys.argv[3]), int(sys.argv[4])))
