"""Assessment histories of the real profit oracles.

script FILE SEED   histories of ProfitModel.tla, realised with concrete numbers
random SEED N KIND random problems, points and histories
"""
import itertools, json, math, random, sys
import numpy as np
from hcommon import attempt, emit, hx, hv
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle, ProfitQOracle

TAG = dict(plain="C18 ", robust="C19 ", discrete="C20 ")


class Problem:
    def __init__(self, rnd, kind):
        self.kind = kind
        a1 = rnd.uniform(0.05, 0.6)
        a2 = rnd.uniform(0.05, min(0.6, 0.93 - a1))
        y1, y2 = (math.exp(rnd.uniform(*((0.5, 4) if kind == "discrete" else (-1.5, 4)))) for _ in range(2))
        v1 = math.exp(rnd.uniform(-1, 3.5))
        v2 = a2 / a1 * v1 * y1 / y2
        pA = v1 * y1 / (a1 * y1 ** a1 * y2 ** a2)
        self.p = math.exp(rnd.uniform(-1, 4))
        self.A = pA / self.p
        self.a, self.v = np.array([a1, a2]), np.array([v1, v2])
        self.k = y1 * math.exp(rnd.uniform(-0.8, 1.0))
        if kind == "discrete":
            self.k = max(1, math.floor(self.k)) + rnd.choice([0.0, 0.7, 0.7, 0.3])
        self.e = [0.0] * 5
        if kind == "robust":
            f = rnd.choice([0.02, 0.1, 0.3])
            self.e = [a1 * f * rnd.random(), a2 * f * rnd.random(), self.p * f * rnd.random(), self.k * f * rnd.random(), min(v1, v2) * f * rnd.random()]
            if rnd.random() < 0.12:         # an elasticity that may even be negative
                i = rnd.randrange(2)
                self.e[i] = 1.2 * self.a[i]
            if rnd.random() < 0.3:
                self.e[rnd.randrange(5)] = 0.0
            if rnd.random() < 0.35:
                self.e[0] = self.e[1] = min(self.e[:2])
            if rnd.random() < 0.2:
                self.e[4] = self.e[2] = min(self.e[2], self.e[4])
            while a1 + a2 + self.e[0] + self.e[1] >= 0.97:
                self.e[0] /= 2
                self.e[1] /= 2
        # a good plan
        x = np.array([math.log(y1), math.log(y2)])
        lk = math.log(self.k - self.e[3])
        best = None
        for t in np.linspace(-3, 3, 61):
            for u in np.linspace(-3, 3, 61):
                z = np.array([min(x[0] + t, lk - 1e-9), x[1] + u])
                w = self.worst(z)
                if best is None or w > best[0]:
                    best = (w, z)
        self.best = best

    def profit(self, x, a=None, p=None, v=None):
        a = self.a if a is None else a
        v = self.v if v is None else v
        p = self.p if p is None else p
        return p * self.A * math.exp(a @ x) - v @ np.exp(x)

    def worst(self, x):
        e = self.e
        a = np.array([self.a[i] + (-e[i] if x[i] > 0 else e[i]) for i in range(2)])
        return self.profit(x, a, self.p - e[2], self.v + e[4])

    def event(self):
        return dict(ev="new", tag=TAG[self.kind], q=dict(p=hx(self.p), A=hx(self.A), k=hx(self.k), a=hv(self.a), v=hv(self.v)), e=hv(self.e))

    def better(self, gam, g, x, rnd):
        """Proposed plans at least as good as gam; those the cut g is most likely to remove."""
        w0, x0 = self.best
        lk = math.log(self.k - self.e[3])
        ok = lambda z: z[0] <= lk and self.worst(z) >= gam
        if not (w0 >= gam) or len(g) != 2:
            return []
        pts = [x0]
        for t in range(20):
            d = np.array([math.cos(t * math.pi / 10), math.sin(t * math.pi / 10)])
            lo, hi = 0.0, 12.0
            for _ in range(40):
                m = (lo + hi) / 2
                lo, hi = (m, hi) if ok(x0 + m * d) else (lo, m)
            pts.append(x0 + lo * (1 - 1e-7) * d)
        gg = np.array(g, dtype=float)
        pts.sort(key=lambda z: -gg @ z)
        return pts[:3] + rnd.sample(pts, 1)


def oracle(P):
    a, v = P.a.copy(), P.v.copy()
    if P.kind == "plain":
        o = ProfitOracle((P.p, P.A, P.k), a, v)
    elif P.kind == "robust":
        o = ProfitRbOracle((P.p, P.A, P.k), a, v, tuple(P.e))
    else:
        o = ProfitQOracle((P.p, P.A, P.k), a, v)
    return o, lambda: bool(np.array_equal(a, P.a) and np.array_equal(v, P.v))


def ask(P, o, x, gam, retry, rnd):
    if P.kind == "plain" and rnd.random() < 0.25:
        ok, r = attempt(o.assess_feas, x.copy(), gam)
        e = dict(ev="feas", x=hv(x), gamma=hx(gam), err="" if ok else str(r), none=True, g=[], b="nan", ys=[])
        if ok and r is not None:
            try:
                g, b = r
                e.update(none=False, g=hv(g), b=hx(b), ys=[hv(y) for y in P.better(gam, g, x, rnd)])
            except Exception:
                e["err"] = "shape"
        return e
    f = dict(plain=lambda: o.assess_optim(x.copy(), gam), robust=lambda: o.assess_optim(x.copy(), gam),
             discrete=lambda: o.assess_optim_q(x.copy(), gam, retry))[P.kind]
    ok, r = attempt(f)
    e = dict(ev=P.kind, x=hv(x), gamma=hx(gam), err="" if ok else str(r), val="none", g=["nan"] * 2, b="nan", ys=[])
    if P.kind == "discrete":
        e.update(retry=bool(retry), at=["nan"] * 2, plan=["0", "0"], more=False)
    if not ok:
        return e
    try:
        if P.kind == "discrete":
            (g, b), at, val, more = r
            at = np.array(at, dtype=float)
            e.update(at=hv(at), more=bool(more), plan=[hx(float(round(math.exp(t)))) if t < 30 else "0" for t in at])
        else:
            (g, b), val = r
        e.update(g=hv(g), b=hx(b), val="none" if val is None else hx(val))
        if P.kind != "discrete":
            e["ys"] = [hv(y) for y in P.better(gam if val is None else val, g, x, rnd)]
    except Exception:
        e["err"] = "shape"
    return e


def point(P, c, rnd, tries=150):
    """A point and value of the class c (as far as the problem has one)."""
    bad, pbad, r = set(c["bad"]), set(c["pbad"]), c["r"]
    lk = math.log(P.k - P.e[3])
    w0, x0 = P.best
    x, gam = x0, 0.0
    for _ in range(tries):
        s = rnd.choice([0.1, 0.5, 1.2])
        x = x0 + np.array([rnd.gauss(0, s), rnd.gauss(0, s)])
        if P.kind == "discrete":
            y = np.maximum(np.floor(np.exp(x)), 0.0 if rnd.random() < 0.3 else 1.0)
            if r == "up":
                y = y + [rnd.uniform(0.52, 0.98), rnd.uniform(0.52, 0.98)]
            elif r == "down":
                y = np.maximum(y, 1) + [rnd.uniform(0.02, 0.48), rnd.uniform(0.02, 0.48)]
            elif r == "toOne":
                y = y + rnd.uniform(0.02, 0.98)
                y[rnd.randrange(2)] = rnd.uniform(0.05, 0.48)
            else:
                y = y + [rnd.uniform(0.52, 0.98), rnd.uniform(0.02, 0.48)]
            if 1 in pbad and P.k % 1 > 0.5:
                y[0] = math.floor(P.k) + rnd.uniform(0.51, P.k % 1 - 0.005)
            x = np.log(np.maximum(y, 0.01))
        if 1 in bad:
            x[0] = lk + abs(rnd.gauss(0, s)) + 1e-3
        elif x[0] >= lk:
            if P.kind == "discrete":
                continue
            x[0] = lk - abs(rnd.gauss(0, s)) - 1e-3
        w = P.worst(x)
        if 2 in bad:
            gam = max(w, 0.0) + max(1e-6 * abs(w0), rnd.choice([0.01, 0.3, 1.0]) * (abs(w0) - max(w, 0.0)))
            if rnd.random() < 0.8 and gam > w0 and w0 > max(w, 0.0):
                gam = rnd.uniform(max(w, 0.0), w0)
        else:
            if w <= 0:
                continue
            gam = rnd.choice([0.0, rnd.uniform(0, w), 0.999 * w])
        if P.kind == "discrete" and not bad:
            d = np.log(np.maximum(np.round(np.exp(x)), 1.0))
            pd = P.profit(d)
            if (1 in pbad) != (d[0] > math.log(P.k)):
                continue
            if 2 in pbad:
                if pd >= w:
                    continue
                gam = rnd.uniform(max(pd, 0.0), w)
            elif pd <= 0:
                continue
            else:
                gam = min(gam, 0.999 * pd)
        break
    return x, float(gam)


def history(P, classes, rnd):
    o, same = oracle(P)
    out = [P.event()]
    for c in classes:
        x, gam = point(P, c, rnd)
        out.append(ask(P, o, x, gam, c["retry"], rnd))
    out.append(dict(ev="end", same=same()))
    return out


def script(path, seed):
    rnd = random.Random(seed)
    return [history(Problem(rnd, b["kind"]), b["h"], rnd) for b in map(json.loads, open(path))]


def runs(seed, count, kind):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        P = Problem(rnd, kind)
        cs = []
        for i in range(rnd.randint(3, 8)):
            cs.append(dict(bad=rnd.choice([[], [], [], [1], [2], [1, 2]]), pbad=rnd.choice([[], [], [1], [2]]),
                           r=rnd.choice(["up", "down", "toOne", "mixed"]), retry=kind == "discrete" and i > 0 and rnd.random() < 0.35))
        out.append(history(P, cs, rnd))
    return out


if __name__ == "__main__":
    emit(script(sys.argv[3], int(sys.argv[4])) if sys.argv[2] == "script" else runs(int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]))
