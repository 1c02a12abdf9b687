"""Complete problems solved by the real code.

script FILE SEED   problems written by E2EModel.tla (2 or 3 variables)
random SEED N      larger polyhedra with certificates
"""
import json, random, sys
import numpy as np
from hcommon import attempt, emit, hx, hv
from ellalgo.cutting_plane import BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
from ellalgo.ell_config import Options


class Poly:
    """Exact oracle of {A x <= b}; how: first, worst, cycle, central, slab."""

    def __init__(self, A, b, c, how, rnd):
        self.A, self.b, self.c, self.how, self.gamma = A, b, c, how, None
        self.i = 0
        self.opp = {}
        self.ask = 0
        for i in range(len(b)):
            for j in range(len(b)):
                if np.array_equal(A[i], -A[j]):
                    self.opp[i] = j

    def violated(self, x):
        rows = list(range(len(self.b)))
        v = self.A @ x - self.b
        if self.how == "worst":
            rows.sort(key=lambda i: -v[i])
        if self.how == "cycle":
            k = self.i % len(rows)
            rows = rows[k:] + rows[:k]
        for i in rows:
            if v[i] > 0:
                self.i = i + 1
                if self.how == "central":
                    return self.A[i].copy(), 0.0
                if self.how == "slab" and i in self.opp:
                    j = self.opp[i]   # A[j] = -A[i]:  A[i] x >= -b[j]
                    return self.A[i].copy(), np.array([v[i], self.A[i] @ x + self.b[j]])
                return self.A[i].copy(), float(v[i])
        return None

    def update(self, gamma):
        self.gamma = gamma

    def assess_feas(self, x):
        self.ask += 1
        cut = self.violated(x)
        if cut is None and self.gamma is not None:
            f = self.c @ x - self.gamma
            if f > 0:
                return self.c.copy(), float(f)
        return cut

    def assess_optim(self, x, gamma):
        self.ask += 1
        cut = self.violated(x)
        if cut is not None:
            return cut, None
        f = float(self.c @ x)
        if f < gamma:
            return (self.c.copy(), 0.0), f
        return (self.c.copy(), 0.0 if self.how == "central" else f - gamma), None


class WithEquation:
    def __init__(self, poly, a, d):
        self.poly, self.a, self.d = poly, a, d

    def assess_feas(self, x):
        f = float(self.a @ x) - self.d
        if abs(f) > 1e-9 * (1 + abs(self.d)):
            return (self.a.copy(), np.array([f, f])) if f > 0 else (-self.a, np.array([-f, -f]))
        return self.poly.assess_feas(x)


def space(cls, x0, diag, rnd, nd, par):
    if len(set(diag)) == 1 and rnd.random() < 0.6:
        v = float(diag[0]) if rnd.random() < 0.5 else int(diag[0])
    else:
        v = np.array(diag, dtype=float)
    s = cls(v, np.array(x0, dtype=float))
    s.no_defer_trick = nd
    s.helper.use_parallel_cut = par
    return s


def options(n, tol):
    o = Options()
    o.max_iters, o.tolerance = n, tol
    return o


def point(x):
    return [] if x is None else hv(x)


def runs(P, rnd, many):
    A = np.array([r["a"] for r in P["rows"]], dtype=float)
    b = np.array([r["b"] for r in P["rows"]], dtype=float)
    c = np.array(P["c"], dtype=float)
    out = [dict(ev="problem", n=len(c), **{k: P[k] for k in ("rows", "c", "x0", "diag")},
                kind=P.get("kind", "plain"), ball=P.get("ball", []), lam=P.get("lam", []), best=P.get("best", []))]
    combos = [(cls, nd, par, how) for cls in (Ell, EllStable) for nd in (False, True) for par in (True, False)
              for how in ("first", "worst", "cycle", "central", "slab")]
    n = len(c)
    for cls, nd, par, how in rnd.sample(combos, many):
        tag = f"{cls.__name__} nd={int(nd)} par={int(par)} {how}"
        # feasibility
        N = rnd.choice([2000, 2000, 400, 40 * n, rnd.randint(1, 30)])
        tol = rnd.choice([1e-20, 1e-20, 1e-12, 1e-8])
        s = space(cls, P["x0"], P["diag"], rnd, nd, par)
        om = Poly(A, b, c, how, rnd)
        default = N == 2000 and tol == 1e-20 and rnd.random() < 0.7
        ok, v = attempt(cutting_plane_feas, om, s, *([] if default else [options(N, tol)]), seconds=20)
        e = dict(ev="feas", tag=tag, N=N, tol=hx(tol), err="" if ok else str(v), x=[], k=0)
        if ok:
            e["x"], e["k"] = point(v[0]), int(v[1])
        out.append(e)
        # optimisation
        if np.any(c):
            N = rnd.choice([2000, 300, 100 * n, 20 * n])
            tol = rnd.choice([1e-20, 1e-14, 1e-10, 1e-6])
            s = space(cls, P["x0"], P["diag"], rnd, nd, par)
            om = Poly(A, b, c, how, rnd)
            start = float("inf") if rnd.random() < 0.6 else 1e6
            default = N == 2000 and tol == 1e-20
            ok, v = attempt(cutting_plane_optim, om, s, start, *([] if default else [options(N, tol)]), seconds=20)
            e = dict(ev="optim", tag=tag, N=N, tol=hx(tol), start=hx(start), err="" if ok else str(v), x=[], val="nan", k=0)
            if ok:
                e["x"], e["val"], e["k"] = point(v[0]), hx(v[1]), int(v[2])
            out.append(e)
    if P.get("kind") == "cert":       # with an equation through the centre of the ball, as a slab of no width
        y = np.array([float(t) for t in P["ball"]])
        a = np.array([float(rnd.randint(-2, 2)) for _ in range(n)])
        a[rnd.randrange(n)] = 1.0
        for cls, nd, _, how in rnd.sample(combos, 2):
            s = space(cls, P["x0"], P["diag"], rnd, nd, True)
            om = WithEquation(Poly(A, b, c, "first" if how == "central" else how, rnd), a, float(a @ y))
            ok, v = attempt(cutting_plane_feas, om, s, options(4000, 1e-20), seconds=20)
            e = dict(ev="eq", tag=f"{cls.__name__} nd={int(nd)} {how}", a=hv(a), d=hx(float(a @ y)), N=4000, tol=hx(1e-20), err="" if ok else str(v), x=[], k=0)
            if ok:
                e["x"], e["k"] = point(v[0]), int(v[1])
            out.append(e)
    if np.any(c):      # the same optimum by bisection on the value
        cls, nd, par, how = rnd.choice(combos)
        top = float(np.abs(c).sum() * max(abs(t) for t in b[: 2 * n]))
        N = 300 * n
        s = space(cls, P["x0"], P["diag"], rnd, nd, par)
        om = Poly(A, b, c, how, rnd)
        bt = rnd.choice([1e-2, 1e-4])
        ad = BSearchAdaptor(om, s, options(N, 1e-20))
        ok, v = attempt(bsearch, ad, (-top - 1.0, top + 1.0), options(60, bt), seconds=30)
        e = dict(ev="bs", tag=f"{cls.__name__} nd={int(nd)} par={int(par)} {how}", N=N, lo=hx(-top - 1.0), hi=hx(top + 1.0), tol=hx(bt),
                 err="" if ok else str(v), val="nan", x=[])
        if ok:
            e["val"], e["x"] = hx(v[0]), point(ad.x_best)
        out.append(e)
    return out


def drawn(rnd):
    """A polyhedron with a certificate: an inner ball and an optimum (KKT), or Farkas multipliers."""
    n = rnd.choice([2, 3, 4, 5, 6, 8])
    B = rnd.choice([1, 4, 16])
    rows = []
    for i in range(n):
        e = [0] * n
        e[i] = 1
        rows.append(dict(a=list(e), b=B))
        e[i] = -1
        rows.append(dict(a=list(e), b=B))
    vec = lambda m: [rnd.randint(-m, m) for _ in range(n)]
    diag = rnd.choice([[4 * n * B * B] * n, [rnd.randint(4, 9) * n * B * B for _ in range(n)]])
    x0 = [rnd.choice([0, 0, rnd.randint(-B, B) / 4]) for _ in range(n)]
    if rnd.random() < 0.25:      # infeasible: a'x <= s and -a'x <= t with s + t < 0, perhaps through a combination
        a, d = vec(3), vec(3)
        a[rnd.randrange(n)] = 2
        d[rnd.randrange(n)] = -1
        s = rnd.randint(-3, 3)
        gap = rnd.choice([1, 2, 1 / 64, 1 / 1024])
        if rnd.random() < 0.5:
            extra, lam = [dict(a=a, b=s), dict(a=[-t for t in a], b=-s - gap)], [1, 1]
        else:
            both = [-(p + q) for p, q in zip(a, d)]
            extra, lam = [dict(a=a, b=s), dict(a=d, b=1), dict(a=both, b=-s - 1 - gap)], [1, 1, 1]
        pos = rnd.randint(0, len(rows))
        rows[pos:pos] = extra
        full = [0] * len(rows)
        full[pos:pos + len(lam)] = lam
        rows = [dict(a=r["a"], b=hx(float(r["b"]))) for r in rows]
        P = dict(rows=rows, c=vec(2), x0=[hx(float(t)) for t in x0], diag=diag, kind="farkas", lam=full)
        return P
    y = [rnd.randint(-B, B) / 2 for _ in range(n)]
    best = [rnd.choice([-B, B, 0, rnd.randint(-B, B)]) for _ in range(n)]
    lam = [0] * len(rows)
    c = [0] * n
    used = False
    for i in range(n):           # the box face at the optimum
        if abs(best[i]) == B and rnd.random() < 0.7:
            k = 2 * i + (0 if best[i] == B else 1)
            lam[k] = rnd.randint(1, 3)
            used = True
    for _ in range(rnd.randint(0, n)):
        a = vec(3)
        if not any(a):
            continue
        tight = sum(p * q for p, q in zip(a, best))
        inner = sum(p * q for p, q in zip(a, y))
        if inner < tight:
            rows.append(dict(a=a, b=tight))
            lam.append(rnd.choice([0, 1, 2]))
            used = used or lam[-1] > 0
        else:
            rows.append(dict(a=a, b=inner + rnd.choice([1, 1 / 8, 1 / 256])))
            lam.append(0)
            if sum(p * q for p, q in zip(a, best)) > rows[-1]["b"]:
                rows.pop()
                lam.pop()
    for l, r in zip(lam, rows):
        c = [p - l * q for p, q in zip(c, r["a"])]
    rows = [dict(a=r["a"], b=hx(float(r["b"]))) for r in rows]
    return dict(rows=rows, c=c, x0=[hx(float(t)) for t in x0], diag=diag, kind="cert", lam=lam, ball=[hx(t) for t in y], best=best)


def plain(P):
    f = lambda t: float.fromhex(t) if isinstance(t, str) and "x" in t else float(t)
    if "ball" in P:
        P = dict(P, ball=[f(t) for t in P["ball"]])
    return dict(P, rows=[dict(a=r["a"], b=f(r["b"])) for r in P["rows"]], x0=[f(t) for t in P["x0"]])


def main():
    what = sys.argv[2]
    if what == "script":
        rnd = random.Random(int(sys.argv[4]))
        out = [runs(json.loads(l), rnd, 4) for l in open(sys.argv[3])]
    else:
        rnd = random.Random(int(sys.argv[3]))
        out = []
        for _ in range(int(sys.argv[4])):
            P = drawn(rnd)
            t = runs(plain(P), rnd, 4)
            t[0].update({k: P[k] for k in ("rows", "x0", "ball") if k in P})
            out.append(t)
    emit(out)


main()
