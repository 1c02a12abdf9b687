"""Calls of the real conjugate-gradient solver."""
import json, random, sys
import numpy as np
from hcommon import attempt, emit, hx, hv, hm
from ellalgo.conjugate_gradient import conjugate_gradient


def call(A, b, x0, tol, budget, rnd, spd, cond):
    A0, b0 = A.copy(), b.copy()
    kw = {}
    g = None
    if x0 is not None:
        g = x0.copy()
        kw["x0"] = g
    if tol is not None:
        kw["tol"] = tol
    if budget is not None:
        kw["max_iter"] = budget
    ok, r = attempt(conjugate_gradient, A, b, seconds=20, **kw)
    same = np.array_equal(A, A0) and np.array_equal(b, b0) and (g is None or np.array_equal(g, x0))
    e = dict(A=hm(A0), b=hv(b0), x0=hv(x0) if x0 is not None else ["0"] * len(b), tol=hx(1e-5 if tol is None else tol),
             budget=1000 if budget is None else budget, err="" if ok else str(r), x=["nan"] * len(b), same=bool(same),
             spd=bool(spd), cond=bool(cond), big=hx(float(np.abs(A0).sum(axis=1).max())))
    if ok:
        try:
            e["x"] = hv(r)
            if np.asarray(r).dtype == object:
                e["x"] = ["nan"] * len(b)
        except Exception:
            pass
    return [e]


def script(path, seed):
    rnd = random.Random(seed)
    out = []
    for line in open(path):
        c = json.loads(line)
        ty = rnd.choice([float, float, int])
        A, b = np.array(c["A"], dtype=ty), np.array(c["b"], dtype=rnd.choice([ty, float]))
        x0 = np.array(c["x0"], dtype=rnd.choice([float, int]))
        if not x0.any() and rnd.random() < 0.5:
            x0 = None
        budget = rnd.choice([c["k"], c["k"], max(0, c["k"] - 1), len(b), None, 0])
        out.append(call(A, b, x0, rnd.choice([1e-7, 1e-5, None, 1e-3]), budget, rnd, True, True))
    return out


def runs(seed, count):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        n = rnd.choice([1, 2, 3, 4, 5, 6, 8, 12, 12, 25, 40] if rnd.random() > 0.03 else [70, 110])
        R = np.random.RandomState(rnd.randrange(2 ** 31))
        kind = rnd.choice(["spd", "spd", "spd", "spd", "indef", "sing", "ill"])
        Q, _ = np.linalg.qr(R.randn(n, n))
        lam = R.uniform(0.5, 5, n) if kind in ("spd",) else 10.0 ** R.uniform(-4, 3, n)
        if rnd.random() < 0.2:
            lam[:] = lam[0]
        if kind == "indef":
            lam[rnd.randrange(n)] *= -1
        if kind == "sing":
            lam[rnd.randrange(n)] = 0
        A = (Q * lam) @ Q.T
        A = (A + A.T) / 2
        sc = 10.0 ** rnd.choice([0, 0, 0, -3, 3])
        A = A * sc
        xt = R.randn(n)
        b = rnd.choice([A @ xt, A @ xt, R.randn(n) * sc, np.zeros(n)])
        x0 = rnd.choice([None, None, R.randn(n), xt, np.zeros(n), xt + 1e-9 * R.randn(n)])
        # tolerances relative to the size of the right-hand side
        base = max(np.linalg.norm(b), 1e-3)
        tol = rnd.choice([None, 1e-6 * base, 1e-3 * base, 0.3 * base, 1e-8 * base, 2 * base])
        budget = rnd.choice([None, n, n, n - 1, 1, 0, 2 * n + 5])
        out.append(call(A, b, x0, tol, budget, rnd, kind == "spd", kind == "spd" and (tol or 1e-5) > 1e-9 * base))
    return out


if __name__ == "__main__":
    emit(script(sys.argv[3], int(sys.argv[4])) if sys.argv[2] == "script" else runs(int(sys.argv[3]), int(sys.argv[4])))
