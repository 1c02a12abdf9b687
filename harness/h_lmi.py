"""Assessment histories of the real matrix-inequality oracles.

script FILE SEED   problems and histories written by LMIModel.tla
random SEED N      random larger problems
"""
import json, random, sys
import numpy as np
from hcommon import attempt, emit, hx, hv, hm
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi0_oracle import LMI0Oracle


def ask(name, orc, x):
    ok, r = attempt(orc.assess_feas, x)
    e = dict(f=name, err="" if ok else str(r), none=True, g=[], ep="nan", a=0, b=0, v=[])
    if ok and r is not None:
        try:
            g, ep = r
            e.update(none=False, g=hv(g), ep=hx(ep))
        except Exception:
            e["err"] = "shape"
        try:
            m = orc.ldlt_mgr
            a, b = (int(t) for t in m.pos)
            v = np.asarray(m.wit, dtype=float)
            if 0 <= a < b <= len(v):
                e.update(a=a, b=b, v=hv(v))
        except Exception:
            pass
    return e


def run(hom, B, F, xs, rnd, exact, ys):
    F = [np.array(f, dtype=float) for f in F]
    B = np.array(B, dtype=float)
    isint = all(np.all(f == np.round(f)) for f in F + [B]) and max(np.abs(f).max() for f in F + [B]) < 1e6
    cast = (lambda M: M.astype(int)) if isint and rnd.random() < 0.4 else (lambda M: M.copy())
    mk = lambda: [cast(f) for f in F]
    if hom:
        orcs = [("homogeneous oracle", LMI0Oracle(mk()))]
    else:
        orcs = [("lazy oracle", LMIOracle(mk(), cast(B))), ("explicit oracle", LMIOldOracle(mk(), cast(B)))]
    out = [dict(ev="new", hom=bool(hom), B=hm(B), F=[hm(f) for f in F], exact=bool(exact), ys=[hv(y) for y in ys])]
    warm = None
    for x in xs:
        # sometimes only one of the two oracles has seen the earlier points
        if len(orcs) == 2 and rnd.random() < 0.3:
            i = rnd.randrange(2)
            attempt(orcs[i][1].assess_feas, np.array([rnd.uniform(-2, 2) for _ in F]))
        x = np.array(x, dtype=float)
        ans = [ask(n, o, x.copy()) for n, o in orcs]
        out.append(dict(ev="assess", x=hv(x), ans=ans))
    return out


def script(path, seed):
    rnd = random.Random(seed)
    out = []
    for line in open(path):
        b = json.loads(line)
        sc = rnd.choice([1.0, 1.0, 1.0, 0.5, 2.0 ** -20, 2.0 ** 15])
        ys = [np.array([i, j], dtype=float) / 2 for i in range(-4, 5) for j in range(-4, 5) if rnd.random() < 0.4]
        if rnd.random() < 0.2:          # congruence by powers of two: entries of very different size, arithmetic stays exact
            d = np.array([2.0 ** rnd.choice([0, 0, 5, -5, 20, -20]) for _ in b["B"]])
            sc = sc * np.outer(d, d)
        B, F = np.array(b["B"]) * sc, [np.array(f) * sc for f in b["F"]]
        xs = [np.array(x) * rnd.choice([1.0, 1.0, 0.5, 0.25]) for x in b["x"]]
        out.append(run(b["hom"], B, F, xs, rnd, True, ys))
    return out


def sym(rnd, n, s=1.0):
    A = np.array([[rnd.gauss(0, s) for _ in range(n)] for _ in range(n)])
    return (A + A.T) / 2


def runs(seed, count):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        n, d = rnd.choice([1, 2, 3, 4, 5, 6, 9]), rnd.choice([1, 2, 3, 4, 5, 7, 12])
        if rnd.random() < 0.03:
            n, d = rnd.choice([(14, 5), (3, 20), (12, 12)])
        hom = rnd.random() < 0.35
        F = [sym(rnd, n) for _ in range(d)]
        B = sym(rnd, n, 0.6) + np.eye(n) * rnd.uniform(0, 3)
        if hom:
            F[rnd.randrange(d)] += np.eye(n) * rnd.uniform(0.5, 3)
        sc = 10.0 ** rnd.choice([0, 0, 0, -6, 5])
        F, B = [f * sc for f in F], B * sc
        pts = [np.array([rnd.gauss(0, rnd.choice([0.2, 1, 3]) / (1 if d < 6 else 3)) for _ in range(d)]) for _ in range(rnd.randint(2, 6))]
        ys = [np.array([rnd.gauss(0, rnd.choice([0.2, 0.7, 1.5]) / (1 if d < 6 else 3)) for _ in range(d)]) for _ in range(25)]
        out.append(run(hom, B, F, pts, rnd, False, ys))
    return out


if __name__ == "__main__":
    emit(script(sys.argv[3], int(sys.argv[4])) if sys.argv[2] == "script" else runs(int(sys.argv[3]), int(sys.argv[4])))
