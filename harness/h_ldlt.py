"""Histories of factorisations on one real manager.

script FILE SEED   histories written by LDLTModel.tla
random SEED N      random matrices of larger order
"""
import json, random, sys
import numpy as np
from hcommon import attempt, emit, hx, hv, hm
from ellalgo.oracles.ldlt_mgr import LDLTMgr


def dressed(A, rnd):
    """The same symmetric matrix as a caller may hold it."""
    k = rnd.randrange(6)
    if k == 0:
        return np.asfortranarray(A)
    if k == 1:
        B = np.zeros((2 * len(A), 2 * len(A)), dtype=A.dtype)
        B[::2, ::2] = A
        return B[::2, ::2]
    if k == 2 and A.dtype == float and np.all(A == np.round(A)) and np.max(np.abs(A)) < 1e9:
        return A.astype(int)
    return A.copy()


def step(mgr, A, semi, rnd, nq=1):
    """One factorisation and everything that can be asked afterwards."""
    n = len(A)
    M = dressed(A, rnd)
    acc = rnd.random() < 0.5 or semi
    if semi:
        ok, r = attempt(mgr.factor_with_allow_semidefinite, lambda i, j: M[i, j])
    elif acc:
        get = rnd.choice([lambda i, j: M[i, j], lambda i, j: float(M[i, j])])
        ok, r = attempt(mgr.factor, get)
    else:
        ok, r = attempt(mgr.factorize, M)
    e = dict(A=hm(A), semi=bool(semi), err="" if ok else str(r), ans=bool(r) if ok else False)
    spd = lambda: bool(mgr.is_spd()) if attempt(mgr.is_spd)[0] else None
    e["spd"] = [spd()]
    # what is asked, in either order, possibly twice
    ops = ["witness", "sqrt"] + (["witness"] if rnd.random() < 0.3 else [])
    rnd.shuffle(ops)
    e["root"] = dict(err="notasked", R=[])
    e["wit"] = []
    for op in ops:
        if op == "sqrt":
            ok2, R = attempt(mgr.sqrt)
            R = np.asarray(R) if ok2 else None
            if ok2 and R.shape != (n, n):
                ok2, R = False, "shape"
            e["root"] = dict(err="" if ok2 else str(R if isinstance(R, str) else attempt(mgr.sqrt)[1]), R=hm(R) if ok2 else [])
        else:
            ok2, ep = attempt(mgr.witness)
            if not ok2:
                e["wit"].append(dict(err=str(ep), ep="nan", a=0, b=0, v=[], quads=[]))
                continue
            a, b = (int(t) for t in mgr.pos)
            v = np.asarray(mgr.wit, dtype=float)
            quads = []
            for _ in range(nq):
                Q = np.array([[rnd.uniform(-3, 3) for _ in range(n)] for _ in range(n)])
                if rnd.random() < 0.7:
                    Q = Q + Q.T
                if rnd.random() < 0.3:
                    Q = np.round(Q).astype(int)
                ok3, q = attempt(mgr.sym_quad, Q)
                quads.append(dict(M=hm(Q), q=hx(q) if ok3 else "nan"))
            ok3, q = attempt(mgr.sym_quad, M)
            quads.append(dict(M=hm(A), q=hx(q) if ok3 else "nan"))
            e["wit"].append(dict(err="", ep=hx(ep), a=a, b=b, v=hv(v), quads=quads))
        e["spd"].append(spd())
    e["spd"] = [bool(t) if t is not None else False for t in e["spd"]]
    return e


def script(path, seed):
    rnd = random.Random(seed)
    out = []
    mgrs = {}
    for line in open(path):
        b = json.loads(line)
        n = b["n"]
        if n not in mgrs or rnd.random() < 0.02:
            mgrs[n] = LDLTMgr(n)
        sc = 2.0 ** rnd.choice([0, 0, 0, 10, -10, 40, -40, -60])
        gr = graded(rnd, n)
        out.append([step(mgrs[n], np.array(h["A"], dtype=float) * sc * gr, h["semi"], rnd, nq=0 if rnd.random() < 0.8 else 1) for h in b["h"]])
    return out


def graded(rnd, n):
    """Powers of two that scale rows and columns alike: pivots of very different size, the elimination stays exact."""
    if rnd.random() < 0.75:
        return np.ones((n, n))
    d = np.array([2.0 ** rnd.choice([0, 0, 3, -3, 17, -17, 30, -30]) for _ in range(n)])
    return np.outer(d, d)


def matrix(rnd, n):
    kind = rnd.choice(["pd", "pd", "one", "one", "any", "int", "late", "psd"])
    if kind == "int":
        A = np.array([[rnd.randint(-3, 3) for _ in range(n)] for _ in range(n)], dtype=float)
        A = np.tril(A) + np.tril(A, -1).T + np.diag([float(rnd.randint(0, 6)) for _ in range(n)])
    elif kind == "any":
        A = np.array([[rnd.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        A = A + A.T
    else:
        L = np.tril(np.array([[rnd.gauss(0, 0.7) for _ in range(n)] for _ in range(n)]), -1) + np.eye(n)
        d = np.array([rnd.uniform(0.2, 3) for _ in range(n)])
        if kind == "one":
            d[rnd.randrange(n)] *= -rnd.choice([1, 0.1, 0.01])
        if kind == "late":
            d[n - 1] *= -rnd.choice([1, 0.01])
        if kind == "psd":
            L = np.round(L)
            d = np.array([float(rnd.choice([0, 1, 1, 2, 4])) for _ in range(n)])
            if rnd.random() < 0.3:
                d[rnd.randrange(n)] = -1.0
        A = (L * d) @ L.T
    A = (A + A.T) / 2
    if kind in ("int", "psd"):
        A = A * graded(rnd, n)
    return A * 2.0 ** rnd.choice([0, 0, 0, 5, -5, 30, -30, -45])


def runs(seed, count):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        n = rnd.choice([1, 2, 3, 4, 5, 6, 8, 10, 10, 14, 20])
        mgr = LDLTMgr(n)
        out.append([step(mgr, matrix(rnd, n), rnd.random() < 0.35, rnd) for _ in range(rnd.randint(1, 4 if n > 6 else 7))])
    return out


if __name__ == "__main__":
    emit(script(sys.argv[3], int(sys.argv[4])) if sys.argv[2] == "script" else runs(int(sys.argv[3]), int(sys.argv[4])))
