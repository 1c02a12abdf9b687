"""Calls of the real spectral factorisation and its inverse."""
import json, math, random, sys
from fractions import Fraction
import numpy as np
from hcommon import attempt, emit, hx, hv
from ellalgo.oracles.spectral_fact import spectral_fact, inverse_spectral_fact


def fact(r, kind, want):
    r0 = r.copy()
    ok, h = attempt(spectral_fact, r)
    e = dict(ev="fact", kind=kind, r=hv(r0), err="" if ok else str(h), h=[], real=True, want=hv(want),
             same=bool(np.array_equal(r, r0, equal_nan=r.dtype.kind == "f")))
    if ok:
        e["real"] = bool(np.asarray(h).dtype.kind == "f")
        e["h"] = hv(np.real(h))
    return e


def inv(h):
    h0 = h.copy()
    ok, r = attempt(inverse_spectral_fact, h)
    return dict(ev="inv", h=hv(h0), err="" if ok else str(r), got=hv(r) if ok else [], same=bool(np.array_equal(h, h0)))


def auto(h):
    n = len(h)
    return np.array([h[: n - j] @ h[j:] for j in range(n)])


def script(path, seed):
    rnd = random.Random(seed)
    out = []
    for line in open(path):
        b = json.loads(line)
        h, m = (np.array([float(Fraction(t)) for t in b[k]]) for k in ("h", "m"))
        s = rnd.choice([1.0, 1.0 / np.linalg.norm(h), -1.0, 30.0 / np.linalg.norm(h)])
        h, m = h * s, m * s
        r = auto(h)
        if s == 1.0 and rnd.random() < 0.5 and np.all(r == np.round(r)):
            r = r.astype(int)
        # zero of modulus 7/8 needs a long enough filter
        z = 6 / 8 if len(h) > 1 else 0
        out.append([fact(r, "valid", m), inv(h), inv(h.astype(int) if np.all(h == np.round(h)) else h)])
    return out


def touching(rnd, n):
    zs, on = [], False
    while len(zs) < n - 1:
        k, left = rnd.random(), n - 1 - len(zs)
        if k < 0.3 and left >= 2:
            t = rnd.choice([math.pi * rnd.randrange(1, 12) / 12, rnd.uniform(0.1, 3)])
            zs += [complex(math.cos(t), math.sin(t)), complex(math.cos(t), -math.sin(t))]
            on = True
        elif k < 0.5 or (left == 1 and not on):
            zs.append(rnd.choice([1, -1]))
            on = True
        else:
            zs.append(rnd.uniform(-0.8, 0.8))
    h = np.real(np.poly(zs))
    return auto(h / np.linalg.norm(h))


def runs(seed, count):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        n = rnd.choice([1, 2, 3, 4, 5, 7, 10, 16, 24, 32, 48, 64])
        rad = min(0.97, math.exp(-20 / (50 * n)))
        zs = []
        if n > 5 and rnd.random() < 0.8:     # spread around the circle, near it
            for k in range((n - 1) // 2):
                z = rnd.uniform(0.85, 1) * rad * complex(math.cos(t := (k + rnd.uniform(0.2, 0.8)) * 2 * math.pi / n), math.sin(t))
                zs += [z, z.conjugate()]
        while len(zs) < n - 1:
            if n - 1 - len(zs) >= 2 and rnd.random() < 0.7:
                z = rnd.uniform(0.05, rad) * complex(math.cos(t := rnd.uniform(0, math.pi)), math.sin(t))
                zs += [z, z.conjugate()]
            else:
                zs.append(rnd.uniform(-rad, rad))
        m = np.real(np.poly(zs)) if zs else np.array([1.0])
        m = m * rnd.choice([1.0, 0.01, 5.0])
        if np.linalg.norm(m) < 1e-2:
            m = m / np.linalg.norm(m)
        r = auto(m)
        # spectrum must be clearly positive in absolute terms
        w = np.linspace(0, math.pi, 40 * n)
        R = r[0] + 2 * sum(r[j] * np.cos(j * w) for j in range(1, n))
        ev = []
        if R.min() > 1e-6 * max(1.0, r[0]):
            ev.append(fact(r, "valid", m))
        h = np.array([rnd.gauss(0, 1) for _ in range(n)]) * rnd.choice([1, 1e-6, 1e6])
        ev.append(inv(h))
        if n > 1 and rnd.random() < 0.5:        # a spectrum that touches zero, or dips below it as by rounding
            q = touching(rnd, n)
            if rnd.random() < 0.4:
                q[0] -= rnd.choice([1e-9, 1e-6, 1e-5])
            ev.append(fact(q, "touching", []))
        k = rnd.random()
        if k < 0.1:
            ev.append(fact(np.array([]), "empty", []))
        elif k < 0.3:
            q = r.copy()
            q[rnd.randrange(n)] = rnd.choice([float("nan"), float("inf"), -float("inf")])
            ev.append(fact(q, "non-finite", []))
        else:
            if rnd.random() < 0.5:      # a valid sequence pushed slightly below zero at a multiple of pi / 12
                q = r / np.abs(r).sum() * rnd.choice([1.0, 30.0])
                w = np.arange(13) * math.pi / 12
                R = q[0] + 2 * sum(q[j] * np.cos(j * w) for j in range(1, n))
                q[0] -= R.min() + rnd.choice([2e-3, 5e-3, 0.02, 0.1]) * np.abs(q).sum()
                ev.append(fact(q, "negative", []))
            q = np.array([rnd.uniform(-1, 1) for _ in range(n)])
            q[0] = rnd.uniform(-1, 1.5)
            ev.append(fact(q / np.abs(q).sum() * rnd.choice([1.0, 0.05, 20.0]), "negative", []))
        out.append(ev)
    return out


if __name__ == "__main__":
    emit(script(sys.argv[3], int(sys.argv[4])) if sys.argv[2] == "script" else runs(int(sys.argv[3]), int(sys.argv[4])))
