"""Histories of the real search spaces, recorded through their public interface.

script FILE SEED   scripts written by SSModel.tla
random SEED N      random histories
(LOCK=1 in the argument list: all four representations in lock-step)
"""
import copy, json, math, random, sys
from fractions import Fraction
import numpy as np
from hcommon import attempt, emit, hx, hv, hm
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable

NAN = "nan"


def probe(space, g):
    s = copy.deepcopy(space)
    s.update_central_cut((g, 0.0))
    return float(s.tsq())


def observe(space):
    """The shape P, from the size measures of trial cuts on copies."""
    n = len(space.xc())
    P = np.full((n, n), np.nan)

    def go():
        d = np.array([probe(space, np.eye(n)[i]) for i in range(n)])
        for i in range(n):
            P[i, i] = d[i]
        s = np.array([2.0 ** -round(math.log2(v) / 2) if v > 0 and math.isfinite(v) else 1.0 for v in d])
        for i in range(n):
            for j in range(i):
                g = np.zeros(n)
                g[i], g[j] = s[i], s[j]
                v = (probe(space, g) - s[i] ** 2 * d[i] - s[j] ** 2 * d[j]) / 2 / (s[i] * s[j])
                P[i, j] = P[j, i] = v
    attempt(go)
    return P


VARIANTS = [(Ell, False), (Ell, True), (EllStable, False), (EllStable, True)]


def make(cls, nodefer, val, x0, par):
    s = cls(val, x0)
    s.no_defer_trick = nodefer
    s.helper.use_parallel_cut = par
    return s


def apply(space, op, g, beta):
    f = dict(bias=space.update_bias_cut, central=space.update_central_cut, q=space.update_q)[op]
    ok, v = attempt(f, (g, beta))
    return v.name if ok and hasattr(v, "name") else (str(v) if not ok else "nostatus")


def offsets(b, rnd):
    """The offsets as a caller may write them."""
    b = [int(v) if float(v).is_integer() and rnd.random() < 0.3 else v for v in b]
    if len(b) == 1:
        return rnd.choice([b[0], b[0], b[0], [b[0]], (b[0],)])
    return rnd.choice([tuple(b), list(b), list(b)])


def kept_points(rnd, x, P, g, b, op, par, count):
    """Proposed points of the kept part (the specification decides whether they belong to it)."""
    n = len(x)
    try:
        L = np.linalg.cholesky((P + P.T) / 2)
    except Exception:
        return []
    w = L.T @ g
    tau = np.linalg.norm(w)
    if not tau > 0:
        return []
    w = w / tau
    b0 = 0.0 if op == "central" else b[0] / tau
    t2 = min(1.0, -b0)
    t1 = max(-1.0, -b[1] / tau) if par and len(b) == 2 else -1.0
    if not t1 < t2:
        return []
    out = []
    for k in range(count):
        t = rnd.choice([t1, t2, t1 + (t2 - t1) * rnd.random()])
        u = np.array([rnd.gauss(0, 1) for _ in range(n)])
        u -= (u @ w) * w
        u /= np.linalg.norm(u)
        y = x + L @ ((t * w + math.sqrt(max(0, 1 - t * t)) * u) * (1 - 1e-9) + 1e-9 * (t1 + t2) / 2 * w)
        out.append(hv(y))
    return out


def start_args(rnd, kap, diag, x0):
    """Initial values as a caller may write them, and the diagonal they mean."""
    n = len(x0)
    if diag is None:
        d = [kap] * n
        val = int(kap) if float(kap).is_integer() and rnd.random() < 0.4 else rnd.choice([float(kap), np.float64(kap)])
    else:
        d = list(diag)
        if all(float(v).is_integer() for v in d) and rnd.random() < 0.4:
            val = rnd.choice([[int(v) for v in d], np.array([int(v) for v in d])])
        else:
            val = rnd.choice([np.array(d, dtype=float), [float(v) for v in d]])
    x = np.array(x0, dtype=float)
    if all(float(v).is_integer() for v in x0) and rnd.random() < 0.3:
        x = np.array([int(v) for v in x0])
    return val, x, d


class Run:
    def __init__(self, rnd, kap, diag, x0, par, lock):
        self.rnd, self.par, self.lock = rnd, par, lock
        val, x, d = start_args(rnd, kap, diag, x0)
        vs = VARIANTS if lock else [rnd.choice(VARIANTS)]
        self.name = ["%s%s" % (c.__name__, " immediate" if f else "") for c, f in vs]
        self.sp = [make(c, f, copy.deepcopy(val), x.copy(), par) for c, f in vs]
        self.P = [observe(s) for s in self.sp]
        self.ev = []
        self.d = d
        self.x0 = np.array(x0, dtype=float)
        if lock:
            self.ev.append(dict(ev="new", val=repr(val), par=par, g=[], v=self.states(["new"] * 4)))
        else:
            n = len(x0)
            pts = []
            for _ in range(8):
                u = np.array([rnd.gauss(0, 1) for _ in range(n)])
                u *= rnd.random() ** (1 / n) * 0.999999 / np.linalg.norm(u)
                pts.append(self.x0 + np.sqrt(np.array(d)) * u)
            self.z = pts[0]
            for k in range(1, 4):
                pts[k] = self.z + (pts[k] - self.z) * 0.2
            self.ev.append(dict(ev="new", var=self.name[0], val=repr(val), par=par, x=hv(self.sp[0].xc()), P=hm(self.P[0]),
                                start=dict(x=hv(self.x0), d=hv(d)), pts=[hv(p) for p in pts]))

    def switch(self, par):
        self.par = par
        for s in self.sp:
            s.helper.use_parallel_cut = par

    def states(self, sts):
        return [dict(st=st, tsq=hx(s.tsq()), x=hv(s.xc()), P=hm(P)) for st, s, P in zip(sts, self.sp, self.P)]

    def cut(self, op, g, b):
        rnd = self.rnd
        P0, x0 = self.P[0], np.array(self.sp[0].xc(), dtype=float)
        sts = []
        raw = offsets(b, rnd)
        for s in self.sp:
            gg = g.copy()
            sts.append(apply(s, op, gg, copy.copy(raw)))
        self.P = [observe(s) for s in self.sp]
        bh = [hx(v) for v in b]
        if self.lock:
            self.ev.append(dict(ev="cut", op=op, g=hv(g), b=bh, v=self.states(sts)))
        else:
            self.ev.append(dict(ev="cut", op=op, par=self.par, g=hv(g), b=bh, st=sts[0], tsq=hx(self.sp[0].tsq()),
                                x=hv(self.sp[0].xc()), P=hm(self.P[0]),
                                prop=kept_points(rnd, x0, P0, np.asarray(g, float), b, op, self.par, 3)))
        return sts[0]

    def move(self, x):
        for s in self.sp:
            attempt(s.set_xc, x.copy())
        P = [observe(s) for s in self.sp]
        self.P = P
        if self.lock:
            self.ev.append(dict(ev="set", g=[], v=self.states(["set"] * 4)))
        else:
            self.ev.append(dict(ev="set", to=hv(x), x=hv(self.sp[0].xc()), P=hm(P[0])))

    def healthy(self, lim):
        for P, s in zip(self.P, self.sp):
            if not np.all(np.isfinite(P)) or not np.all(np.isfinite(np.asarray(s.xc(), float))):
                return False
            d = np.diag(P)
            if not np.all(d > 0):
                return False
            c = P / np.sqrt(np.outer(d, d))
            w = np.linalg.eigvalsh((c + c.T) / 2)
            if w[0] <= 0 or w[-1] / w[0] > lim or d.max() / d.min() > 1e9 or d.max() > 1e60 or d.min() < 1e-60 \
                    or math.sqrt(d.min()) < 1e-6 * np.abs(np.asarray(s.xc(), float)).max():
                return False
        return True


def fr(s):
    return float(Fraction(s))


def script(b, seed, lock):
    rnd = random.Random(seed)
    st = b["start"]
    diag = [fr(v) for v in st["diag"]] if st["diag"] else None
    r = Run(rnd, fr(st["kap"]), diag, [fr(v) for v in st["x"]], b["par"], lock)
    sts = []
    for c in b["script"]:
        if c["op"] == "set":
            r.move(np.array([fr(v) for v in c["g"]]))
            sts.append("set")
        else:
            g = np.array([int(v) for v in c["g"]])
            if rnd.random() < 0.5:
                g = g.astype(float)
            s = r.cut(c["op"], g, [fr(v) for v in c["b"]])
            sts.append("error" if s == "ValueError" else s)
        if not r.healthy(1e7):
            break
    want = [c["st"] for c in b["script"]]
    r.ev[0]["want"] = want
    r.ev[0]["got"] = sts
    return r.ev


SING = dict(bias=[0.0, 1e-3, 0.1, 0.3, 0.6, 0.9, 0.99, 1.01, 1.5, 20.0],
            q=[-20.0, -1.5, -0.99, -0.7, -0.4, -0.15, -0.02, 0.0, 0.01, 0.3, 0.8, 0.98, 1.02, 3.0],
            central=[0.0, 0.5])


def near(rnd, op, n, par, thin):
    """Offsets close to a change of the answer (in units of tau)."""
    d = rnd.choice([1e-4, 1e-6, 1e-7, 1e-8])
    if not par or rnd.random() < 0.5:
        if op == "central":
            return [0.0]
        c = [1 + d, 1 + d] + ([1 - rnd.uniform(0.5, 2) * 1e-4] if thin else [])
        if op == "q":
            c += [-1.0 / n + d, -1.0 / n - d, -1.0 / n - d, -1 + d, -1 - d]
        return [rnd.choice(c)]
    if op == "central":
        return [0.0, rnd.choice([-d, 1 - d, 1 + d])]
    lo = rnd.choice([0.0, 0.1, 0.4])
    c = [[lo, lo - d], [lo, 1 - d], [lo, 1 + d], [-1.3, -1 - d], [1 + d, 1.5]]
    if lo:
        c.append([-lo, (1 - d) / (n * lo)])
        c.append([-lo, (1 + d) / (n * lo)])
    b = rnd.choice(c)
    return b if b[1] < 1 or b[0] >= 0 or op == "q" else [lo, lo - d]


def ratios(rnd, op, n, par, thin=False):
    """Offsets in units of tau, away from ties."""
    if rnd.random() < 0.12:
        return near(rnd, op, n, par, thin)
    while True:
        two = rnd.random() < 0.55
        if not two:
            b = [rnd.choice(SING[op])]
            if op == "q" and rnd.random() < 0.3:
                b = [-1.0 / n + rnd.choice([-0.02, 0.02, 0.005])]
            if rnd.random() < 0.4 and b[0] > 0:
                b[0] *= rnd.uniform(0.9, 0.99)
        else:
            if op == "central":
                b = [0.0, rnd.choice([0.02, 0.1, 0.5, 0.9, 0.97, 1.05, 5.0, -0.1, -2.0])]
                if rnd.random() < 0.3:
                    b[0] = rnd.choice([-0.5, 0.2])   # ignored by a central cut
            else:
                lo = rnd.choice([0.0, 0.0, 0.05, 0.3, 0.7, -0.05, -0.2, -0.5, -0.8, 1.1, -1.3, rnd.uniform(-0.9, 0.9)])
                b = [lo, lo + rnd.choice([0.03, 0.1, 0.4, 1.0, 1.6, 3.0, -0.2, rnd.uniform(0.05, 1.5)])]
        t2 = [min(1, -(0.0 if op == "central" else b[0]))][0]
        ok = abs(abs(b[0]) - 1) > 1e-3
        if len(b) == 2:
            ok = ok and abs(abs(b[1]) - 1) > 1e-3 and abs(b[1] - b[0]) > 0.02 and abs(b[1]) > 1e-3
            if op == "central":
                ok = abs(abs(b[1]) - 1) > 1e-3 and abs(b[1]) > 1e-3
            elif par:
                ok = ok and abs(1 + n * b[0] * b[1]) > 1e-3
        pair = par and len(b) == 2
        if op == "q" or op == "bias":
            ok = ok and abs(1 + n * b[0]) > 1e-3
        if op == "bias" and b[0] < 0 and (not pair or b[1] >= 1):
            ok = False
        if ok:
            return b


def rand_run(seed, lock, long, wide=False):
    rnd = random.Random(seed)
    n = rnd.choice([2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9]) if not long else rnd.choice([2, 3])
    if wide:
        n = rnd.choice([10, 13, 16])
    kap = 10.0 ** rnd.choice([-6, -2, 0, 0, 1, 2, 5, 8]) * rnd.choice([1.0, 2.0, 3.7, rnd.uniform(1, 4)])
    diag = None
    if rnd.random() < 0.4:
        diag = [kap * rnd.choice([1.0, 2.0, 0.5, 7.0, 40.0]) for _ in range(n)]
    R = math.sqrt(kap)
    x0 = [rnd.choice([0.0, R, 1.0, -3.0, rnd.uniform(-R, R), rnd.uniform(-9, 9) * R]) for _ in range(n)]
    par = rnd.random() < 0.8
    r = Run(rnd, kap, diag, x0, par, lock)
    z = getattr(r, "z", r.x0)
    steps = rnd.choice([60, 110]) if long else rnd.choice([4, 8, 14, 20])
    if lock and not long:
        steps = min(steps, 14)
    if n >= 5:
        steps = min(steps, 8)
    if wide:
        steps = 3
    for k in range(steps):
        u = rnd.random()
        if rnd.random() < 0.07:         # switched on or off on the way
            par = not par
            r.switch(par)
        if rnd.random() < 0.05:         # carried on with a copy, as the binary-search adaptor does
            r.sp = [copy.deepcopy(s) for s in r.sp]
        if u < 0.03:
            r.cut(rnd.choice(["bias", "central", "q"]), rnd.choice([np.zeros(n), np.zeros(n, dtype=int)]), [rnd.choice([0.0, 1.0])])
            continue
        if u < 0.05 and k > 1:
            r.move(np.asarray(r.sp[0].xc(), float) + np.array([rnd.choice([0.0, 1.0, -0.5]) for _ in range(n)]))
            continue
        op = rnd.choice(["bias", "bias", "central", "q", "q"])
        kind = rnd.random()
        if kind < 0.25:
            g = np.zeros(n)
            g[rnd.randrange(n)] = rnd.choice([1.0, -1.0])
        elif kind < 0.4:
            g = np.array([rnd.randint(-3, 3) for _ in range(n)])
            if not g.any():
                g[0] = 1
        elif kind < 0.5:
            g = np.array([rnd.gauss(0, 1) if rnd.random() < 0.6 else 0.0 for _ in range(n)])
            if not g.any():
                g[-1] = 1.0
        else:
            # equilibrated direction: keeps the ellipsoid from degenerating
            g = np.array([rnd.gauss(0, 1) for _ in range(n)])
            try:
                g = np.linalg.solve(np.linalg.cholesky(r.P[0]).T, g)
                g /= np.abs(g).max()
            except Exception:
                pass
        if g.dtype != int:
            g = g * 10.0 ** rnd.choice([0, 0, 0, -4, -2, 2, 4])
        x = np.asarray(r.sp[0].xc(), float)
        b = ratios(rnd, op, n, par, not lock and np.abs(x).max() < 30 * math.sqrt(max(np.diag(r.P[0]).min(), 0)) and r.healthy(100))
        if rnd.random() < 0.7 and g.dtype != int and float(g @ (z - x)) > 0:
            g = -g
        tau = math.sqrt(max(float(np.asarray(g, float) @ r.P[0] @ np.asarray(g, float)), 0.0))
        if not (tau > 0 and math.isfinite(tau)):
            break
        bb = [v * tau for v in b]
        r.cut(op, g, bb)
        if lock:
            # the representations drift apart by rounding at the scale of the initial ellipsoid: long
            # histories re-align the centres after each comparison, short ones stop at small sizes
            if long:
                xx = np.array(r.sp[0].xc(), dtype=float)
                for s in r.sp[1:]:
                    attempt(s.set_xc, xx.copy())
            elif np.sqrt(np.diag(r.P[0]).min()) < 1e-3 * max(R, np.abs(x).max()):
                break
        if not r.healthy(1e4 if lock else 1e5):
            break
    return r.ev


def flat_run(seed):
    """A first cut that leaves no width along its gradient (an equation, or a tangent cut), then another one."""
    rnd = random.Random(seed)
    n = rnd.choice([2, 3, 4, 5])
    kap = rnd.choice([1.0, 4.0, 9.0, 0.25, 100.0])
    x0 = [float(rnd.randint(-4, 4)) for _ in range(n)]
    r = Run(rnd, kap, None, x0, True, True)
    r.ev = []
    g = np.zeros(n)
    if rnd.random() < 0.5:
        g[rnd.randrange(n)] = rnd.choice([1.0, -1.0, 2.0])
    else:
        i, j = rnd.sample(range(n), 2)
        g[i], g[j] = rnd.choice([(3.0, 4.0), (-4.0, 3.0), (5.0, -12.0)])
    tau = math.sqrt(kap) * float(np.linalg.norm(g))
    tangent = rnd.random() < 0.35
    op = rnd.choice(["bias", "q", "central"])
    if op == "central":
        tangent, b = False, [0.0, 0.0]
    elif tangent:
        b = [tau]
    else:
        v = rnd.choice([0.0, 0.25, 0.5, 0.75]) * tau * (-1 if op == "q" and rnd.random() < 0.4 else 1)
        b = [v, v]
    miss = False
    if op != "central" and rnd.random() < 0.5:       # hardly any width, or hardly missing
        tangent = False
        d = rnd.choice([1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-11])
        b = rnd.choice([[tau * (1 - d)], [tau * (1 - d), 1.5 * tau], [0.5 * tau, 0.5 * tau * (1 + d)], [tau * (1 + d)], [tau * (1 + d), 2 * tau],
                        [0.5 * tau, 0.5 * tau * (1 - d)], [-2 * tau, -tau * (1 + d)]])
        miss = b[0] > tau or (len(b) == 2 and (b[1] < b[0] or b[1] < -tau))
    dirs = [np.eye(n)[i] for i in range(n)] + [np.array([float(rnd.randint(-3, 3)) for _ in range(n)]) for _ in range(3)] + [g.copy()]
    dirs = [h for h in dirs if h.any()]
    v = []
    for name, s in zip(r.name, r.sp):
        st = apply(s, op, g.copy(), offsets(b, rnd) if len(b) == 1 else rnd.choice([tuple(b), list(b), np.array(b)]))
        x = hv(s.xc())
        ext = []
        for h in dirs:
            c = copy.deepcopy(s)
            ok, q = attempt(c.update_central_cut, (h.copy(), 0.0))
            ext.append("0" if ok and q.name == "NoEffect" else (hx(c.tsq()) if ok else "nan"))
        st2 = apply(s, "central", g.copy(), 0.0)
        v.append(dict(name=name, st=st, x=x, ext=ext, st2=st2, x2=hv(s.xc())))
    return [dict(ev="flat", x0=hv(x0), kap=hx(kap), op=op, tangent=tangent, miss=miss, g=hv(g), b=[hx(t) for t in b], dirs=[hv(h) for h in dirs], v=v)]


if __name__ == "__main__":
    what = sys.argv[2]
    lock = sys.argv[-1] == "LOCK"
    if what == "script":
        out = []
        with open(sys.argv[3]) as f:
            for i, line in enumerate(f):
                out.append(script(json.loads(line), int(sys.argv[4]) * 1000003 + i, lock))
        emit(out)
    elif what == "flat":
        emit([flat_run(int(sys.argv[3]) * 100003 + k) for k in range(int(sys.argv[4]))])
    else:
        seed, n = int(sys.argv[3]), int(sys.argv[4])
        emit([rand_run(seed * 100003 + k, lock, k % 12 == 11, k % 12 == 5) for k in range(n)])
