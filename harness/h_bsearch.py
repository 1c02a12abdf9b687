"""Binary search and its adaptor on the real code."""
import copy, json, random, sys
from fractions import Fraction
import numpy as np
from hcommon import attempt, emit, hx, xs
from ellalgo.cutting_plane import bsearch, BSearchAdaptor, cutting_plane_feas
from ellalgo.ell_config import CutStatus, Options
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable


def opts(n, t):
    o = Options()
    o.max_iters, o.tolerance = n, t
    return o


def exact(v):
    return Fraction(*v.as_integer_ratio())


def longd(q):
    return np.longdouble(str(q.numerator)) / np.longdouble(str(q.denominator))


def replay_bs(b, var):
    rnd = random.Random(var)
    fr = Fraction
    if b["type"] == "int":
        T = int
    elif all(fr(float(fr(p["g"]))) == fr(p["g"]) for p in b["probes"]):
        T = rnd.choice([float, float, np.float64])
    else:                                     # more digits than a double has: extended precision
        T = np.longdouble
        if any(exact(longd(fr(p["g"]))) != fr(p["g"]) for p in b["probes"]):
            return None
    conv = longd if T is np.longdouble else T
    lo, up = conv(fr(b["lo"])), conv(fr(b["up"]))
    if lo == int(lo) and rnd.random() < 0.4:      # (0, 1.0): the bracket's type is that of its upper end
        lo = rnd.choice([int, int, np.int64])(int(lo)) if T is not np.longdouble else int(lo)
    seen, err = [], []

    class O:
        def assess_bs(self, g):
            i = len(seen)
            seen.append(g)
            if i >= len(b["probes"]):
                err.append("went on after the stop condition")
                raise RuntimeError
            p = b["probes"][i]
            if type(g) is not T:
                err.append(f"probe of type {type(g).__name__} for a bracket of {T.__name__}")
            if exact(g) != fr(p["g"]):
                err.append(f"probe {g} is not the midpoint {p['g']}")
            if err:
                raise RuntimeError
            return np.bool_(p["yes"]) if var % 2 else p["yes"]
    tol = float(fr(b["tol"]))
    a = (O(), (lo, up) if rnd.random() < 0.7 else [lo, up], opts(b["budget"], tol))
    ok, v = attempt(bsearch, *a)
    if err:
        return err[0]
    if not ok:
        return "raised " + v
    if len(seen) != len(b["probes"]):
        return f"stopped after {len(seen)} probes instead of {len(b['probes'])}"
    x, n = v
    if exact(x) != fr(b["result"]) or type(x) is not T:
        return f"result {x!r} instead of {b['result']}"
    if n != b["n"]:
        return f"count {n} instead of {b['n']}"
    return None


def runs_bs(seed, count):
    rnd = random.Random(seed)
    out = []
    for k in range(count):
        T = rnd.choice([int, float, float])
        if T is int:
            lo = rnd.randint(-10 ** 6, 10 ** 6)
            up = lo + rnd.choice([0, 1, 2, 7, 10 ** 3, 10 ** 9, 2 ** 40])
        else:
            s = 10.0 ** rnd.randint(-6, 9)
            lo = rnd.uniform(-s, s)
            up = lo + rnd.choice([0.0, s, s / 3, 1e-6 * s])
            if rnd.random() < 0.3:
                lo = int(lo)
                up = float(lo + abs(up - lo))
        th = lo + (up - lo) * rnd.choice([rnd.random(), 0, 1, 2, -1])
        mono = rnd.random() < 0.7
        ev = []
        d = rnd.random() < 0.15
        o = opts(rnd.choice([0, 1, 3, 20, 50, 100, 400]), rnd.choice([1e-20, 1e-9, 1e-3, 0.5, 1.0, 10.0]))
        nmax, tol = (2000, 1e-20) if d else (o.max_iters, o.tolerance)
        ev.append(dict(ev="call", type="int" if T is int else "real", lo=hx(lo), up=hx(up), tol=hx(tol), budget=nmax))

        class O:
            def assess_bs(self, g):
                y = bool(g >= th) if mono else rnd.random() < 0.5
                ev.append(dict(ev="probe", g=hx(g), typed=type(g) is T, yes=y))
                if len(ev) > 2100:
                    raise RuntimeError
                return y
        ok, v = attempt(bsearch, O(), (lo, up), *(() if d else (o,)))
        if not ok:
            ev.append(dict(ev="err", what=v))
        else:
            ev.append(dict(ev="ret", x=hx(v[0]), n=int(v[1]), typed=type(v[0]) is T))
        out.append(ev)
    return out


# ------------------------------------------------------------------ adaptor
class StubSpace:
    """The space of BSAdaptor.tla."""

    def __init__(self, c, s, small):
        self._x, self.s, self._t, self.small = np.array([float(c)]), s, 1.0, small

    def xc(self):
        return self._x

    def set_xc(self, x):
        self._x = np.array(x, dtype=float)

    def tsq(self):
        return self._t

    def update_bias_cut(self, cut):
        if cut[1] == 1.0:
            return CutStatus.NoSoln
        if cut[1] == 2.0:
            self._t = self.small / 2
            self._x += self.s
            self.s //= 2
            return CutStatus.Success
        self._x += self.s
        self.s //= 2
        return CutStatus.Success


def replay_ad(b, var):
    rnd = random.Random(var)
    tol = rnd.choice([1e-20, 1e-6, 0.25])
    space = StubSpace(5, 64, tol)
    err = []
    vals = {1: rnd.choice([1, 0.5, -2.25]), 2: rnd.choice([2, 7.5, 0])}

    class O:
        val = None
        i = -1
        j = 0

        def update(self, g):
            self.val = g

        def assess_feas(self, x):
            r = b["log"][self.i]
            if self.val != vals[r["v"]]:
                err.append("oracle asked without the probed value")
            if self.j >= len(r["queries"]):
                err.append("subproblem went on beyond its options")
                raise RuntimeError
            if x[0] != r["queries"][self.j]:
                err.append(f"subproblem visits {x[0]} instead of {r['queries'][self.j]}")
                raise RuntimeError
            self.j += 1
            if self.j <= r["cuts"]:
                return np.array([1.0]), 0.0
            if r["end"] == "found":
                return None
            return np.array([1.0]), 1.0 if r["end"] == "refused" else 2.0
    om = O()
    ad = BSearchAdaptor(om, space, opts(b["budget"], tol))
    centre = 5
    for i, r in enumerate(b["log"]):
        om.i, om.j = i, 0
        ok, v = attempt(ad.assess_bs, vals[r["v"]])
        if err:
            return err[0]
        if not ok:
            return "raised " + v
        if om.j != len(r["queries"]):
            return f"subproblem stopped after {om.j} queries instead of {len(r['queries'])}"
        if bool(v) != r["yes"]:
            return f"answer {v} instead of {r['yes']}"
        if om.val != vals[r["v"]]:
            return "the probed value was not passed on"
        centre = r["x"] if r["yes"] else centre
        if ad.x_best[0] != centre or ad.space.xc()[0] != centre:
            return f"centre {ad.x_best[0]} instead of {centre} after probe {i}"
        if ad.space.s != 64:
            return "shape changed by a probe"
    return None


class Ball:
    """{x : |x - p(g)|_inf <= rad(g)} as a g-parametrised feasibility oracle (optionally g-dependent centre)."""

    def __init__(self, rnd, n):
        self.p = np.array([rnd.uniform(-2, 2) for _ in range(n)])
        self.q = np.array([rnd.uniform(-1, 1) for _ in range(n)])
        self.g = None

    def update(self, g):
        self.g = g

    def assess_feas(self, x):
        d = x - (self.p + self.q * self.g)
        i = int(np.argmax(np.abs(d)))
        v = abs(d[i]) - 0.3 * self.g
        if v <= 0:
            return None
        gr = np.zeros(len(x))
        gr[i] = 1.0 if d[i] > 0 else -1.0
        return gr, float(v)


class Log:
    def __init__(self, om):
        self.om, self.q, self.acc = om, [], "none"

    def update(self, g):
        self.om.update(g)

    def assess_feas(self, x):
        c = self.om.assess_feas(x)
        self.q.append(dict(g="none" if self.om.g is None else hx(self.om.g), x=xs(x)))
        if c is None:
            self.acc = xs(x)
        return c


def shape(space):
    """Observations of a space's shape through its public interface."""
    n = len(space.xc())
    obs = []
    for i in range(n):
        for j in range(i, n):
            s = copy.deepcopy(space)
            g = np.zeros(n)
            g[i] += 1.0
            if i != j:
                g[j] += 1.0
            s.update_central_cut((g, 0.0))
            obs.append(s.tsq())
    return xs(obs)


def runs_ad(seed, count):
    rnd = random.Random(seed)
    out = []
    for k in range(count):
        n = rnd.choice([2, 3, 4])
        cls = rnd.choice([Ell, EllStable])
        kap = rnd.choice([9.0, 25.0, np.array([rnd.uniform(1, 30) for _ in range(n)])])
        x0 = np.array([rnd.uniform(-1, 1) for _ in range(n)])
        sp = cls(kap, x0)
        if rnd.random() < 0.3:   # a space with a history
            for _ in range(3):
                sp.update_bias_cut((np.array([rnd.uniform(-1, 1) for _ in range(n)]), 0.0))
        om = Ball(rnd, n)
        lg = Log(om)
        o = opts(rnd.choice([0, 1, 3, 12, 60]), rnd.choice([1e-20, 1e-3, 1.0]))
        d = rnd.random() < 0.3
        ad = BSearchAdaptor(lg, sp) if d else BSearchAdaptor(lg, sp, o)
        ev = [dict(ev="new", x=xs(ad.x_best), shape=shape(sp))]

        def probe(g):
            solo = Log(copy.deepcopy(om))
            solo.update(g)
            cp = copy.deepcopy(ad.space)
            attempt(cutting_plane_feas, solo, cp, *(() if d else (o,)))
            lg.q, lg.acc = [], "none"
            om.g = None
            ok, v = attempt(ad.assess_bs, g)
            if not ok:
                ev.append(dict(ev="err", what=v))
                return False
            ev.append(dict(ev="probe", g=hx(g), queries=lg.q, accepted=lg.acc, yes=bool(v), solo_queries=solo.q,
                           xafter=xs(ad.x_best), shapeafter=shape(ad.space)))
            return v
        if rnd.random() < 0.5:
            class P:
                def assess_bs(self, g):
                    return probe(g)
            attempt(bsearch, P(), (0.0, rnd.choice([1.0, 8.0])), opts(8, 1e-3))
        else:
            for _ in range(6):
                probe(rnd.choice([rnd.uniform(0, 4), rnd.uniform(0, 0.2), -1.0, 1]))
        out.append(ev)
    return out


if __name__ == "__main__":
    what = sys.argv[2]
    if what in ("bs", "ad"):
        f = replay_bs if what == "bs" else replay_ad
        fails, n = [], 0
        with open(sys.argv[3]) as fh:
            for line in fh:
                b = json.loads(line)
                n += 1
                e = f(b, int(sys.argv[4]) * 1000003 + n)
                if e:
                    fails.append((b, e))
                    if len(fails) > 20:
                        break
        emit(dict(count=n, fails=fails))
    else:
        emit((runs_bs if what == "runs_bs" else runs_ad)(int(sys.argv[3]), int(sys.argv[4])))
