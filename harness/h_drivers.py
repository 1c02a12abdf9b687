"""Steps behaviours of CuttingPlane.tla through the real loops, and records real runs.

replay FILE SEED   every behaviour in FILE (JSON lines), scripted oracle and space
runs SEED N        real oracles and spaces behind recording wrappers
"""
import json, random, sys
import numpy as np
from hcommon import attempt, emit, hx, xs
from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q
from ellalgo.ell_config import CutStatus, Options

ST = dict(Success=CutStatus.Success, NoSoln=CutStatus.NoSoln, NoEffect=CutStatus.NoEffect, Unknown=CutStatus.Unknown)


class Mismatch(Exception):
    pass


class Over(Exception):
    pass


TOLS = [1e-20, 1e-8, 0.25, 1.0, 3e-3]
GMAPS = [{0: 0.0, 1: 1.0, 5: 5.0}, {0: -1.5, 1: 2.25, 5: -3.0}, {0: 0, 1: -7, 5: 0.0}]


class Script:
    """One behaviour, acting as oracle and space."""

    def __init__(self, b, var):
        rnd = random.Random(var)
        self.b, self.h = b, b["hist"]
        self.i = -1            # index of the current query
        self.applied = True    # the cut of the current query has been applied
        self.n = rnd.choice([1, 2, 3])
        self.tol = rnd.choice(TOLS)
        self.gm = rnd.choice(GMAPS)
        self.npf = rnd.random() < 0.3
        self.fresh_xc = rnd.random() < 0.3
        self.rnd = rnd
        self.base = np.array([rnd.uniform(-2, 2) for _ in range(self.n)])
        self.ver = 0
        self._xc = self.content(0).copy()
        self._tsq = 1e6
        self.buf = np.zeros(self.n)
        self.cut = None
        self.errors = []
        self.expect_xq = {}

    def content(self, v):
        return self.base * (1 + v) + v

    def err(self, m):
        self.errors.append(m)
        raise Mismatch(m)

    # search space ---------------------------------------------------------
    def xc(self):
        return self._xc.copy() if self.fresh_xc else self._xc

    def set_xc(self, x):
        self.err("loop moved the centre")

    def tsq(self):
        return self._tsq

    def _upd(self, kind, cut):
        if self.applied:
            self.err("a cut applied out of turn")
        r = self.h[self.i]
        if kind != r["kind"]:
            self.err(f"cut applied as {kind}, not {r['kind']}")
        g, beta = cut
        if not (np.array_equal(g, self.cutv[0]) and beta == self.cutv[1] and type(beta) is type(self.cutv[1])):
            self.err("cut changed on the way")
        self.applied = True
        if r["st"] == "Success":
            self.ver += 1
            self._xc[:] = self.content(self.ver)
        t = self.tol
        self._tsq = {"below": self.rnd.choice([t / 2, np.nextafter(t, 0)]), "equal": t,
                     "above": self.rnd.choice([t * 2, np.nextafter(t, 9e9)])}[r["size"]]
        return ST[r["st"]]

    def update_bias_cut(self, cut):
        return self._upd("bias", cut)

    def update_central_cut(self, cut):
        return self._upd("central", cut)

    def update_q(self, cut):
        return self._upd("q", cut)

    # oracle ---------------------------------------------------------------
    def _ask(self, x, gamma=None, retry=None):
        if not self.applied:
            self.err("the cut of the previous answer was not applied")
        if self.i + 1 >= len(self.h):
            self.err("went on after the stop condition or the budget")
        self.i += 1
        r = self.h[self.i]
        if not np.array_equal(x, self.content(r["x"])):
            self.err("not asked about the current centre")
        if gamma is not None and gamma != self.gm[r["gamma"]]:
            self.err(f"asked with value {gamma} instead of {self.gm[r['gamma']]}")
        if retry is not None and bool(retry) != r["retry"]:
            self.err(f"retry flag {retry}")
        self.applied = r["ans"]["accept"]
        g = np.array([self.rnd.uniform(-1, 1) for _ in range(self.n)])
        beta = self.rnd.choice([0.0, 0.5, 0, (0.0, 1.5), [0.25, 0.5]])
        self.cut = (g, beta)
        self.cutv = (g.copy(), list(beta) if isinstance(beta, list) else beta)
        g1 = r["ans"]["g1"]
        g1 = None if g1 == "None" else self.gm[g1]
        return r, (np.float64(g1) if g1 is not None and self.npf else g1)

    def assess_feas(self, x):
        r, _ = self._ask(x)
        return None if r["ans"]["accept"] else self.cut

    def assess_optim(self, x, gamma):
        r, g1 = self._ask(x, gamma)
        return self.cut, g1

    def assess_optim_q(self, x, gamma, retry):
        r, g1 = self._ask(x, gamma, retry)
        k = r["ans"]["xq"]
        if k == "centre":
            xq = x
        elif k == "buffer":
            self.buf[:] = 100.0 + self.i
            xq = self.buf
        else:
            xq = np.full(self.n, 200.0 + self.i)
        self.expect_xq[self.i] = xq.copy()
        return self.cut, xq, g1, r["ans"]["alt"]


def replay(b, var):
    s = Script(b, var)
    mode = b["mode"]
    opt = Options()
    default = b["budget"] == 2000
    opt.max_iters, opt.tolerance = b["budget"], s.tol
    if default:
        s.tol = 1e-20
    a = () if default else (opt,)
    g0 = s.gm[5]
    f = {"feas": lambda: cutting_plane_feas(s, s, *a), "optim": lambda: cutting_plane_optim(s, s, g0, *a),
         "optq": lambda: cutting_plane_optim_q(s, s, g0, *a)}[mode]
    ok, v = attempt(f)
    if s.errors:
        return s.errors[0]
    if not ok:
        return "raised " + str(v)
    if s.i + 1 != len(s.h):
        return f"stopped after {s.i + 1} queries instead of {len(s.h)}"
    if not s.applied:
        return "the cut of the last answer was not applied"
    res = b["result"]
    x, gam, nit = (v[0], None, v[1]) if mode == "feas" else v
    if nit != res["niter"]:
        return f"count {nit} instead of {res['niter']}"
    if mode != "feas" and gam != s.gm[res["gamma"]]:
        return f"value {gam} instead of {s.gm[res['gamma']]}"
    if res["x"] == "None":
        if x is not None:
            return "returned a point"
    else:
        if x is None:
            return "returned no point"
        if mode == "optq":
            i = max(i for i, r in enumerate(s.h) if r["ans"]["g1"] != "None")
            want = s.expect_xq[i]
        else:
            want = s.content(res["x"])
        if not np.array_equal(x, want):
            return f"point {x} instead of {want}"
    return None


# ---------------------------------------------------------------------------
class Rec:
    """Wraps a real oracle and a real space, recording every interaction."""

    def __init__(self, omega, space, tol):
        self.o, self.s, self.tol, self.ev = omega, space, tol, []
        self.cut = None
        self.inner = None

    def _inner(self, f):
        """The oracle or the space failed: not the loop's doing, the record just ends there."""
        try:
            return f()
        except Exception as e:
            self.inner = type(e).__name__
            raise

    def xc(self):
        return self.s.xc()

    def set_xc(self, x):
        self.s.set_xc(x)

    def tsq(self):
        return self.s.tsq()

    def _ask(self, x, gamma, retry, f):
        x0, g0 = xs(x), hx(gamma) if gamma is not None else "none"
        r = self._inner(f)
        cut, xq, g1, alt = r
        self.cut = None if cut is None else (np.array(cut[0], copy=True), repr(cut[1]))
        self.ev.append(dict(ev="ask", x=x0, gamma=g0, retry=bool(retry), accept=cut is None,
                            g1="none" if g1 is None else hx(g1), alt=bool(alt), xq=xs(xq)))
        return r

    def assess_feas(self, x):
        return self._ask(x, None, False, lambda: (self.o.assess_feas(x), None, None, False))[0]

    def assess_optim(self, x, gamma):
        def f():
            c, g1 = self.o.assess_optim(x, gamma)
            return c, None, g1, False
        r = self._ask(x, gamma, False, f)
        return r[0], r[2]

    def assess_optim_q(self, x, gamma, retry):
        return self._ask(x, gamma, retry, lambda: self.o.assess_optim_q(x, gamma, retry))

    def _upd(self, kind, cut, f):
        same = self.cut is not None and np.array_equal(cut[0], self.cut[0]) and repr(cut[1]) == self.cut[1]
        st = self._inner(lambda: f(cut))
        t = self.s.tsq()
        self.ev.append(dict(ev="upd", kind=kind, cutsame=bool(same), st=st.name, x=xs(self.s.xc()),
                            size="below" if t < self.tol else "equal" if t == self.tol else "above"))
        return st

    def update_bias_cut(self, c):
        return self._upd("bias", c, self.s.update_bias_cut)

    def update_central_cut(self, c):
        return self._upd("central", c, self.s.update_central_cut)

    def update_q(self, c):
        return self._upd("q", c, self.s.update_q)


class Halfspaces:
    """Feasibility: A x <= b, deepest violated row; discrete: rounded points of a concave quadratic."""

    def __init__(self, rnd, n):
        self.A = np.array([[rnd.uniform(-1, 1) for _ in range(n)] for _ in range(n + 2)])
        self.x0 = np.array([rnd.uniform(-3, 3) for _ in range(n)])
        self.b = self.A @ self.x0 + np.array([rnd.choice([0.5, 0.1, 0.02, -0.05]) for _ in range(n + 2)])
        self.c = np.array([rnd.uniform(-1, 1) for _ in range(n)])
        self.par = rnd.random() < 0.4
        self.xd = None
        self.pts = 0

    def assess_feas(self, x):
        v = self.A @ x - self.b
        i = int(np.argmax(v))
        if v[i] <= 0:
            return None
        return (self.A[i].copy(), [float(v[i]), float(v[i]) + 4.0]) if self.par else (self.A[i].copy(), float(v[i]))

    def assess_optim(self, x, gamma):
        cut = self.assess_feas(x)
        if cut:
            return cut, None
        f = float(self.c @ x)
        if f < gamma:
            return (self.c.copy(), 0.0), f
        return (self.c.copy(), f - gamma), None

    def assess_optim_q(self, x, gamma, retry):
        if not retry:
            self.xd = np.round(x * 2) / 2
            self.pts = 0
        else:
            self.pts += 1
            self.xd = self.xd + 0.5 * (np.arange(len(x)) == self.pts % len(x))
        g = 2 * (self.xd - self.x0)
        f = float((self.xd - self.x0) @ (self.xd - self.x0))
        d = float(g @ (x - self.xd))
        if f < gamma:
            return (g + 1e-3, d), self.xd, f, self.pts < 2
        return (g + 1e-3, f - gamma + d), self.xd, None, self.pts < 2


def runs(seed, count):
    from ellalgo.ell import Ell
    from ellalgo.ell_stable import EllStable
    from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
    from ellalgo.oracles.lowpass_oracle import create_lowpass_case
    from ellalgo.oracles.lmi_oracle import LMIOracle
    rnd = random.Random(seed)
    traces, inner = [], {}
    for k in range(count):
        mode = ["feas", "optim", "optq"][k % 3]
        cls = rnd.choice([Ell, EllStable])
        n = rnd.choice([2, 3, 4])
        g0 = 1e9
        which = rnd.randrange(4)
        if mode == "optim" and which == 0:
            om = ProfitOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0])); n = 2; g0 = 0.0
            x0 = np.zeros(2); kap = 100.0
        elif mode == "optim" and which == 1:
            om = ProfitRbOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0]),
                                (0.003, 0.007, 1.0, 1.0, 1.0)); n = 2; g0 = 0.0
            x0 = np.zeros(2); kap = 100.0
        elif mode == "optq" and which <= 1:
            om = ProfitQOracle((20.0, 40.0, 30.5), np.array([0.1, 0.4]), np.array([10.0, 35.0])); n = 2; g0 = 0.0
            x0 = np.array([2.0, 0.0]); kap = 100.0
        elif mode == "optim" and which == 2:
            n = 6
            om = create_lowpass_case(n); g0 = om.sp_sq
            x0 = np.zeros(n); kap = 4.0
        else:
            om = Halfspaces(rnd, n)
            x0 = np.array([rnd.uniform(-1, 1) for _ in range(n)]); kap = rnd.choice([10.0, 100.0])
            g0 = rnd.choice([1e9, 3.0, 0.0, -1e9])
        sp = cls(kap, x0)
        opt = Options()
        opt.max_iters = rnd.choice([0, 1, 2, 7, 40, 120])
        opt.tolerance = rnd.choice([1e-20, 1e-8, 1e-2, 0.5, 20.0])
        r = Rec(om, sp, opt.tolerance)
        ev = r.ev
        ev.append(dict(ev="run", mode=mode, budget=opt.max_iters, x=xs(sp.xc()), gamma=hx(g0)))
        f = {"feas": lambda: cutting_plane_feas(r, r, opt), "optim": lambda: cutting_plane_optim(r, r, g0, opt),
             "optq": lambda: cutting_plane_optim_q(r, r, g0, opt)}[mode]
        ok, v = attempt(f)
        if not ok and r.inner:
            inner[r.inner] = inner.get(r.inner, 0) + 1
        elif not ok:
            ev.append(dict(ev="err", what=str(v)))
        else:
            x, g, nit = (v[0], None, v[1]) if mode == "feas" else v
            ev.append(dict(ev="end", x=xs(x), gamma="none" if g is None else hx(g), niter=int(nit)))
        traces.append(ev)
    return dict(traces=traces, inner=inner)


if __name__ == "__main__":
    what = sys.argv[2]
    if what == "replay":
        fails, n, var = [], 0, int(sys.argv[4])
        kinds = {}
        with open(sys.argv[3]) as f:
            for line in f:
                b = json.loads(line)
                n += 1
                e = replay(b, var * 1000003 + n)
                if e:
                    fails.append((b, e))
                    if len(fails) >= 20:
                        break
        emit(dict(count=n, fails=fails))
    else:
        emit(runs(int(sys.argv[3]), int(sys.argv[4])))
