"""Public operations on arrays the caller keeps.

ops                list of operations
script FILE SEED   call sequences of PurityModel.tla
"""
import copy, hashlib, json, random, sys
import numpy as np
from hcommon import attempt, emit
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
from ellalgo.ell_config import Options
from ellalgo.cutting_plane import (BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q)
from ellalgo.conjugate_gradient import conjugate_gradient
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact


def dig(v):
    """Text that determines the value exactly."""
    if v is None or isinstance(v, (bool, int, str)):
        return repr(v)
    if isinstance(v, (float, np.floating)):
        return float(v).hex()
    if isinstance(v, np.ndarray):
        return f"{v.dtype}{v.shape}" + hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()[:16]
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "(" + ",".join(dig(t) for t in v) + ")"
    if hasattr(v, "name"):
        return v.name
    if isinstance(v, np.generic):
        return repr(v.item())
    return type(v).__name__


class Box:
    """Feasible: lo <= x <= hi in every coordinate; the gradients are arrays of the caller."""
    def __init__(self, w, lo, hi, gam=None):
        self.G, self.lo, self.hi, self.c = w["G"], lo, hi, w["c"]

    def assess_feas(self, x):
        for i in range(len(x)):
            if x[i] > self.hi:
                return self.G[i], x[i] - self.hi
            if x[i] < self.lo:
                return -self.G[i], [self.lo - x[i], self.hi - x[i]]
        return None

    def assess_optim(self, x, gamma):
        cut = self.assess_feas(x)
        if cut:
            return cut, None
        f = float(self.c @ x)
        if f < gamma:
            return (self.c, 0.0), f
        return (self.c, f - gamma), None

    def assess_optim_q(self, x, gamma, retry):
        cut, v = self.assess_optim(x, gamma)
        return cut, x, v, False

    def update(self, gamma):
        self.hi = float(gamma)


def world(rnd, dim=None):
    n = dim or rnd.choice([2, 3, 3, 4, 6])
    ints = rnd.random() < 0.4
    f = lambda a: np.array(a, dtype=int) if ints else np.array(a, dtype=float)
    big = 1.0 if rnd.random() < 0.4 else 10.0 ** rnd.randint(-6, 8)      # scale of the shape
    gs = 1.0 if rnd.random() < 0.4 else 10.0 ** rnd.randint(-5, 5)       # scale of the gradients
    if ints:
        big, gs = int(max(big, 1)), int(max(gs, 1))
    x0 = f([rnd.randint(-2, 2) for _ in range(n)]) if ints else f([rnd.uniform(-1, 1) for _ in range(n)])
    val = f([rnd.randint(1, 16) for _ in range(n)]) if ints else f([rnd.uniform(4, 16) for _ in range(n)])
    g = f([rnd.choice([1, 2, -1, 3]) for _ in range(n)]) if ints else f([rnd.uniform(-1, 1) for _ in range(n)])
    val, g = val * big, g * gs
    tau = float(np.sqrt(np.sum(g.astype(float) ** 2 * val)))
    bt = [0.05, 1.0] if rnd.random() < 0.4 else [0.02 * tau, rnd.choice([0.3, 2.0]) * tau]
    w = dict(x0=x0, val=val, g=g, c=f([rnd.randint(1, 3) for _ in range(n)]) if ints else f([rnd.uniform(0.1, 1) for _ in range(n)]),
             G=f(np.eye(n)), beta1=list(bt), beta2=np.array(bt), b0=0.01 * tau, betaq=[-0.003 * tau, 0.1 * tau], kap=int(big) * 9 if ints else big * 9.0,
             pt=f([rnd.randint(0, 1) for _ in range(n)]) if ints else f([rnd.uniform(-1, 1) for _ in range(n)]))
    nn, n = n, 3
    S = lambda: (lambda M: M + M.T)(f([[rnd.randint(-3, 3) if ints else rnd.uniform(-1, 1) for _ in range(n)] for _ in range(n)]))
    w["F1"], w["F2"], w["F3"] = S(), S(), S()
    w["FF"] = [w["F1"], w["F2"], w["F3"]] + [S() for _ in range(3)]
    w["FF"] = w["FF"][:nn]
    w["B"] = S() + f(np.eye(n)) * 4
    w["A"] = f([[4, 1, 0], [1, 3, 1], [0, 1, 5]])
    w["Abad"] = f([[1, 2, 0], [2, 1, 1], [0, 1, 5]])
    w["rhs"] = f([1, 2, 3])
    w["guess"] = f([1, 0, 2])
    w["hh"] = f([8, 2, 1])
    w["rr"] = f([69, 18, 8])
    w["filt"] = np.array([0.5, 0.2, 0.1, 0.02]) * rnd.choice([1.0, -1.0, 0.1])
    w["filt2"] = np.array([rnd.uniform(0.15, 0.4), rnd.uniform(0.1, 0.3), rnd.uniform(-0.1, 0.2), rnd.uniform(-0.1, 0.1)])
    w["el"] = np.array([0.1, 0.4]) if not ints else np.array([0.1, 0.4])
    w["pr"] = f([10, 35])
    w["lx"] = f([1, 2]) if ints else np.array([rnd.uniform(-1, 3), rnd.uniform(-1, 3)])
    w["iv"] = [0.0, 4.0]
    return w


def spaces(w, cls):
    return cls(w["val"], w["x0"])


OPT = Options()
OPT.max_iters, OPT.tolerance = 60, 1e-10


def upd(cls, how, beta):
    def go(w, keep):
        s = spaces(w, cls)
        r = [getattr(s, how)((w["g"], b)) for b in (w[beta] if isinstance(beta, str) else beta, w["b0"])]
        return r, s.xc().copy(), s.tsq()
    return go


def scal(cls):
    def go(w, keep):
        s = cls(w["kap"], w["x0"])
        r = s.update_bias_cut((w["g"], w["b0"])), s.update_central_cut((w["g"], w["beta1"]))
        return r, s.xc().copy(), s.tsq()
    return go


def setxc(cls):
    def go(w, keep):
        s = spaces(w, cls)
        s.set_xc(w["pt"])
        r = s.update_bias_cut((w["g"], w["b0"]))
        return r, s.xc().copy()
    return go


def run(cls, fn):
    def go(w, keep):
        s = spaces(w, cls)
        if fn == "feas":
            x, k = cutting_plane_feas(Box(w, 0.1, 0.3), s, OPT)
            return None if x is None else x.copy(), k
        f = cutting_plane_optim if fn == "optim" else cutting_plane_optim_q
        x, v, k = f(Box(w, -1.5, 3.0), s, 1e9, OPT)
        keep("best-" + cls.__name__ + fn, x)
        again = f(Box(w, -1.4, 3.0), s, 1e9, OPT)      # the search goes on from the same space
        keep("best2-" + cls.__name__ + fn, again[0])
        return None if x is None else x.copy(), v, k
    return go


def adaptor(cls):
    def go(w, keep):
        a = BSearchAdaptor(Box(w, 0.1, 4.0), spaces(w, cls), OPT)
        o = Options()
        o.max_iters, o.tolerance = 20, 0.1
        v, k = bsearch(a, tuple(w["iv"]), o)
        return v, k, a.x_best.copy()
    return go


def lmi(cls):
    def go(w, keep):
        o = cls(w["FF"]) if cls is LMI0Oracle else cls(w["FF"], w["B"])
        r = []
        for x in (w["pt"], w["g"], w["pt"]):
            r.append(o.assess_feas(x))
            if r[-1] is not None:
                keep("cut", r[-1][0])
        return r
    return go


def ldlt(name, which):
    def go(w, keep):
        m = LDLTMgr(3)
        if name == "array":
            ok = m.factorize(w[which])
        elif name == "access":
            ok = m.factor(lambda i, j: w[which][i, j])
        else:
            ok = m.factor_with_allow_semidefinite(lambda i, j: w[which][i, j])
        return ok, m.sqrt() if ok else (m.witness(), m.sym_quad(w["F1"]))
    return go


def lowpass(w, keep):
    o = LowpassOracle(4, 0.12, 0.3, 0.9, 1.1, 0.1)
    res = []
    for x, gam in ((w["filt"], None), (w["filt"], 0.2), (w["filt2"], 0.3), (w["filt2"], 0.2), (w["filt"], 0.2)):
        r = (o.assess_feas(x), None) if gam is None else o.assess_optim(x, gam)
        if r[0] is not None:
            keep("cut", r[0][0])
            s = Ell(4.0, x)
            st = s.update_bias_cut(r[0]) if r[1] is None else s.update_central_cut(r[0])
            res.append((copy.deepcopy(r), st, s.xc().copy()))
    return res


def profit(kind):
    def go(w, keep):
        p = (20.0, 40.0, 30.5)
        if kind == "p":
            o = ProfitOracle(p, w["el"], w["pr"])
            f = [lambda: o.assess_optim(w["lx"], 0.0), lambda: o.assess_optim(w["lx"], 1e4), lambda: (o.assess_feas(w["lx"], 1.0), None)]
        elif kind == "rb":
            o = ProfitRbOracle(p, w["el"], w["pr"], (0.003, 0.007, 1.0, 1.0, 1.0))
            f = [lambda: o.assess_optim(w["lx"], 0.0), lambda: o.assess_optim(-w["lx"], 0.0), lambda: o.assess_optim(w["lx"], 0.0)]
        else:
            o = ProfitQOracle(p, w["el"], w["pr"])
            f = [lambda: o.assess_optim_q(w["lx"], 0.0, False), lambda: o.assess_optim_q(w["lx"], 0.0, True), lambda: o.assess_optim_q(w["lx"] + 0.3, 1e4, False),
                 lambda: o.assess_optim_q(np.array([1.2, 1.7]), 0.0, False), lambda: o.assess_optim_q(np.array([2.2, 2.5]), 0.0, False)]
        res = []
        for g in f:
            r = g()
            if r[0] is not None:
                keep("cut", r[0][0])
            if kind == "q":
                keep("plan", r[1])
            res.append(copy.deepcopy(r))
        return res
    return go


OPS = {}
for cls in (Ell, EllStable):
    n = cls.__name__
    OPS[n + ".bias"] = upd(cls, "update_bias_cut", "beta1")
    OPS[n + ".bias2"] = upd(cls, "update_bias_cut", "beta2")
    OPS[n + ".central"] = upd(cls, "update_central_cut", "beta1")
    OPS[n + ".q"] = upd(cls, "update_q", "betaq")
    OPS[n + ".scalar"] = scal(cls)
    OPS[n + ".set"] = setxc(cls)
    for fn in ("feas", "optim", "optim_q"):
        OPS[n + "." + fn] = run(cls, fn)
    OPS[n + ".bsearch"] = adaptor(cls)
for cls in (LMIOracle, LMIOldOracle, LMI0Oracle):
    OPS[cls.__name__] = lmi(cls)
for name in ("array", "access", "semi"):
    OPS["ldlt." + name] = ldlt(name, "A")
    OPS["ldlt.bad." + name] = ldlt(name, "Abad")
OPS["lowpass"] = lowpass
for k in ("p", "rb", "q"):
    OPS["profit." + k] = profit(k)
OPS["cg"] = lambda w, keep: conjugate_gradient(w["A"], w["rhs"], w["guess"])
OPS["cg0"] = lambda w, keep: conjugate_gradient(w["A"], w["rhs"])
OPS["sf"] = lambda w, keep: spectral_fact(w["rr"])
OPS["isf"] = lambda w, keep: inverse_spectral_fact(w["hh"])


def history(ops, rnd):
    w = world(rnd)
    held = dict(w)
    snap = lambda: {k: dig(v) for k, v in held.items()}
    out = [dict(ev="new", op="new", after=snap(), given=dict(none=""), res="")]

    def call(op):
        given = dict(none="")

        def keep(name, x):
            if x is not None:
                name = f"{name}#{len(held)}"
                held[name] = x
                given[name] = dig(x)
        ok, r = attempt(OPS[op], w, keep)
        out.append(dict(ev="call", op=op, after=snap(), given=given, res=dig(r) if ok else "raised " + str(r)))
    for op in ops:
        call(op)
    for op in ops:
        call(op)
    return out


def script(path, seed):
    rnd = random.Random(seed)
    return [history(json.loads(line), rnd) for line in open(path)]


if __name__ == "__main__":
    emit(sorted(OPS) if sys.argv[2] == "ops" else script(sys.argv[3], int(sys.argv[4])))
