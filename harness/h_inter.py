"""Two independent instances side by side.

kinds                    list of kinds
solo KIND SEED           results of one instance alone (fresh interpreter)
script FILE SEED SOLO    interleavings of Interleave.tla; SOLO: file with the solo results
defaults                 calls without options
"""
import json, random, sys
import numpy as np
from hcommon import attempt, emit
import h_purity as hp
from h_purity import dig
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
from ellalgo.ell_calc import EllCalc
from ellalgo.ell_config import CutStatus, Options
from ellalgo.cutting_plane import (BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q)
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle

STEPS = 4


class Inst:
    """kind + seed -> a script of STEPS steps (the first creates the object)."""
    def __init__(self, kind, seed):
        self.rnd = random.Random(seed)
        self.w = hp.world(self.rnd, 3)
        self.kind, self.k, self.held = kind, 0, []
        self.u = [self.rnd.uniform(0.01, 0.4) for _ in range(STEPS)]

    def step(self):
        ok, r = attempt(getattr(self, "do_" + self.kind), self.k)
        self.k += 1
        if ok:
            self.held.append(r)     # results the caller keeps are looked at again after every step
        return "; ".join(dig(h) for h in self.held) + ("" if ok else "; raised " + str(r))

    def _space(self, k, cls):
        if k == 0:
            self.o = cls(self.w["val"], self.w["x0"])
            if self.rnd.random() < 0.3:
                self.o.no_defer_trick = True
            if self.rnd.random() < 0.3:
                self.o.helper.use_parallel_cut = False
        else:
            f = [self.o.update_bias_cut, self.o.update_central_cut, self.o.update_q][(k + int(self.u[0] * 100)) % 3]
            g = self.w["g"] + self.u[k]
            st = f((g, [self.u[k], self.u[k] + 1.0] if self.u[0] < 0.2 else self.u[k]))
            return st, self.o.xc().copy(), self.o.tsq()

    def do_ell(self, k):
        return self._space(k, Ell)

    def do_stable(self, k):
        return self._space(k, EllStable)

    def do_calc(self, k):
        if k == 0:
            self.o = EllCalc(self.rnd.choice([2, 3, 5]))
            self.o.use_parallel_cut = self.rnd.random() < 0.5
        else:
            return self.o.calc_single_or_parallel([self.u[k] / 2, self.u[k] + 0.1], 1.3), self.o.calc_single_or_parallel_q(-self.u[k] / 10, 2.0), self.o.calc_single_or_parallel_central_cut([0.0, self.u[k]], 1.0)

    def do_ldlt(self, k):
        if k == 0:
            self.o = LDLTMgr(3)
        else:
            A = self.w[["A", "Abad", "F1", "B"][(k + int(self.u[0] * 100)) % 4]]
            ok = self.o.factorize(A)
            return (ok, self.o.sqrt()) if ok else (ok, self.o.witness(), self.o.wit[self.o.pos[0]:self.o.pos[1]].copy(), self.o.sym_quad(self.w["F2"]))

    def do_ldlt_fine(self, k):
        m = self.rnd.choice(["factorize", "factor", "semi"]) if k in (1, 3) else None
        if k == 0:
            self.o = LDLTMgr(3)
        elif m:
            A = self.w[self.rnd.choice(["A", "Abad", "F1", "B"])]
            if m == "factorize":
                return self.o.factorize(A)
            return getattr(self.o, "factor" if m == "factor" else "factor_with_allow_semidefinite")(lambda i, j: A[i, j])
        else:
            return self.o.sqrt() if self.o.is_spd() else (self.o.witness(), self.o.wit[self.o.pos[0]:self.o.pos[1]], self.o.sym_quad(self.w["F2"]))

    def do_ldlt_late(self, k):
        if k == 0:
            self.o = LDLTMgr(3)
        elif k == 1:
            return self.o.factorize(self.w["A" if self.u[0] < 0.2 else "Abad"])
        elif k == 2:
            return self.o.sqrt() if self.o.is_spd() else self.o.witness()
        else:
            return self.o.sqrt() if self.o.is_spd() else self.o.sym_quad(self.w["F1"])

    def _lmi(self, k, cls):
        F = [self.w["F1"], self.w["F2"], self.w["F3"]]
        if k == 0:
            self.o = cls(F) if cls is hp.LMI0Oracle else cls(F, self.w["B"])
        else:
            return self.o.assess_feas(self.w["pt"] * self.u[k] * 3)

    def do_lmi(self, k):
        return self._lmi(k, hp.LMIOracle)

    def do_lmiold(self, k):
        return self._lmi(k, hp.LMIOldOracle)

    def do_lmi0(self, k):
        return self._lmi(k, hp.LMI0Oracle)

    def do_lowpass(self, k):
        if k == 0:
            self.o = LowpassOracle(4, 0.12, 0.3, 0.4, 1.6, 0.2 + self.u[0])
        else:
            x = np.array([1.0, 0.1, 0.05, 0.02]) * (1 + self.u[k]) if self.u[k] < 0.3 else self.w["filt"]
            r = self.o.assess_feas(x) if k % 2 else self.o.assess_optim(x, 0.1 + self.u[k])
            return r

    def do_profit(self, k):
        if k == 0:
            self.o = ProfitOracle((20.0, 40.0 + self.u[0], 30.5), self.w["el"], self.w["pr"])
        else:
            return self.o.assess_optim(np.array([3.0 + 2 * self.u[k], 4.0]), 100 * self.u[k])

    def do_profitrb(self, k):
        if k == 0:
            self.o = ProfitRbOracle((20.0, 40.0 + self.u[0], 30.5), self.w["el"], self.w["pr"], (0.003, 0.007, 1.0, 1.0, 1.0))
        else:
            return self.o.assess_optim(np.array([(-1) ** k * 10 * self.u[k], 4 * self.u[k] - 1]), 10 * self.u[k])

    def do_profitq(self, k):
        if k == 0:
            self.o = ProfitQOracle((20.0, 40.0 + self.u[0], 30.5), self.w["el"], self.w["pr"])
        else:
            return self.o.assess_optim_q(np.array([3.0 + 2 * self.u[k], 4 + self.u[k]]), 100 * self.u[k], k > 1 and self.u[k] < 0.2)

    def do_adaptor(self, k):
        if k == 0:
            self.o = BSearchAdaptor(hp.Box(self.w, 0.1, 4.0), (Ell if self.u[1] < 0.2 else EllStable)(self.w["val"], self.w["x0"]))
        elif k == 1 and self.u[0] < 0.2:
            self.o.options.max_iters = 5
            return self.o.options.max_iters
        else:
            return self.o.assess_bs(0.15 + self.u[k]), self.o.x_best.copy(), self.o.options.max_iters, self.o.options.tolerance

    def do_options(self, k):
        if k == 0:
            self.o = Options()
        elif k == 1:
            self.o.max_iters, self.o.tolerance = int(self.u[1] * 40) + 1, self.u[1]
        else:
            x, n = cutting_plane_feas(hp.Box(self.w, 0.1, 0.2), Ell(self.w["val"], self.w["x0"]), self.o)
            return x is None, n, self.o.max_iters, self.o.tolerance

    def _run(self, k, fn):
        if k == 0:
            self.o = (Ell if self.u[1] < 0.2 else EllStable)(self.w["val"], self.w["x0"])
        elif k in (1, 2):
            hi = 0.2 + self.u[k] if fn != "feas" else 0.11 + self.u[k] / 4
            if fn == "feas":
                x, n = cutting_plane_feas(hp.Box(self.w, 0.1, hi), self.o)
                return None if x is None else x.copy(), n
            f = cutting_plane_optim if fn == "optim" else cutting_plane_optim_q
            return f(hp.Box(self.w, -1.5, hi), self.o, 1e9)
        else:
            return self.o.xc().copy(), self.o.tsq()

    def do_feas(self, k):
        return self._run(k, "feas")

    def do_optim(self, k):
        return self._run(k, "optim")

    def do_optimq(self, k):
        return self._run(k, "optim_q")

    def do_funcs(self, k):
        ops = ["cg", "cg0", "sf", "isf"]
        return hp.OPS[ops[k % 4]](self.w, lambda *a: None)

    def do_bsearch(self, k):
        class O:
            def __init__(s, t):
                s.t = t

            def assess_bs(s, g):
                return g > s.t
        return bsearch(O(self.u[k]), (0.0, 1.0))


KINDS = sorted(n[3:] for n in dir(Inst) if n.startswith("do_"))


def solo(kind, seed):
    i = Inst(kind, seed)
    return [i.step() for _ in range(STEPS)]


def script(path, solos):
    out = []
    for n, line in enumerate(open(path)):
        b = json.loads(line)
        sa, sb = b["sa"], b["sb"]
        inst = {1: Inst(b["a"], sa), 2: Inst(b["b"], sb)}
        name = {1: b["a"], 2: b["b"]}
        ev = [dict(ev="new", solo=[solos[f"{b['a']}/{sa}"], solos[f"{b['b']}/{sb}"]])]
        for i in b["seq"]:
            ev.append(dict(ev="step", i=i, kind=name[i], other=name[3 - i], res=inst[i].step()))
        out.append(ev)
    return out


class Endless:
    """A scripted space: every cut succeeds, sizes as given, then 1."""
    def __init__(self, sizes=()):
        self.s, self.k, self.asked = list(sizes), 0, 0

    def xc(self):
        return np.zeros(2)

    def _u(self, cut):
        self.k += 1
        return CutStatus.Success
    update_bias_cut = update_central_cut = update_q = _u

    def tsq(self):
        return self.s[self.k - 1] if self.k <= len(self.s) else 1.0

    def assess_feas(self, x):
        self.asked += 1
        return np.ones(2), 0.1

    def assess_optim(self, x, g):
        return self.assess_feas(x), None

    def assess_optim_q(self, x, g, r):
        return self.assess_feas(x), x, None, True

    def assess_bs(self, g):
        self.asked += 1
        return True


def defaults():
    out = [[dict(ev="new", solo=[[], []])]]
    runs = dict(cutting_plane_feas=lambda s: cutting_plane_feas(s, s), cutting_plane_optim=lambda s: cutting_plane_optim(s, s, 0.0),
                cutting_plane_optim_q=lambda s: cutting_plane_optim_q(s, s, 0.0),
                adaptor=lambda s: (lambda a: cutting_plane_feas(s, s, a.options))(BSearchAdaptor(s, s)))
    for name, f in list(runs.items()) * 2:
        s = Endless()
        ok, r = attempt(f, s)
        t = Endless([2e-20, 1e-20, 9.9e-21, 1.0])
        ok2, r2 = attempt(f, t)
        out[0].append(dict(ev="default", kind=name, iters=int(r[-1]) if ok else -1, asked=s.asked,
                           stopped=bool(ok2 and r2[-1] < 2000), at=t.k))
    # binary search: the budget through a bracket that never gets narrow
    for _ in range(2):
        s = Endless()
        s.assess_bs = lambda g: (setattr(s, "asked", s.asked + 1), g > 1 + 2.0 ** -52)[1]
        ok, r = attempt(bsearch, s, (1.0, 2.0))
        t = Endless()
        t.assess_bs = lambda g: (setattr(t, "asked", t.asked + 1), False)[1]
        ok2, r2 = attempt(bsearch, t, (0.0, 8e-20))     # half-widths 4e-20, 2e-20, 1e-20, 5e-21
        out[0].append(dict(ev="default", kind="bsearch", iters=int(r[-1]) if ok else -1, asked=s.asked, stopped=bool(ok2 and r2[-1] < 2000), at=t.asked))
    # a caller's options stay as they are
    for name, f in dict(cutting_plane_feas=lambda s, o: cutting_plane_feas(s, s, o), cutting_plane_optim=lambda s, o: cutting_plane_optim(s, s, 0.0, o),
                        cutting_plane_optim_q=lambda s, o: cutting_plane_optim_q(s, s, 0.0, o), bsearch=lambda s, o: bsearch(s, (0.0, 1.0), o),
                        adaptor=lambda s, o: BSearchAdaptor(hp.Box(hp.world(random.Random(1), 3), 0.1, 4.0), Ell(9.0, np.zeros(3)), o).assess_bs(0.15)).items():
        for it, tol in ((7, 1e-3), (2500, 1e-30), (0, 0.0), (3, 5.0)):
            o = Options()
            o.max_iters, o.tolerance = it, tol
            attempt(f, Endless([1.0, 0.5, 2e-4]), o)
            out[0].append(dict(ev="options", kind=name, same=bool(o.max_iters == it and o.tolerance == tol), fresh=bool(Options().max_iters == 2000 and Options().tolerance == 1e-20)))
    return out


if __name__ == "__main__":
    a = sys.argv
    if a[2] == "kinds":
        emit(KINDS)
    elif a[2] == "solo":
        emit(solo(a[3], int(a[4])))
    elif a[2] == "defaults":
        emit(defaults())
    else:
        emit(script(a[3], json.load(open(a[5]))))
