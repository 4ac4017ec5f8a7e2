"""Replays the requests of DynGen.tla on the drivers of dynamics.py: real systems of subclasses that log
every call a driver makes on them (calls of calls, and calls on copies, are not logged)."""
import inspect
import numpy as np
import vt
from vt import cx, fx, opm
import drv_uni as du
from drv_finite import snap, rtens
from drv_flow import Flow, terms, wcond
import evoMPS.tdvp_uniform as tu
import evoMPS.tdvp_gen as tg
import evoMPS.dynamics as dy


class Log(object):
    """what the system in use was asked to do"""
    target = None

    def begin(self, s, rec, quiet=False):
        self.target, self.rec, self.quiet = s, rec, quiet
        self.depth, self.vers, self.last, self.upd = 0, {}, None, None
        self.tol = self.etol = -1.0
        self.lastB = self.lastCG = None

    def end(self):
        self.target = None

    def fp(self, A):
        return b"".join(b"0" if a is None else vt.dense(a).tobytes() + str(vt.dense(a).shape).encode() for a in A)

    def ver(self):
        s = self.target
        k = self.fp(s.A if self.uniform() else list(s.A)[1:])
        return self.vers.setdefault(k, len(self.vers))

    def uniform(self):
        return isinstance(self.target, tu.EvoMPS_TDVP_Uniform)

    def D(self):
        return [int(self.target.D)] if self.uniform() else [int(d) for d in self.target.D]

    def energy(self):
        s = self.target
        return fx((s.h_expect if self.uniform() else s.H_expect).real)

    def which(self, B, last):
        if B is None:
            return "none"
        return "last" if last is not None and self.fp(list(B)) == last else "other"

    def flags(self):
        eta = complex(self.target.eta).real
        return dict(lt=int(eta < self.tol), lx=int(eta < self.etol))


LOG = Log()


def spied(name, s, sup, args, kw):
    if LOG.target is not s or LOG.depth:
        return sup(*args, **kw)
    b = inspect.signature(sup).bind(*args, **kw)
    b.apply_defaults()
    g = b.arguments
    e = dict(op=name, v0=LOG.ver())
    if name in ("step", "rk4"):
        B = g.get("B") if name == "step" else g.get("B_i")
        e.update(dt=cx(g["dtau"]), B=LOG.which(B, LOG.lastB), dyn=int(bool(g.get("dynexp"))),
                 Dmax=int(g.get("D_max", 0)), dDmax=int(g.get("dD_max", 0)), tol=int(g.get("sv_tol", 0) == getattr(LOG, "svtol", None)))
    elif name == "update":
        e.update(restore=int(bool(g["restore_CF"])), trunc=int(bool(g["auto_truncate"])))
    elif name == "calcCG":
        e.update(reset=int(bool(g["reset"])), init=fx(g["tau_init"]), h=fx(g["tau0"]), bdot=fx(g["BG0dotBG0"]),
                 BCG=LOG.which(g["BCG0"], LOG.lastB), Bg=LOG.which(g["BG0"], LOG.lastCG))
    LOG.depth += 1
    try:
        res = sup(*args, **kw)
    finally:
        LOG.depth -= 1
    e.update(v=LOG.ver(), D=LOG.D())
    if name == "update":
        e["h"] = LOG.energy()
        LOG.upd = e["v"]
    elif name == "calcB":
        LOG.lastB = LOG.lastCG = LOG.fp(list(res))
        e.update(LOG.flags())
    elif name == "calcCG":
        LOG.lastB, LOG.lastCG = LOG.fp(list(res[0])), LOG.fp(list(res[1]))
        e["out"] = [fx(complex(res[2]).real), fx(complex(res[3]).real)]
        e.update(LOG.flags())
        LOG.upd = e["v"]
    if not LOG.quiet:
        LOG.rec.ev.append(e)
    return res


class Spy(object):
    def update(self, *a, **k):
        return spied("update", self, super(Spy, self).update, a, k)

    def calc_B(self, *a, **k):
        return spied("calcB", self, super(Spy, self).calc_B, a, k)

    def calc_B_CG(self, *a, **k):
        return spied("calcCG", self, super(Spy, self).calc_B_CG, a, k)

    def take_step(self, *a, **k):
        return spied("step", self, super(Spy, self).take_step, a, k)

    def take_step_RK4(self, *a, **k):
        return spied("rk4", self, super(Spy, self).take_step_RK4, a, k)


class USpy(Spy, tu.EvoMPS_TDVP_Uniform):
    pass


class FSpy(Spy, tg.EvoMPS_TDVP_Generic):
    pass


def usys(rs, c):
    L, q, D = c["L"], c["q"], c["D"]
    for _ in range(20):
        h = vt.herm(rs, q * q, "c")
        h = h / max(np.linalg.norm(h, 2), 1e-3)
        A = du.rstate(rs, L, q, D, "c", lmin=2e-3)
        s = USpy(D, q, h.reshape((q,) * 4), L=L, do_update=False)
        for k in range(L):
            s.A[k][:] = A[k]
        s.update()
        if c["init"] == "low":
            for _ in range(25):
                s.take_step(0.1)
                s.update()
        lam = np.linalg.eigvals(du.transfer(s.A)) if False else None
        if np.isfinite(s.h_expect.real):
            return s
    raise vt.Abandon()


def fsys(rs, c, complete=False):
    N, q, D, k = c["L"], c["q"], c["D"], c["hs"]
    qs = [q] * N
    while int(np.prod(qs)) > 27:
        qs[rs.randint(N)] = 2
    H = []
    for n in range(N - k + 1):
        d = int(np.prod(qs[n:n + k]))
        h = vt.herm(rs, d, "c")
        H.append(np.ascontiguousarray((h * 0.7 / max(np.linalg.norm(h, 2), 1e-3)).reshape(tuple(qs[n:n + k]) * 2)))
    Ds = [1] + [D] * (N - 1) + [1]
    for n in range(N - 1, 0, -1):
        Ds[n] = min(Ds[n], Ds[n + 1] * qs[n])
    for n in range(1, N):
        Ds[n] = min(Ds[n], Ds[n - 1] * qs[n - 1])
    best, bw = None, -1
    for _ in range(60):
        A = rtens(rs, qs, Ds, "c", 1.0)
        w = wcond(A)
        if w > bw:
            best, bw = A, w
        if w > 4e-3:
            break
    s = FSpy(N, list(Ds), [0] + qs, [None] + H + [None] * (N - len(H)), ham_sites=k)
    s.set_state_from_tensors(best, do_update=False)
    s.update()
    return s, H, qs


TOLS = {0: 0.0, 1: 0.05, 2: 0.3, 3: 0.7, 9: 100.0}


class Case(object):
    def __init__(self, rec, c, rs):
        self.rec, self.c, self.rs = rec, c, rs

    def cb(self, sys, i, **kw):
        e = dict(op="cb", same=int(sys is LOG.target), i=int(i), v0=LOG.ver(), v=LOG.ver(), D=LOG.D())
        if "tau" in kw:
            e["tau"] = fx(kw["tau"])
        if "h" in kw:
            e["hs"] = fx(kw["h"])
        self.rec.ev.append(e)

    def begin(self, s, drv, **p):
        LOG.begin(s, self.rec)
        self.rec.note("begin", drv=drv, p=p, v=LOG.ver(), D=LOG.D(), h=LOG.energy())

    def run(self, f, ret):
        """the driver, then what it returned"""
        rec, n = self.rec, None
        box = []
        rec.call("ret", lambda: box.append(f()), None)
        e = rec.ev[-1]
        # rec.call appended the event after those of the calls
        if "exc" in e and e["exc"].startswith("EvoMPSNoConvergence"):
            e["op"], e["why"] = "gaveup", e.pop("exc")
        elif "exc" not in e:
            e.update(same=1, v0=LOG.ver(), v=LOG.ver(), D=LOG.D())
            e.update(ret(box[0]))
        LOG.end()

    def go(self):
        c = self.c
        getattr(self, {"evolve": "evolve", "im": "im", "cg": "cg", "gd": "gd", "ground": "ground", "ode": "ode", "odeold": "ode"}[c["drv"]])()

    def opts(self, names):
        """leave out a parameter now and then where the default is what is asked for"""
        return names

    def evolve(self):
        c, rs = self.c, self.rs
        s = usys(rs, c) if c["sys"] == "u" else fsys(rs, c)[0]
        dt = c["dt"] / 1000.0
        t = round((c["n"] + c["frac"] / 10.0) * dt, 8)
        kw = dict(dt=dt, integ=c["integ"], dynexp=bool(c["dyn"]), D_max=c["Dmax"], dD_max=c["dDmax"], auto_truncate=bool(c["trunc"]))
        LOG.svtol = 1e-14
        if rs.randint(2):
            LOG.svtol = kw["sv_tol"] = 1e-9
        if c["cb"]:
            kw["cb_func"] = self.cb
        self.begin(s, "evolve", n=c["n"], dt=fx(dt), dt2=fx(dt ** 2), integ=c["integ"].lower(), dyn=c["dyn"], Dmax=c["Dmax"], dDmax=c["dDmax"],
                   trunc=c["trunc"], cb=int(c["cb"] > 0), q=[] if c["sys"] == "u" else [int(q) for q in s.q[1:s.N + 1]], wait=0)
        self.run(lambda: dy.evolve(s, t, **kw), lambda r: dict(same=int(r is s)))

    def limits(self, s):
        c = self.c
        s.calc_B()
        eta = complex(s.eta).real
        tol, etol = TOLS[c["tol"]] * (1.0 if c["tol"] == 9 else eta), TOLS.get(c["etol"], 1e-2) * (1.0 if c["etol"] == 9 else eta)
        return tol, etol

    def im(self):
        c, rs = self.c, self.rs
        s = usys(rs, c)
        tol, etol = self.limits(s)
        D = c["D"]
        base = c["dt"] / 1000.0
        dt0 = base if c["dt0"] < 0 else c["dt0"] / 1000.0
        target = D if c["target"] < 0 else D + c["target"]
        kw = dict(tol=tol, dtau_base=base, dtau0=None if c["dt0"] < 0 else dt0, max_itr=c["n"], auto_trunc=bool(c["trunc"]), auto_dtau=bool(c["auto"]),
                  expand_to_D=None if c["target"] < 0 else target, expand_tol=etol, expand_step=c["estep"], expand_wait_steps=c["wait"])
        if c["cb"]:
            kw["cb_func"] = self.cb
        self.begin(s, "im", max=c["n"], base=fx(base), dt0=fx(dt0), auto=c["auto"], target=target, estep=c["estep"], wait=c["wait"],
                   trunc=c["trunc"], cb=int(c["cb"] > 0), fine=int(max(base, dt0) <= 0.1))
        LOG.tol, LOG.etol = tol, etol
        self.run(lambda: dy.opt_im_time(s, **kw), lambda r: dict(same=int(r[0] is s), n=int(r[1]), tau=fx(r[2]), dtau=fx(r[3])))

    def cg(self):
        c, rs = self.c, self.rs
        s = usys(rs, c)
        tol, _ = self.limits(s)
        h = c["dt"] / 1000.0
        kw = dict(tol=tol, h_init=h, h0_prev=None if c["dt0"] < 0 else c["dt0"] / 1000.0, reset_every=c["reset"], max_itr=c["n"],
                  return_B_grad=bool(c["retB"]))
        if c["cb"]:
            kw["cb_func"] = self.cb
        self.begin(s, "cg", max=c["n"], base=fx(h), h0=-1 if c["dt0"] < 0 else fx(c["dt0"] / 1000.0), reset=c["reset"], retB=c["retB"],
                   cb=int(c["cb"] > 0), wait=0)
        LOG.tol = tol
        self.run(lambda: dy.opt_conj_grad(s, **kw), lambda r: dict(same=int(r[0] is s), n=int(r[1]), h0=fx(r[2]),
                                                                   Bg="" if len(r) < 4 else LOG.which(r[3], LOG.lastCG)))

    def gd(self):
        c, rs = self.c, self.rs
        s = usys(rs, c)
        tol, _ = self.limits(s)
        kw = dict(tol=tol, h_init=c["dt"] / 1000.0, max_itr=c["n"], im_gap=c["gap"], gap_every=c["every"])
        if c["cb"]:
            kw["cb_func"] = self.cb
        self.begin(s, "gd", max=c["n"], target=c["D"], estep=0, wait=0, cb=int(c["cb"] > 0), fine=1)
        LOG.tol = tol
        self.run(lambda: dy.opt_grad_descent(s, **kw), lambda r: dict(same=int(r[0] is s), n=int(r[1])))

    def ground(self):
        c, rs = self.c, self.rs
        s = usys(rs, c)
        tol, etol = self.limits(s)
        target = c["D"] if c["target"] < 0 else c["D"] + c["target"]
        kw = dict(tol=tol, h_init=c["dt"] / 1000.0, max_itr=c["n"], expand_to_D=None if c["target"] < 0 else target, expand_step=c["estep"],
                  reset_every=c["reset"])
        if c["etol"] >= 0:
            kw["expand_tol"] = etol
        if c["cb"]:
            kw["cb_func"] = self.cb
        self.begin(s, "ground", max=c["n"], target=target, estep=c["estep"], wait=0, cb=int(c["cb"] > 0), fine=1)
        LOG.tol = tol
        self.run(lambda: dy.find_ground(s, **kw), lambda r: dict(same=int(r is s)))

    def ode(self):
        c, rs, rec = self.c, self.rs, self.rec
        s, H, qs = fsys(rs, c)
        old = c["drv"] == "odeold"
        N = s.N
        comp = int(all(s.D[n] == min(int(np.prod(qs[:n])), int(np.prod(qs[n:]))) for n in range(1, N)))
        T = c["tmax"] / 1000.0
        dt = c["dt"] / 1000.0
        n = min(c["n"], 6) if old else c["n"]
        LOG.begin(s, rec, quiet=True)
        rec.note("begin", drv="ode", v=LOG.ver(), D=LOG.D(), h=LOG.energy(), out=snap(s),
                 p=dict(h=terms(H), k=c["hs"], T=fx(n * dt if old else T), dt=fx(dt), max=n, complete=comp, old=int(old), cb=c["cb"], wait=0))

        box = []

        def cb(sys, igr, i):
            box[:] = [igr]
            rec.ev.append(dict(op="cb", same=int(sys is s), i=int(i), t=fx(igr.t), upd=LOG.upd, v=LOG.ver(), out=snap(s)))
        f = cb if c["cb"] else None
        if old:
            f2 = lambda: dy.evolve_scipy_ode_old(s, dt, n, rtol=1e-7, atol=1e-9, callback=f, integrator="zvode")
        else:
            f2 = lambda: dy.evolve_scipy_ode(s, T, n, rtol=1e-7, atol=1e-9, callback=f)
        rec.call("ret", f2, None)
        rec.ev[-1].update(upd=LOG.upd, v=LOG.ver(), out=snap(s), t=fx(box[0].t if box else n * dt if old else T))
        LOG.end()


def handler(rec, c, rs):
    rec.cfg = dict(kind="dyn")
    Case(rec, c, rs).go()


if __name__ == "__main__":
    vt.main(handler)
