"""Replays histories of UniGen.tla (families uenergy, uflow) on tdvp_uniform.py and mps_uniform_pinv.py."""
import copy
import numpy as np
import vt
from vt import mat, ten, cx, fx, opm
import drv_uni as du
from drv_uni import gap, good, transfer
import evoMPS.tdvp_uniform as tu
import evoMPS.mps_uniform_pinv as pv
import scipy.sparse.linalg as las

XMAX = 60.0


def snapk(s):
    d = du.snap(s)
    d["K"] = [mat(x) for x in s.K]
    d["he"] = cx(s.h_expect)
    return d


def dn(x):
    return vt.dense(x).astype(complex)


def bten(B):
    return [ten(b) for b in B]


def join(A, a, n):
    """product of n neighbouring tensors from site a on (any integer), physical indices joined"""
    L = len(A)
    T = A[a % L]
    for j in range(1, n):
        T = np.einsum("sij,tjk->stik", T, A[(a + j) % L]).reshape((-1,) + A[0].shape[1:])
    return T


class World(du.World):
    def __init__(self, rec, c, rs):
        c = dict(c, cls="tdvp")
        self.hk = c["hk"]
        du.World.__init__(self, rec, c, rs)
        self.cls = tu.EvoMPS_TDVP_Uniform

    # ---- Hamiltonians
    def newham(self, m, kind):
        """the term as an array, the form handed to the code, tensor-product form, its one-site generator"""
        q, rs = self.q, self.rs
        dt = "c" if self.dt == "c" else "r"
        one = tp = None
        if self.c["hform"] == "one":
            a = [vt.herm(rs, q, dt, 1.0) for _ in range(m)]
            one = sum(a)
            h = sum(np.kron(np.kron(np.eye(q ** j), a[j]), np.eye(q ** (m - j - 1))) for j in range(m))
            if kind == "tp":
                tp = [[a[0], np.eye(q)], [np.eye(q), a[1]]]
        elif kind == "tp":
            tp = [[vt.herm(rs, q, dt, 1.0), vt.herm(rs, q, dt, 1.0)] for _ in range(rs.randint(1, 4))]
            h = sum(np.kron(a, b) for a, b in tp)
        else:
            h = vt.herm(rs, q ** m, dt, 1.0)
        if self.dt == "f":
            h = h.real.copy()
            tp = None if tp is None else [[a.real.copy(), b.real.copy()] for a, b in tp]
        elif tp is not None:
            tp = [[a + 0j, b + 0j] for a, b in tp]
        h = np.ascontiguousarray(h)
        self.h, self.m, self.one, self.tp = h, m, one, tp
        arr = h.reshape((q,) * (2 * m))
        if kind == "call" and self.dt != "f":
            return du.as_callable(arr)
        return arr

    def hfields(self):
        return dict(h=mat(self.h), m=int(self.m))

    def plain(self, s=None):
        return du.snap(s or self.s)

    def start(self):
        c, rs, rec = self.c, self.rs, self.rec
        L, q, D = self.L, self.q, self.D
        kind = self.hk
        init = c["init"]
        self.rank = None
        hm = self.newham(c["hs"], kind)
        sites = dict(ham_sites=c["hs"]) if callable(hm) else {}
        if init == "from" and self.tp is None:
            A = self.usual()
            u = rs.randint(2)
            f = lambda: self.cls.from_tensors(A, hm, do_update=bool(u), **sites)
            self.s = rec.call("from", f, lambda s: snapk(s) if u else self.plain(s), stop=True, T=bten(A), upd=int(u), **self.hfields())
            self.tune(self.s)
        else:
            s = self.cls(D, q, hm, L=L, dtype=self.typ, do_update=False, **sites)
            self.tune(s)
            if self.tp is not None:
                s.ham_tp = self.tp
            if init == "lowrank" and c["fam"] == "uenergy":
                self.rank = rs.randint(1, D + 1)
                core = du.rstate(rs, L, q, self.rank, self.dt)
                A = [np.zeros((q, D, D), dtype=self.typ) for _ in core]
                for a, b in zip(A, core):
                    a[:, :self.rank, :self.rank] = b
                A = du.gauged(rs, A, self.dt)
                s.zero_tol = 1e-9
            else:
                A = self.usual()
            for k in range(L):
                s.A[k][:] = A[k]
            self.s = s
            rec.note("start", out=self.plain(), **self.hfields())
        self.update(1, 0)

    def usual(self):
        A = du.rstate(self.rs, self.L, self.q, self.D, self.dt, lmin=2e-3 if self.c["fam"] == "uflow" else du.LMIN)
        if self.dt == "f":
            return [a.real.copy() for a in A]
        return [a + 0j for a in A]

    def update(self, r, t, op="update", **kw):
        s = self.s
        if self.rank is not None and self.rank < s.D and r and t:
            trunc = 1
        else:
            trunc = 0
        t2 = bool(t and r)
        self.rec.call(op, lambda: s.update(restore_CF=bool(r), auto_truncate=t2), lambda _: snapk(s),
                      stop=True, restore=int(r), symm=int(s.symm_gauge), trunc=trunc, **kw)
        if trunc:
            self.rank = None

    def poke(self):
        self.check()
        self.rec.note("poke", out=self.plain())

    # ---- witnesses
    def full(self, lmin=1e-3, s=None):
        s = s or self.s
        return good([np.asarray(a, dtype=complex) for a in s.A], lmin=lmin)

    def force(self, s, k, w):
        """gradient with respect to sites k..k+w-1 (k from 0) of the terms"""
        A = [np.asarray(a, dtype=complex) for a in s.A]
        l, r, K = [dn(x) for x in s.l], [dn(x) for x in s.r], [dn(x) for x in s.K]
        L, q, m, h = s.L, s.q, self.m, self.h
        F = np.zeros((q ** w,) + A[0].shape[1:], dtype=complex)
        if w == 1:
            F += np.array([l[k - 1].dot(a).dot(K[(k + 1) % L]) for a in A[k]])
        one = np.eye(A[0].shape[1])[None, :, :]
        for j in range(k + w - m, k + 1):
            T = join(A, j, m)
            C = np.einsum("st,tij->sij", h, T)
            La = join(A, j, k - j) if k > j else one
            Rb = join(A, k + w, j + m - k - w) if j + m > k + w else one
            C = C.reshape((La.shape[0], q ** w, Rb.shape[0]) + C.shape[1:])
            F += np.einsum("aji,jk,asbkl,lm,bnm->sin", La.conj(), l[(j - 1) % L], C, r[(j + m - 1) % L], Rb.conj())
        return F

    def xwit(self, B, s=None):
        """X_k with l B r - F = X A r, for every site; [] when these are too large for the arithmetic"""
        s = s or self.s
        if not self.full(s=s):
            return []
        res = []
        for k in range(s.L):
            A, l, r = np.asarray(s.A[k], dtype=complex), dn(s.l[k - 1]), dn(s.r[k])
            R = np.array([l.dot(b).dot(r) for b in B[k]]) - self.force(s, k, 1)
            Ar = np.array([a.dot(r) for a in A])
            n = A.shape[1]
            M = np.hstack(list(Ar))
            X = np.linalg.lstsq(M.T, np.hstack(list(R)).T, rcond=None)[0].T
            if abs(X).max() > XMAX:
                return []
            res.append(mat(X))
        return res

    def yzwit(self, T, s=None):
        """Y, Z with l T r - F2 = l A Y + Z A r"""
        s = s or self.s
        Ys, Zs = [], []
        q, D = s.q, s.D
        for k in range(s.L):
            A, A2, l, r = np.asarray(s.A[k], dtype=complex), np.asarray(s.A[(k + 1) % s.L], dtype=complex), dn(s.l[k - 1]), dn(s.r[(k + 1) % s.L])
            R = np.array([l.dot(t).dot(r) for t in T[k]]) - self.force(s, k, 2)
            R = R.reshape((q, q, D, D))
            lA = np.vstack([l.dot(a) for a in A])                 # (q D) x D
            Ar = np.hstack([a.dot(r) for a in A2])                # D x (q D)
            big = R.transpose((0, 2, 1, 3)).reshape((q * D, q * D))
            Y = np.linalg.lstsq(lA, big, rcond=None)[0]           # D x (q D)
            Z = np.linalg.lstsq(Ar.T, (big - lA.dot(Y)).T, rcond=None)[0].T
            if max(abs(Y).max(), abs(Z).max()) > XMAX:
                return [], []
            Ys.append([mat(Y[:, u * D:(u + 1) * D]) for u in range(q)])
            Zs.append([mat(Z[t * D:(t + 1) * D, :]) for t in range(q)])
        return Ys, Zs

    # ---- actions
    def do(self, a):
        s, rs, rec, q, L = self.s, self.rs, self.rec, self.q, self.L
        op = a[0]
        if op == "symm":
            s.symm_gauge = bool(a[1])
        elif op == "update":
            self.update(a[1], a[2])
        elif op == "quench":
            self.quench(a[1], a[2])
        elif hasattr(self, "do_" + op):
            getattr(self, "do_" + op)(*a[1:])
        elif op == "noise":
            A0 = [x.copy() for x in s.A]
            s.add_noise(fac=0.05, do_update=False)
            self.rank = None
            self.poke()
        else:
            du.World.do(self, a)

    def quench(self, m, kind):
        s = self.s
        hm = self.newham(m, kind)
        s.ham_tp = self.tp
        self.rec.call("ham", lambda: s.set_ham(hm, m) if callable(hm) else s.set_ham(hm), lambda _: self.plain(), stop=True, **self.hfields())

    def do_own(self):
        s = self.s
        for k in range(self.L):
            f = s.expect_2s if self.m == 2 else s.expect_3s
            self.q_("ev", lambda: f(s.ham, k), cx, k=k + 1, m=self.m, o=mat(self.h), own=1)

    def do_kl(self):
        s = self.s
        self.q_("kl", lambda: s.calc_K_l(), lambda r: dict(K=[mat(x) for x in r[0]], h=cx(r[1])))

    def phase(self, x):
        return 0.0 if x == "zero" else self.rs.choice([-1, 1]) * self.rs.uniform(0.4, 3.0)

    def other_tensors(self, p, pseudo):
        """second set of tensors, such that the operator is well conditioned"""
        rs, s = self.rs, self.s
        A = [np.asarray(x, dtype=complex) for x in s.A]
        for _ in range(20):
            B, _, _ = du.fixed(du.rstate(rs, self.L, self.q, s.D, "c" if self.typ is np.complex128 else "f"))
            if abs(np.linalg.eigvals(transfer(A, B))).max() < 0.9:
                return B if self.typ is np.complex128 else [b.real.copy() for b in B]
        raise vt.Abandon()

    def do_ppinv(self, left, pseudo, ph, which):
        s, rs = self.s, self.rs
        p = self.phase(ph)
        if self.dt == "f":
            p = 0.0
        B = None
        if which == "other":
            pseudo = 0
            B = self.other_tensors(p, pseudo)
        elif not pseudo and p == 0.0:
            pseudo = 1
        x = vt.rnd(rs, (s.D, s.D), "r" if self.dt == "f" else "c")
        kw = dict(p=p, left=bool(left), pseudo=bool(pseudo))
        if B is not None:
            kw["A2"] = B
        if rs.randint(2):
            kw["out"] = vt.rnd(rs, (s.D, s.D), "r" if self.dt == "f" else "c")
        if rs.randint(3) == 0:
            kw["solver"] = [las.lgmres, las.bicgstab, las.gmres][rs.randint(3)]
        if rs.randint(4) == 0:
            kw["brute_check"] = True
        if rs.randint(4) == 0:
            kw["rL"] = s.r[-1]
        self.q_("ppinv", lambda: s.calc_PPinv(x.copy(), **kw), mat, x=mat(x), ph=cx(np.exp(1j * p)), left=left, pseudo=pseudo,
                B=[] if B is None else bten(B), kw=" ".join(sorted(kw)))
        if "out" in kw and rs.randint(2):
            self.q_("ppinv", lambda: kw["out"], mat, x=mat(x), ph=cx(np.exp(1j * p)), left=left, pseudo=pseudo,
                    B=[] if B is None else bten(B), kw="out")

    def do_pinvmat(self, pseudo, ph):
        s, rs = self.s, self.rs
        p = self.phase(ph)
        if self.dt == "f":
            p = 0.0
        if s.D > 3:
            return
        B = None
        if not pseudo and p == 0.0:
            B = self.other_tensors(p, 0)
        A2 = s.A if B is None else B
        how = rs.randint(3)
        if how == 0:
            f = lambda: pv.pinv_1mE_brute(s.A, A2, s.l[-1], s.r[-1], p=p, pseudo=bool(pseudo))
        else:
            f = lambda: pv.pinv_1mE_brute_LOP(s.A, A2, s.l[-1], s.r[-1], p=p, pseudo=bool(pseudo), left=how == 2)
        self.q_("pinvmat", f, mat, ph=cx(np.exp(1j * p)), pseudo=pseudo, how=int(how), B=[] if B is None else bten(B))

    # ---- directions and steps
    def flow(self, set_eta=1, s=None, **kw):
        s = s or self.s
        B = [None]

        def enc(r):
            B[0] = r
            return dict(B=bten(r), sq=[cx(x) for x in s.eta_sq], eta=cx(s.eta) if set_eta else [0, 0])
        if set_eta:
            f = lambda: s.calc_B()
        else:
            f = lambda: s.calc_B(set_eta=False)
        self.rec.call("flow", f, enc, stop=True, set=set_eta, **kw)
        if max(abs(b).max() for b in B[0]) > 30:
            self.rec.ev.pop()
            raise vt.Abandon()
        self.rec.ev[-1]["X"] = self.xwit(B[0], s)
        return B[0]

    def dtau(self, d, scale):
        x = scale * self.rs.uniform(0.5, 1.0)
        if self.dt == "f" or d == "re":
            return x
        return 1j * x if d == "im" else x * np.exp(1j * self.rs.uniform(0.2, 1.3))

    def ready(self):
        if not self.full(2e-3):
            raise vt.Abandon()

    def do_flow(self, st):
        self.ready()
        self.flow(st)

    def finish(self, kind, dtau, he0):
        if not self.full(2e-4):
            raise vt.Abandon()
        self.update(1, 0, op="after", kind=kind, dtau=cx(dtau), he0=he0)

    def do_step(self, d, given):
        s = self.s
        self.ready()
        dtau = self.dtau(d, 0.1)
        he0 = cx(s.h_expect)
        A0 = [a.copy() for a in s.A]
        ref = copy.deepcopy(s)
        if given:
            B = [vt.rnd(self.rs, a.shape, "r" if self.dt == "f" else "c", 0.3) for a in s.A]
            b1 = bten(B)
            self.rec.call("step_given", lambda: s.take_step(dtau, B=B), lambda _: self.plain(), stop=True, B=b1, dtau=cx(dtau))
            self.rec.ev[-1]["B2"] = bten(B)
        else:
            self.rec.call("step", lambda: s.take_step(dtau), lambda _: self.plain(), stop=True, dtau=cx(dtau))
            B = [(a - b) / dtau for a, b in zip(A0, s.A)]
            if max(abs(b).max() for b in B) > 30:
                self.rec.ev.pop()
                raise vt.Abandon()
            self.rec.ev[-1]["X"] = self.xwit(B, ref)
        self.finish("step", dtau, he0)

    def do_rk4(self, d, given):
        s, rec = self.s, self.rec
        self.ready()
        dtau = self.dtau(d, 0.06)
        he0 = cx(s.h_expect)
        A0 = [a.copy() for a in s.A]
        ref = copy.deepcopy(s)
        B = self.flow(1, ref, stage=1)
        for j, f in ((2, 0.5), (3, 0.5), (4, 1.0)):
            for k in range(s.L):
                ref.A[k] = A0[k] - f * dtau * B[k]
            if not self.full(1e-3, ref):
                raise vt.Abandon()
            rec.note("stage", out=self.plain(ref), A0=bten(A0), c=cx(f * dtau))
            rec.call("staged", lambda: ref.update(restore_CF=False), lambda _: snapk(ref), stop=True, restore=0,
                     symm=int(ref.symm_gauge))
            B = self.flow(1, ref, stage=j)
        Bi = s.calc_B() if given else None
        b1 = bten(Bi) if given else []
        rec.call("rk4", lambda: s.take_step_RK4(dtau, B_i=Bi) if given else s.take_step_RK4(dtau), lambda _: self.plain(),
                 stop=True, A0=bten(A0), dtau=cx(dtau), B=b1, one=[] if self.one is None else mat(self.one))
        rec.ev[-1]["B2"] = bten(Bi) if given else []
        self.finish("rk4", dtau, he0)

    def do_grow(self, d, dD, lim):
        s, rec, q = self.s, self.rec, self.q
        if self.dt == "f" or s.D > 3 or q * s.D > 8 or self.one is not None:
            return
        self.ready()
        dtau = self.dtau(d, 0.1)
        D = s.D
        Dmax = {0: 0, 1: D + 1, 2: D}[lim]
        A0 = [a.copy() for a in s.A]
        full = copy.deepcopy(s)
        f = dict(dtau=cx(dtau))

        def core(t):
            B = [(a - b[:, :D, :D]) / dtau for a, b in zip(A0, t.A)]
            if max(abs(b).max() for b in B) > 30:
                raise vt.Abandon()
            return B

        bb = lambda t: dict(etaBBsq=[cx(x) for x in t.etaBB_sq], etaBB=cx(t.etaBB))
        rec.call("grow_full", lambda: full.take_step(dtau, dynexp=True, dD_max=64), lambda _: self.plain(full), stop=True, **f)
        T = [np.einsum("sij,tjk->stik", full.A[k][:, :D, D:], full.A[(k + 1) % s.L][:, D:, :D]).reshape((q * q, D, D)) / -dtau
             for k in range(s.L)]
        if max(abs(t).max() for t in T) > 6 or max(abs(a).max() for a in full.A) > 60:
            rec.ev.pop()
            raise vt.Abandon()
        rec.ev[-1]["X"] = self.xwit(core(full), s)
        rec.ev[-1]["Y"], rec.ev[-1]["Z"] = self.yzwit(T)
        rec.ev[-1].update(bb(full))
        if full.D == D:
            raise vt.Abandon()
        sv = []
        for k in range(s.L):
            w, u = np.linalg.eigh(dn(s.l[k - 1]))
            ls = u.dot(np.diag(np.sqrt(abs(w)))).dot(u.conj().T)
            w, u = np.linalg.eigh(dn(s.r[(k + 1) % s.L]))
            r_ = u.dot(np.diag(np.sqrt(abs(w)))).dot(u.conj().T)
            M = np.array([ls.dot(t).dot(r_) for t in T[k]]).reshape((q, q, D, D)).transpose((0, 2, 1, 3)).reshape((q * D, q * D))
            sv.append([fx(x) for x in np.linalg.svd(M, compute_uv=False)[:D * (q - 1)]])
        ref = copy.deepcopy(s)
        kw = dict(dD_max=dD)
        if Dmax:
            kw["D_max"] = Dmax
        rec.call("grow", lambda: s.take_step(dtau, dynexp=True, **kw), lambda _: self.plain(), stop=True, sv=sv, dDmax=dD, Dmax=Dmax, **f)
        rec.ev[-1]["X"] = self.xwit(core(s), ref)
        rec.ev[-1].update(bb(s) if s.D > D else dict(etaBBsq=[], etaBB=[0, 0]))
        self.finish("grow", dtau, cx(0))

    def do_cg(self, n, pr):
        s, rec = self.s, self.rec
        self.ready()
        BCG = BG = BGn = None
        tau = 0.1
        for j in range(n):
            he0 = cx(s.h_expect)
            kw = dict(tau_init=0.05, reset=j == 0, use_PR=bool(pr))

            def enc(r):
                return dict(A=[ten(x) for x in s.A], tau=fx(r[3]), bg=cx(r[2]))
            res = rec.call("cg", lambda: s.calc_B_CG(BCG, BG, BGn, tau, **kw), enc, stop=True, n=j)
            BCG, BG, BGn, tau = res
            if max(abs(b).max() for b in BCG) > 30 or tau > 60 or max(abs(a - tau * b).max() for a, b in zip(s.A, BCG)) > 8:
                raise vt.Abandon()
            rec.note("poke", out=self.plain())
            rec.call("step_given", lambda: s.take_step(tau, B=BCG), lambda _: self.plain(), stop=True, B=bten(BCG), B2=bten(BCG), dtau=cx(tau))
            self.finish("cg", tau, he0)


def handler(rec, c, rs):
    rec.cfg = dict(kind="uflow")
    w = World(rec, c, rs)
    w.start()
    for a in c["hist"]:
        w.do(a)
        if a[0] in ("own", "kl", "ppinv", "pinvmat"):
            rec.call("still", lambda: None, lambda _: snapk(w.s))


if __name__ == "__main__":
    vt.main(handler)
