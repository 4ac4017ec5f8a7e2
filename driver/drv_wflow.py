"""Replays histories of WinGen.tla (family wflow) on tdvp_sandwich.py: energies and evolution of a window."""
import copy
import numpy as np
import vt
from vt import mat, ten, cx, fx
import drv_uni as du
import drv_win as dw

BIG = 30


def dn(x):
    return vt.dense(x).astype(complex)


def bten(B):
    return [[] if b is None else ten(b) for b in B]


def omat(x):
    return [] if x is None or not np.all(np.isfinite(dn(x))) else mat(x)


def snapk(s):
    d = dw.snap(s)
    N = int(s.N)
    d.update(K=[omat(s.K[n]) for n in range(N + 2)], Kl=[omat(s.K_l[n]) for n in range(N + 2)],
             he=[cx(s.h_expect[n]) for n in range(N + 1)], dH=cx(s.dH_expect),
             KUL=[mat(x) for x in s.uni_l.K_left], KUR=[mat(x) for x in s.uni_r.K])
    return d


def null(M):
    """orthonormal basis of the null space, as columns"""
    u, w, v = np.linalg.svd(M)
    k = int(np.sum(w > 1e-9 * max(w.max(), 1e-30)))
    return v[k:].conj().T


class World(dw.World):
    def __init__(self, rec, c, rs):
        dw.World.__init__(self, rec, dict(c, cls="tdvp"), rs)
        self.form = c["hform"]
        self.m = self.hs

    # ---- Hamiltonians
    def chain_from(self, A, ham):
        if self.form != "call" or callable(ham):
            return dw.World.chain_from(self, A, ham)
        D, L = A[0].shape[1], len(A)
        s = dw.tu.EvoMPS_TDVP_Uniform(D, self.q, du.as_callable(ham), ham_sites=self.hs, L=L, do_update=False)
        s.ev_brute = self.c["solver"] == "brute"
        s.ev_use_arpack = self.c["solver"] != "power"
        for k in range(L):
            s.A[k] = A[k].copy()
        return s

    def chain(self, L, D, ham):
        """sometimes with a Hamiltonian that has the chain as its ground state"""
        self.parent = (self.c["init"] == "bulk" and self.form != "impurity" and L == 1 and D * D < self.q ** self.hs
                       and self.c["rs"] % 2 == 0)
        if not self.parent:
            return dw.World.chain(self, L, D, ham)
        A = [a + 0j for a in du.rstate(self.rs, L, self.q, D, self.dt, lmin=1e-3)]
        T = A[0]
        for _ in range(self.hs - 1):
            T = np.einsum("sij,tjk->stik", T, A[0]).reshape((-1, D, D))
        u, w, v = np.linalg.svd(T.reshape((len(T), D * D)), full_matrices=True)
        P = u[:, int(np.sum(w > 1e-10 * w[0])):]
        h = P.dot(np.diag(self.rs.uniform(0.3, 1.0, P.shape[1]))).dot(P.conj().T) + 0.25 * np.eye(len(T))
        self.hamL = self.hamR = np.ascontiguousarray(h.reshape((self.q,) * (2 * self.hs)))
        return self.chain_from(A, self.hamL)

    def flat_terms(self, h):
        return vt.mat(np.asarray(h).reshape((self.q ** self.hs, self.q ** self.hs)))

    def hfields(self):
        """the terms on sites n..n+m-1, n in 2-m..N"""
        return dict(H=[self.flat_terms(h) for h in self.terms])

    def terms_at_start(self):
        """the terms as they stand after the window has been built"""
        N, m = self.s.N, self.m
        if self.c["init"] in ("bulk", "two"):
            return [self.hamL] * (N + m - 1)
        return None

    def setham(self):
        """terms that differ from site to site (the term at site -1 is always the left chain's)"""
        s, N, m = self.s, self.s.N, self.m
        hs = [self.rham() for _ in range(N + 1)]
        self.terms = [self.hamL] * (m - 2) + hs
        if self.form == "call":
            t = dict((n, h) for n, h in enumerate(self.terms, 2 - m))
            s.ham = lambda n, *a: t[n][tuple(int(x) for x in a)]
        else:
            s.ham = [h.copy() for h in hs]

    def start(self):
        c, rec = self.c, self.rec
        dw.World.start(self)
        s = self.s
        self.plainham = c["init"] in ("bulk", "two") and (c["init"] == "two" or c["hform"] in ("bulk", "call"))
        del rec.ev[:]
        s.sanity_checks = True
        if c["init"] == "bulk" and c["hform"] != "impurity":
            self.terms = self.terms_at_start()
        else:
            self.setham()
        rec.note("start", out=dw.snap(s), hl=self.flat_terms(self.hamL), hr=self.flat_terms(self.hamR), m=self.m, **self.hfields())
        self.upd()
        if c["init"] == "bulk" and c["hform"] != "impurity" and s.N % s.uni_l.L == 0:
            rec.note("flat", out=snapk(s))
            if self.parent and self.ok(2e-3):
                self.flow(s, exact=1, stage=0, rest=1)
                if self.rs.randint(2):
                    rec.call("rest", lambda: s.take_step(0.1), lambda _: dw.snap(s), stop=True)
                else:
                    rec.call("rest", lambda: s.take_step_RK4(0.1j), lambda _: dw.snap(s), stop=True)

    def upd(self, op="update", **kw):
        s = self.s
        f = dict(restore=1, norm=1)
        f.update(kw)
        self.rec.call(op, lambda: s.update(restore_CF=bool(f["restore"]), normalize=bool(f["norm"])), lambda _: snapk(s), stop=True, **f)

    def ok(self, lmin=1e-3, s=None):
        s = s or self.s
        keep, dw.LMIN = dw.LMIN, lmin
        try:
            l, r = dw.bulk_rho(s)
            return dw.window_ok([np.asarray(s.A[n], dtype=complex) for n in range(1, s.N + 1)], l, r)
        finally:
            dw.LMIN = keep

    def ready(self):
        if not self.ok(2e-3):
            raise vt.Abandon()

    def witness(self, s):
        NL, NR = [], []
        for n in range(1, s.N + 1):
            A = np.asarray(s.A[n], dtype=complex)
            q, Da, Db = A.shape
            l, r = dn(s.l[n - 1]), dn(s.r[n])
            V = null(np.hstack([a.conj().T.dot(l) for a in A]))
            NL.append(ten(V.reshape((q, Da, -1))) if V.shape[1] else [])
            V = null(np.vstack([r.dot(a.conj().T) for a in A]).T).T
            NR.append(ten(V.reshape((-1, q, Db)).transpose((1, 0, 2))) if V.shape[0] else [])
        return dict(NL=NL, NR=NR)

    def small(self, B):
        if any(b is not None and abs(b).max() > BIG for b in B):
            raise vt.Abandon()

    # ---- actions
    def do(self, a):
        s, rec, op = self.s, self.rec, a[0]
        if op == "update":
            self.upd()
        elif op in ("growl", "growr"):
            L = s.uni_l.L if op == "growl" else s.uni_r.L
            if callable(s.ham) or s.N + a[1] * L > 7:
                return
            rec.call("grown", lambda: (s.grow_left if op == "growl" else s.grow_right)(a[1]), lambda _: dw.snap(s), stop=True,
                     m=a[1], left=int(op == "growl"))
        elif op == "quench":
            self.setham()
            rec.note("ham", out=dw.snap(s), **self.hfields())
        elif hasattr(self, "do_" + op):
            if s.N > 6:
                raise vt.Abandon()
            getattr(self, "do_" + op)(*a[1:])
        else:
            dw.World.do(self, a)

    def flow(self, s, how=0, **kw):
        B = [None]

        def enc(r):
            B[0] = list(r)[1:]
            return dict(B=bten(r[1:]), sq=[cx(x) for x in s.eta_sq[1:]], eta=cx(s.eta))
        self.rec.call("flow", s.calc_B, enc, stop=True, **dict(kw, **self.witness(s)))
        try:
            self.small(B[0])
        except vt.Abandon:
            self.rec.ev.pop()
            raise
        return B[0]

    def do_flow(self, j):
        self.ready()
        self.flow(self.s, exact=1, stage=0)
        self.rec.call("still", lambda: None, lambda _: snapk(self.s))

    def dtau(self, d, scale):
        x = scale * self.rs.uniform(0.5, 1.0)
        return x if d == "re" else 1j * x

    def finish(self, kind, dtau, dH0):
        if not self.ok(2e-4):
            raise vt.Abandon()
        self.upd("after", kind=kind, dtau=cx(dtau), dH0=dH0)

    def do_step(self, d):
        s = self.s
        self.ready()
        dtau, dH0 = self.dtau(d, 0.1), cx(s.dH_expect)
        A0, wit = [a.copy() for a in s.A[1:s.N + 1]], self.witness(s)
        self.rec.call("step", lambda: s.take_step(dtau), lambda _: dw.snap(s), stop=True, dtau=cx(dtau), **wit)
        try:
            self.small([(a - b) / dtau for a, b in zip(A0, s.A[1:s.N + 1])])
        except vt.Abandon:
            self.rec.ev.pop()
            raise
        self.finish("step", dtau, dH0)

    def do_given(self, d):
        s = self.s
        self.ready()
        dtau, dH0 = self.dtau(d, 0.1), cx(s.dH_expect)
        B = [vt.rnd(self.rs, s.A[n].shape, "c", 0.3) if self.rs.randint(4) else None for n in range(1, s.N + 1)]
        b1 = bten(B)
        self.rec.call("step_given", lambda: s.take_step(dtau, B=[None] + B), lambda _: dw.snap(s), stop=True, dtau=cx(dtau), B=b1)
        self.finish("given", dtau, dH0)

    def do_rk4(self, d):
        s, rec = self.s, self.rec
        self.ready()
        dtau, dH0 = self.dtau(d, 0.05), cx(s.dH_expect)
        N = s.N
        A0 = [a.copy() for a in s.A[1:N + 1]]
        ref = copy.deepcopy(s)
        given = bool(self.rs.randint(3) == 0)
        B = self.flow(ref, exact=1, stage=1)
        for j, f in ((2, 0.5), (3, 0.5), (4, 1.0)):
            for n in range(N):
                if B[n] is not None:
                    ref.A[n + 1] = A0[n] - f * dtau * B[n]
            if not self.ok(1e-3, ref):
                raise vt.Abandon()
            rec.note("stage", out=dw.snap(ref), A0=bten(A0), c=cx(f * dtau))
            rec.call("staged", lambda: ref.update(restore_CF=False, normalize=False), lambda _: snapk(ref), stop=True, restore=0, norm=0)
            B = self.flow(ref, exact=0, stage=j)
        Bi = s.calc_B() if given else None
        rec.call("rk4", lambda: s.take_step_RK4(dtau, B_i=Bi) if given else s.take_step_RK4(dtau), lambda _: dw.snap(s), stop=True,
                 A0=bten(A0), dtau=cx(dtau), given=int(given))
        self.finish("rk4", dtau, dH0)

    def do_grow(self, d, dD):
        s, rec, q = self.s, self.rec, self.q
        if s.N > 4 or s.D.max() > 3 or q * s.D.max() > 8:
            return
        self.ready()
        dtau = self.dtau(d, 0.1)
        N, D0 = s.N, [int(x) for x in s.D]
        A0 = [a.copy() for a in s.A[1:N + 1]]
        Dmax = max(D0) + int(self.rs.randint(3))
        wit = self.witness(s)
        l, r = [dn(x) for x in s.l], [dn(x) for x in s.r]
        perr = rec.call("perr", lambda: copy.deepcopy(s).compute_projection_error(), lambda x: [cx(v) for v in x], stop=True)
        rec.ev.pop()
        full = copy.deepcopy(s)
        f = dict(dtau=cx(dtau), **wit)

        def core(t):
            return [(a - t.A[n + 1][:, :D0[n], :D0[n + 1]]) / dtau for n, a in enumerate(A0)]
        rec.call("grow_full", lambda: full.take_step(dtau, dynexp=True, dD_max=64, D_max=64), lambda _: dw.snap(full), stop=True,
                 perr=[cx(x) for x in perr[1:N]], **f)
        sv = []
        try:
            self.small(core(full))
            for k in range(1, N):
                if full.D[k] == D0[k]:
                    sv.append([])
                    continue
                T = np.einsum("sij,tjk->stik", full.A[k][:, :D0[k - 1], D0[k]:], full.A[k + 1][:, D0[k]:, :D0[k + 1]]) / -dtau
                if abs(T).max() > 6 or max(abs(full.A[k]).max(), abs(full.A[k + 1]).max()) > 60:
                    raise vt.Abandon()

                def root(x):
                    w, u = np.linalg.eigh(x)
                    return u.dot(np.diag(np.sqrt(abs(w)))).dot(u.conj().T)
                ls, rt = root(l[k - 1]), root(r[k + 1])
                M = np.einsum("ij,stjk,kl->sitl", ls, T, rt).reshape((q * D0[k - 1], q * D0[k + 1]))
                w = np.linalg.svd(M, compute_uv=False)
                sv.append([fx(x) for x in w[:min(q * D0[k - 1] - D0[k], q * D0[k + 1] - D0[k])]])
        except vt.Abandon:
            rec.ev.pop()
            raise
        ref = copy.deepcopy(s)
        rec.call("grow", lambda: s.take_step(dtau, dynexp=True, dD_max=dD, D_max=Dmax), lambda _: dw.snap(s), stop=True,
                 sv=sv, dDmax=dD, Dmax=Dmax, **f)
        del ref
        self.finish("grow", dtau, cx(0))


def handler(rec, c, rs):
    rec.cfg = dict(kind="wflow")
    w = World(rec, c, rs)
    w.start()
    for a in c["hist"]:
        w.do(a)


if __name__ == "__main__":
    vt.main(handler)
