"""Replays histories of UniGen.tla (families utang, uover): tangent vectors with a momentum, excitations and kinks."""
import copy
import numpy as np
import vt
from vt import mat, ten, cx, fx
import drv_uni as du
import drv_uflow as df
from drv_uflow import bten, snapk, dn
from drv_uni import transfer
import evoMPS.tdvp_uniform as tu
import scipy.sparse.linalg as las

LM = 0.012


def vec(v):
    return [cx(x) for x in np.asarray(v).ravel()]


class Faulty(object):
    """stands for the eigensolver's module; the calls planned to fail report that they do not converge"""

    def __init__(self, plan):
        self.plan = plan
        self.calls = 0

    def __getattr__(self, name):
        f = getattr(las, name)
        if name not in ("eigsh", "eigs"):
            return f

        def g(*a, **kw):
            self.calls += 1
            if self.calls <= len(self.plan) and self.plan[self.calls - 1]:
                raise las.ArpackNoConvergence("planned", np.zeros(0), np.zeros((0, 0)))
            return f(*a, **kw)
        return g


class World(df.World):
    def newham(self, m, kind):
        """for kinks: terms that commute with a reflection of every site"""
        sym = self.c["hform"] == "sym"
        q, rs = self.q, self.rs
        if not sym:
            return df.World.newham(self, m, kind)
        self.refl = np.diag([1.0, -1.0, -1.0 if rs.randint(2) else 1.0][:q])
        U = self.refl
        dt = "c" if self.dt == "c" else "r"
        tp = None
        if kind == "tp":
            tp = []
            for _ in range(rs.randint(1, 4)):
                a, b = vt.herm(rs, q, dt, 1.0), vt.herm(rs, q, dt, 1.0)
                s = 1 if rs.randint(2) else -1        # both even or both odd
                tp.append([(a + s * U.dot(a).dot(U)) / 2, (b + s * U.dot(b).dot(U)) / 2])
            h = sum(np.kron(a, b) for a, b in tp)
        else:
            h = vt.herm(rs, q ** m, dt, 1.0)
            UU = U
            for _ in range(m - 1):
                UU = np.kron(UU, U)
            h = (h + UU.dot(h).dot(UU)) / 2
        if self.dt == "f":
            h = h.real.copy()
            tp = None if tp is None else [[a.real.copy(), b.real.copy()] for a, b in tp]
        elif tp is not None:
            tp = [[a + 0j, b + 0j] for a, b in tp]
        h = np.ascontiguousarray(h)
        self.h, self.m, self.one, self.tp = h, m, None, tp
        arr = h.reshape((q,) * (2 * m))
        return du.as_callable(arr) if kind == "call" and self.dt != "f" else arr

    def usual(self):
        A = du.rstate(self.rs, self.L, self.q, self.D, self.dt, lmin=LM)
        return [a.real.copy() for a in A] if self.dt == "f" else [a + 0j for a in A]

    def mom(self, x):
        if x == "zero" or self.dt == "f":
            return 0.0
        return np.pi if x == "pi" else self.rs.uniform(-3.0, 3.0)

    def ready(self):
        s = self.s
        if not self.full(LM) or max(np.linalg.norm(np.linalg.inv(dn(x)), 2) for x in list(s.l) + list(s.r)) > 90:
            raise vt.Abandon()

    # ---- overlaps of tangent vectors
    def series(self, B, ph, conj):
        """envs of B (bra when conj) on sites up to k, without the part along the chain"""
        s = self.s
        L, D = s.L, s.D
        A = [np.asarray(a, dtype=complex) for a in s.A]
        l, r = [dn(x) for x in s.l], [dn(x) for x in s.r]
        f = ph if conj else np.conj(ph)
        el = lambda x, k: sum(a.conj().T.dot(x).dot(a) for a in A[k])
        src = []
        for k in range(L):
            if conj:
                y = sum(b.conj().T.dot(l[k - 1]).dot(a) for a, b in zip(A[k], B[k]))
            else:
                y = sum(a.conj().T.dot(l[k - 1]).dot(b) for a, b in zip(A[k], B[k]))
            src.append(y - np.trace(y.dot(r[k])) * l[k])
        # x_L = f^L E..E x_L + c
        n = D * D
        M = np.zeros((n, n), dtype=complex)
        for j in range(n):
            x = np.zeros(n, dtype=complex)
            x[j] = 1
            x = x.reshape((D, D))
            x = x - np.trace(x.dot(r[-1])) * l[-1]
            for k in range(L):
                x = f * el(x, k)
            M[:, j] = x.ravel()
        c = np.zeros((D, D), dtype=complex)
        for k in range(L):
            c = f * el(c, k) + src[k]
        x = np.linalg.solve(np.eye(n) - M, c.ravel()).reshape((D, D))
        res = []
        for k in range(L):
            x = f * el(x, k) + src[k]
            res.append(x)
        if max(abs(x).max() for x in res) > 60:
            raise vt.Abandon()
        return [mat(x) for x in res]

    def rB(self, x=0.5):
        return [vt.rnd(self.rs, a.shape, "r" if self.dt == "f" else "c", x) + (0 if self.dt == "f" else 0j) for a in self.s.A]

    def do_overlap(self, p, same):
        s = self.s
        self.ready()
        p = self.mom(p)
        ph = np.exp(1j * p)
        B = self.rB()
        C = B if same else self.rB()
        self.q_("overlap", lambda: s._B_overlap(B, C, p=p) if p != 0 or self.rs.randint(2) else s._B_overlap(B, C), cx,
                B=bten(B), C=bten(C), ph=cx(ph), X=self.series(B, ph, False), Z=self.series(C, ph, True))

    def do_gaugefix(self, p):
        s = self.s
        self.ready()
        p = self.mom(p)
        ph = np.exp(1j * p)
        B = self.rB()
        s.calc_B()      # provides the parametrisation
        C = []
        for k in range(s.L):
            x = vt.rnd(self.rs, (s.D, (s.q - 1) * s.D), "r" if self.dt == "f" else "c", 0.5)
            C.append(s.get_B_from_x(x, s.Vsh[k], s.l_sqrt_i[k - 1], s.r_sqrt_i[k]).copy())
        self.q_("gaugefix", lambda: s._B_to_B_GF(B, p=p), lambda r: dict(B=bten(r[0])),
                B=bten(B), C=bten(C), ph=cx(ph), Z=self.series(C, ph, True))
        e = self.rec.ev[-1]
        if "out" in e and max(abs(x) for b in e["out"]["B"] for m in b for row in m for z in row for x in z) > 30 * vt.SC:
            self.rec.ev.pop()
            raise vt.Abandon()

    # ---- excitations
    def donor(self):
        """another chain of the same energy: the reflection of this one"""
        s, rs = self.s, self.rs
        if getattr(self, "refl", None) is None or np.linalg.norm(self.refl - np.eye(s.q)) < 1e-12:
            raise vt.Abandon()
        A = [np.asarray(a).copy() for a in s.A]
        B = [np.einsum("st,tij->sij", self.refl, a) for a in A]
        B = [b.astype(self.typ) for b in B]
        if abs(np.linalg.eigvals(transfer([np.asarray(a, dtype=complex) for a in A], [np.asarray(b, dtype=complex) for b in B]))).max() > 0.9:
            raise vt.Abandon()
        kw = dict(ham_sites=self.m) if callable(s.ham) else {}
        d = tu.EvoMPS_TDVP_Uniform(s.D, s.q, s.ham, L=1, dtype=self.typ, do_update=False, **kw)
        self.tune(d)
        d.ham_tp = s.ham_tp
        if rs.randint(2):
            B = du.gauged(rs, B, self.dt)
        d.A[0][:] = B[0] * (np.exp(1j * rs.uniform(-3, 3)) if rs.randint(2) else 1)
        d.symm_gauge = bool(rs.randint(2))
        d.update()
        if max(np.linalg.norm(np.linalg.inv(dn(x)), 2) for x in list(d.l) + list(d.r)) > 90:
            raise vt.Abandon()
        return d

    def witness(self, d, p):
        s = self.s
        D = s.D
        A, A2 = np.asarray(s.A[0], dtype=complex), np.asarray(d.A[0], dtype=complex)
        l, r, l2, r2 = dn(s.l[0]), dn(s.r[0]), dn(d.l[0]), dn(d.r[0])
        n = D * D
        E = transfer([A2], [A2])
        h, m, e = self.h, self.m, s.h_expect
        T = df.join([A2], 0, m)
        HT = np.einsum("st,tij->sij", h, T)
        hr = sum(a.dot(r2).dot(b.conj().T) for a, b in zip(HT, T))
        P = np.outer(r2.ravel(), l2.conj().ravel())
        K = np.linalg.solve(np.eye(n) - (E - P), (hr - np.trace(l2.conj().T.dot(hr)) * r2).ravel()).reshape((D, D))
        T = df.join([A], 0, m)
        HT = np.einsum("st,tij->sij", h, T)
        hl = sum(b.conj().T.dot(l).dot(a) for a, b in zip(HT, T))
        hl = hl - np.trace(hl.dot(r)) * l
        el = lambda x: sum(a.conj().T.dot(x).dot(a) for a in A)
        M = np.array([el(x - np.trace(x.dot(r)) * l).ravel() for x in np.eye(n).reshape((n, D, D))]).T
        KL = np.linalg.solve(np.eye(n) - M, hl.ravel()).reshape((D, D))
        if max(abs(K).max(), abs(KL).max()) > 30:
            raise vt.Abandon()
        return K, KL

    def pair(self, d, p, xv, yv, H):
        s = self.s
        D, q = s.D, s.q
        A, A2 = np.asarray(s.A[0], dtype=complex), np.asarray(d.A[0], dtype=complex)
        l = dn(s.l[0])
        ph = np.exp(1j * p)
        f = lambda v: np.asarray(s.get_B_from_x(np.asarray(v).reshape((D, (q - 1) * D)), d.Vsh[0], s.l_sqrt_i[0], d.r_sqrt_i[0]), dtype=complex).copy()
        B, C = f(xv), f(yv)
        n = D * D
        eye = np.eye(n).reshape((n, D, D))
        pr = lambda x: x
        if d is s:
            r = dn(s.r[0])
            pr = lambda x: x - np.trace(x.dot(r)) * l
        y = sum(a.conj().T.dot(l).dot(b) for a, b in zip(A, B))
        M = np.array([sum(a.conj().T.dot(pr(x)).dot(b) for a, b in zip(A, A2)).ravel() for x in eye]).T
        X = np.linalg.solve(np.eye(n) - M / ph, y.ravel() / ph).reshape((D, D))
        y = sum(c.conj().T.dot(l).dot(a) for a, c in zip(A, C))
        M = np.array([sum(b.conj().T.dot(pr(x)).dot(a) for a, b in zip(A, A2)).ravel() for x in eye]).T
        Z = np.linalg.solve(np.eye(n) - M * ph, y.ravel() * ph).reshape((D, D))
        v = np.vdot(yv, H.dot(xv)) if H is not None else None
        if max(abs(x).max() for x in (B, C, X, Z)) > 30:
            raise vt.Abandon()
        return dict(x=vec(xv), y=vec(yv), v=cx(v) if v is not None else None, B=ten(B), C=ten(C), X=mat(X), Z=mat(Z))

    def aligned(self, at):
        """the common phase of a kink's left part may have been adjusted"""
        ev = self.rec.ev
        ev.insert(len(ev) + at, dict(op="aligned", out=snapk(self.s)))

    def unit(self, n):
        x = vt.rnd(self.rs, (n,), "c")
        return x / np.linalg.norm(x)

    def excited(self, p, kind, d, call, calln):
        """p the momentum, d the other chain (or the same object)"""
        s, rs, rec = self.s, self.rs, self.rec
        n = (s.q - 1) * s.D ** 2
        hold = [None]

        def enc(res):
            (w, V), H = (res[0] if isinstance(res[0], tuple) else (res[0], None)), res[1]
            hold[0] = np.asarray(w), np.asarray(H)
            return dict(w=[fx(x) for x in w], V=[] if V is None else mat(V), H=mat(H))

        ev = bool(rs.randint(2))
        rec.call("excited", lambda: call(p, return_H=True, return_eigenvectors=ev), enc, stop=True)
        W, H = hold[0]
        e = rec.ev[-1]
        if d is not s:
            self.aligned(-1)
        if abs(H).max() > 30:
            rec.ev.pop()
            raise vt.Abandon()
        self.hn(d)
        K, KL = self.witness(d, p)
        wv, V = np.linalg.eigh(H)
        e.update(ph=cx(np.exp(1j * p)), K=mat(K), KL=mat(KL), V=mat(V), d=[] if d is s else [snapk(d)], pairs=[])
        for _ in range(2):
            x, y = self.unit(n), self.unit(n)
            e["pairs"].append(self.pair(d, p, x, y, H))
        if kind == "full" and rs.randint(2):
            rec.call("excite", lambda: call(p), lambda w: dict(w=[fx(x) for x in w], V=[]), stop=True,
                     W=[fx(x) for x in W], which="SA", pairs=[])
        if kind not in ("eigs", "eigsv") or n < 3:
            return
        nev = int(rs.randint(1, min(n - 1, 4)))
        which = ["SM", "SA", "LM", "LA"][rs.randint(4)] if rs.randint(3) else "SM"
        kw = dict(nev=nev, which=which)
        if rs.randint(2):
            kw["v0"] = self.unit(n)
        if rs.randint(3) == 0:
            kw["ncv"] = n
        faults = [int(rs.randint(2)) for _ in range(3)] if rs.randint(3) == 0 else []
        nr = int(rs.randint(1, 4))
        if faults:
            kw["max_retries"] = nr
        F = Faulty(faults)
        real = tu.las
        tu.las = F

        def run():
            try:
                return calln(p, return_eigenvectors=kind == "eigsv", **kw)
            finally:
                tu.las = real

        def enc2(res):
            w, V = res if isinstance(res, tuple) else (res, None)
            hold[0] = w, V
            return dict(w=[fx(x) for x in w], V=[] if V is None else mat(V))
        rec.call("excite", run, enc2, plan=faults, tries=nr, W=[fx(x) for x in W], which=which, pairs=[])
        e = rec.ev[-1]
        if "exc" in e:
            if faults and all(faults[:nr]):      # every attempt failed
                rec.ev.pop()
                return
            raise vt.Abandon()
        w, V = hold[0]
        if d is not s:
            self.aligned(-1)
        if V is not None:
            v = V[:, 0]
            pr = self.pair(d, p, v, v, None)
            pr["v"] = cx(w[0])
            e.update(ph=cx(np.exp(1j * p)), K=mat(K), KL=mat(KL), d=[] if d is s else [snapk(d)], pairs=[pr])

    def hn(self, d):
        if d is not self.s and abs(d.h_expect - self.s.h_expect) > 1e-6:
            raise vt.Abandon()

    def opts(self):
        return {} if self.rs.randint(2) else dict(pinv_solver=[las.gmres, las.lgmres, las.bicgstab][self.rs.randint(3)])

    def do_excite(self, p, kind):
        s = self.s
        if self.dt == "f" or s.D > 3:
            return
        self.ready()
        p = self.mom(p)
        self.excited(p, kind, s, s.excite_top_triv_brute, lambda p, **kw: s.excite_top_triv(p, **dict(kw, **self.opts())))
        self.rec.call("still", lambda: None, lambda _: snapk(s))

    def do_kink(self, p, kind):
        s = self.s
        if self.dt == "f" or s.D > 3 or s.D < 2:
            return
        self.ready()
        p = self.mom(p)
        d = self.donor()
        once = [0]

        def al():
            """the phase is aligned by the first call; doing it again matters where two phases are equally good"""
            once[0] += 1
            ev = sorted(abs(np.linalg.eigvals(transfer([np.asarray(s.A[0], dtype=complex)], [np.asarray(d.A[0], dtype=complex)]))))
            return {} if once[0] == 1 or (ev[-1] > ev[-2] + 0.02 and self.rs.randint(2)) else dict(phase_align=False)
        self.excited(p, kind, d, lambda p, **kw: s.excite_top_nontriv_brute(d, p, **dict(kw, **al())),
                     lambda p, **kw: s.excite_top_nontriv(d, p, **dict(kw, **dict(self.opts(), **al()))))
        self.aligned(0)

    # ---- windows
    def window(self, x, d):
        s, rs = self.s, self.rs
        B = self.rB()[0]
        n = int(rs.randint(1, 4))
        nb = int(rs.randint(1, 2 * n + 2)) if rs.randint(2) else None
        kw = {} if nb is None else dict(nb=nb)
        if d is not s:
            kw["s2"] = d
        f = dict(B=ten(B), d=n, nb=n + 1 if nb is None else nb)
        f["d_"] = 0
        op = vt.rnd(rs, (s.q, s.q), "r" if self.dt == "f" else "c", 0.5)
        dd = [] if d is s else [snapk(d)]
        if x == "one":
            self.q_("tangent1", lambda: s.expect_tangent_1s(B, op, n, **kw), lambda r: [cx(v) for v in r], o1=mat(op), dn=n, **dict(f, d=dd))
        elif x == "two":
            o2 = vt.rnd(rs, (s.q ** 2, s.q ** 2), "r" if self.dt == "f" else "c", 0.3)
            arr = o2.reshape((s.q,) * 4)
            self.q_("tangent2", lambda: s.expect_tangent_2s(B, arr, n), lambda r: [cx(v) for v in r], o1=mat(o2), dn=n, **dict(f, d=dd))
        else:
            o2 = vt.rnd(rs, (s.q, s.q), "r" if self.dt == "f" else "c", 0.5)
            self.q_("tangentc", lambda: s.correlation_tangent_1s_1s(B, op, o2, n, **kw)[1], lambda r: [cx(v) for v in r],
                    o1=mat(op), o2=mat(o2), dn=n, **dict(f, d=dd))

    def do_window(self, x):
        self.ready()
        self.window(x, self.s)

    def do_kinkwindow(self, x):
        self.ready()
        self.window(x, self.donor())


def handler(rec, c, rs):
    rec.cfg = dict(kind="utang")
    w = World(rec, c, rs)
    w.start()
    for a in c["hist"]:
        w.do(a)
        if a[0] in ("overlap", "gaugefix", "window", "kinkwindow"):
            rec.call("still", lambda: None, lambda _: snapk(w.s))


if __name__ == "__main__":
    vt.main(handler)
