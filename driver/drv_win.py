"""Replays histories of WinGen.tla on windows between uniform chains (mps_sandwich.py)."""
import os, copy, tempfile, shutil
import numpy as np
import vt
from vt import mat, ten, cx, opm
import evoMPS.mps_uniform as mu
import evoMPS.tdvp_uniform as tu
import evoMPS.mps_sandwich as ms
import evoMPS.tdvp_sandwich as ts
import drv_uni as du

LMIN = 5e-4


def snap(s):
    N = int(s.N)
    return dict(N=N, nc=int(s.N_centre), D=[int(x) for x in s.D], A=[ten(s.A[n]) for n in range(1, N + 1)],
                l=[mat(s.l[n]) for n in range(N + 2)], r=[mat(s.r[n]) for n in range(N + 2)],
                ul=du.snap(s.uni_l), ur=du.snap(s.uni_r), grown=[int(s.grown_left), int(s.grown_right)])


def bulk_rho(s):
    """dense environments of both chains (scene selection only)"""
    A, l, _ = du.fixed([np.asarray(a, dtype=complex) for a in s.uni_l.A])
    B, _, r = du.fixed([np.asarray(a, dtype=complex) for a in s.uni_r.A])
    return l, r


def window_ok(A, l, r):
    """norm and Schmidt coefficients of the window away from zero"""
    N = len(A)
    ls = [l]
    for a in A:
        ls.append(sum(x.conj().T.dot(ls[-1]).dot(x) for x in a))
    rs = [r]
    for a in A[::-1]:
        rs.append(sum(x.dot(rs[-1]).dot(x.conj().T) for x in a))
    rs = rs[::-1]
    for x, y in zip(ls, rs):
        w = np.sort(abs(np.linalg.eigvals(x.dot(y))))
        if not np.all(np.isfinite(w)) or w[0] < LMIN * w.sum() or max(abs(x).max(), abs(y).max()) > 30:
            return False
    nrm = np.sum(ls[0].conj() * rs[0]).real
    return 0.1 < nrm < 10 and max(abs(a).max() for a in A) < 4


class World(object):
    def __init__(self, rec, c, rs):
        self.rec, self.c, self.rs = rec, c, rs
        self.q, self.dt = c["q"], c["dt"]
        self.LL, self.DL = c["LL"], c["DL"]
        self.LR, self.DR = (c["LR"], c["DR"]) if c["init"] != "bulk" else (self.LL, self.DL)
        if c["init"] == "two":
            self.DR = self.DL
        self.tdvp = c["cls"] == "tdvp"
        self.hs = c["hs"]
        self.dir = None
        self.hams = None

    # ---- construction
    def rham(self):
        n = self.q ** self.hs
        return vt.herm(self.rs, n, "c" if self.dt == "c" else "r", 1.0).reshape((self.q,) * (2 * self.hs))

    def chain(self, L, D, ham):
        """an object for a gapped uniform state, not yet up to date"""
        A = du.rstate(self.rs, L, self.q, D, self.dt, lmin=1e-3)
        A = [a + 0j for a in A]
        s = self.chain_from(A, ham)
        return s

    def chain_from(self, A, ham):
        D, L = A[0].shape[1], len(A)
        if self.tdvp:
            s = tu.EvoMPS_TDVP_Uniform(D, self.q, ham, L=L, do_update=False)
        else:
            s = mu.EvoMPS_MPS_Uniform(D, self.q, L=L, do_update=False)
        s.ev_brute = self.c["solver"] == "brute"
        s.ev_use_arpack = self.c["solver"] != "power"
        for k in range(L):
            s.A[k] = A[k].copy()
        return s

    def make(self, N):
        """a window of N sites that repeats the left block, from the chains kept by start()"""
        a, b = copy.deepcopy(self.bulks)
        cls = ts.EvoMPS_TDVP_Sandwich if self.tdvp else ms.EvoMPS_MPS_Sandwich
        return cls(N, a) if b is None else cls(N, a, b)

    def start(self):
        c, rs, rec = self.c, self.rs, self.rec
        N, init = c["N"], c["init"]
        self.hamL = self.rham() if self.tdvp else None
        self.hamR = self.rham() if self.tdvp and self.c["hform"] == "impurity" and init != "bulk" else self.hamL
        a = self.chain(self.LL, self.DL, self.hamL)
        b = None if init == "bulk" else self.chain(self.LR, self.DR, self.hamR)
        self.bulks = (a, b)
        T = lambda x: [ten(y) for y in x.A]
        if init in ("bulk", "two"):
            self.s = rec.call("construct", lambda: self.make(N), snap, stop=True, N=N, AL=T(a), AR=T(b or a))
            if not self.good():
                raise vt.Abandon()
            self.update(1, 0)
            return
        for u in (a, b):
            u.update()
        q = self.q
        for _ in range(100):
            D = [self.DL] + [rs.randint(1, 4) for _ in range(N - 1)] + [self.DR]
            if any(D[n] > q * D[n + 1] or D[n + 1] > q * D[n] for n in range(N)):
                continue
            A = [vt.rnd(rs, (q, D[n], D[n + 1]), self.dt) for n in range(N)]
            A = [x * np.sqrt(D[n]) / np.linalg.norm(x) + 0j for n, x in enumerate(A)]
            _, l, _ = du.fixed([np.asarray(x, dtype=complex) for x in a.A])
            _, _, r = du.fixed([np.asarray(x, dtype=complex) for x in b.A])
            if window_ok(A, l, r):
                break
        else:
            raise vt.Abandon()
        AL, AR = [x.copy() for x in a.A], [x.copy() for x in b.A]
        AC = [x.copy() for x in A]
        if init == "function":
            f = lambda: ms.sandwich_from_tensors(AL, AC, AR)
        else:
            f = lambda: ms.EvoMPS_MPS_Sandwich.from_tensors(AL, AC, AR)
        self.s = rec.call("from", f, snap, stop=True, A=[ten(x) for x in A], AL=T(a), AR=T(b))
        if self.tdvp:
            hC = [self.rham() for _ in range(N + 1)]
            self.s = rec.call("update", lambda: ts.EvoMPS_TDVP_Sandwich.from_mps(self.s, self.hamL, hC, self.hamR, ham_sites=self.hs),
                              snap, stop=True, restore=0, norm=1)
        self.bulks = (self.chain_from(AL, self.hamL), self.chain_from(AR, self.hamR))

    def good(self):
        s = self.s
        l, r = bulk_rho(s)
        return window_ok([np.asarray(s.A[n], dtype=complex) for n in range(1, s.N + 1)], l, r)

    def update(self, r, n):
        s = self.s
        self.rec.call("update", lambda: s.update(restore_CF=bool(r), normalize=bool(n)), lambda _: snap(s), stop=True, restore=r, norm=n)

    # ---- actions
    def do(self, a):
        s, rs, rec, q = self.s, self.rs, self.rec, self.q
        N = s.N
        S = lambda _=None: snap(s)
        op = a[0]
        if op == "update":
            self.update(a[1], a[2])
        elif op == "renorm":
            rec.call("renorm", s.simple_renorm, S, stop=True)
        elif op in ("growl", "growr"):
            L = s.uni_l.L if op == "growl" else s.uni_r.L
            if N + a[1] * L > 8:
                return
            rec.call("grow", lambda: (s.grow_left if op == "growl" else s.grow_right)(a[1]), S, stop=True, m=a[1], left=int(op == "growl"))
        elif op == "centre":
            s.N_centre = 1 + rs.randint(N)
            rec.note("centre", out=snap(s))
        elif op == "poke":
            n = (a[1] - 1) % N + 1
            old = s.A[n]
            for _ in range(50):
                x = old + vt.rnd(rs, old.shape, self.dt) * rs.uniform(0.1, 1) * abs(old).max()
                s.A[n] = np.ascontiguousarray(x * np.linalg.norm(old) / np.linalg.norm(x))
                if self.good():
                    break
            else:
                s.A[n] = old
            rec.note("poke", out=snap(s))
        elif op == "gauge":
            n = a[1] % N
            if n == 0:
                return
            g = du.rgauge(rs, s.A[n].shape[2], self.dt)
            gi = np.linalg.inv(g)
            old = s.A[n], s.A[n + 1]
            s.A[n] = np.array([x.dot(g) for x in s.A[n]])
            s.A[n + 1] = np.array([gi.dot(x) for x in s.A[n + 1]])
            if not self.good():
                s.A[n], s.A[n + 1] = old
            rec.note("poke", out=snap(s))
        elif op == "op":
            n = (a[1] - 1) % N + 1
            old = s.A[n]
            for _ in range(50):
                o = vt.rop(rs, (q, q)) + np.eye(q)
                s.A[n] = np.einsum("st,tij->sij", o, old)
                ok = self.good()
                s.A[n] = old
                if ok:
                    break
            else:
                raise vt.Abandon()
            f = du.maybe_call(rs, o)
            rec.call("op", lambda: s.apply_op_1s(f, n, do_update=bool(a[2])), S, stop=True, n=n, o=opm(o), upd=a[2])
        elif op == "save":
            if self.dir is None:
                self.dir = tempfile.mkdtemp(prefix="vtwin")
            self.file = os.path.join(self.dir, "w.npy")
            self.saved = (N, s.uni_l.L)
            rec.call("save", lambda: s.save_state(self.file), None, stop=True)
        elif op == "load":
            self.load(a[1])
        elif op == "observe":
            getattr(self, "obs_" + a[1])()
        else:
            raise ValueError(op)
        for n in range(1, self.s.N + 1):
            if abs(self.s.A[n]).max() > 16:
                raise vt.Abandon()

    def load(self, kind):
        s, rec = self.s, self.rec
        n, L = self.saved
        plain = self.c["init"] in ("bulk", "two")
        if kind == "file":
            if self.tdvp:
                return self.update(1, 0)
            self.s = rec.call("load", lambda: ms.EvoMPS_MPS_Sandwich.from_file(self.file), snap, stop=True, upd=0, counts=0)
            return
        if kind == "self":
            if n != s.N:
                return self.update(1, 0)
            t = s
        else:
            if not plain or (kind == "grow" and n - L < 2):
                return self.update(1, 0)
            t = self.make(n if kind == "new" else n - L)
        kw = dict(autogrow=True) if kind == "grow" else {}
        rec.call("load", lambda: t.load_state(self.file, **kw), lambda _: snap(t), stop=True, upd=1, counts=1)
        self.s = t

    # ---- observables
    def rop(self, n=1):
        q = self.q
        return vt.rop(self.rs, (q ** n, q ** n), "c" if self.dt == "c" else "r").reshape((q,) * (2 * n))

    def site(self, m=1):
        return int(self.rs.randint(-3, self.s.N + 5 - m))

    def ev(self, m, name):
        s, rec = self.s, self.rec
        for _ in range(3):
            o, n = self.rop(m), self.site(m)
            f = du.maybe_call(self.rs, o)
            rec.call("ev", lambda: getattr(s, name)(f, n), cx, n=n, m=m, o=opm(o))

    def obs_local(self):
        self.ev(1, "expect_1s")

    def obs_three(self):
        self.ev(2, "expect_2s")
        self.ev(3, "expect_3s")

    def obs_pair(self):
        s, rec = self.s, self.rec
        for _ in range(2):
            o, p, n = self.rop(), self.rop(), self.site()
            d = self.rs.randint(1, 5)
            rec.call("pair", lambda: s.expect_1s_1s(o, p, n, n + d), cx, n=n, d=d, o=opm(o), p=opm(p))
            rec.call("pairs", lambda: s.expect_1s_1s(o, p, n, n + d, return_intermediates=True), lambda r: [cx(x) for x in r],
                     n=n, d=d, o=opm(o), p=opm(p))

    def obs_corr(self):
        s, rec = self.s, self.rec
        o, p, n, d = self.rop(), self.rop(), self.site(), self.rs.randint(0, 4)
        rec.call("corr", lambda: s.correlation_1s_1s(o, p, n, d), lambda r: [cx(x) for x in r], n=n, d=d, o=opm(o), p=opm(p))

    def obs_string(self):
        s, rec = self.s, self.rec
        o, n, d = self.rop(), self.site(), self.rs.randint(1, 6)
        rec.call("string", lambda: s.expect_string_1s(o, n, d), lambda r: [cx(x) for x in r], n=n, d=d, o=opm(o))

    def obs_mpo(self):
        s, rec, rs, q = self.s, self.rec, self.rs, self.q
        m, n = rs.randint(1, 4), self.site(3)
        b = [1] + [rs.randint(1, 3) for _ in range(m - 1)] + [1]
        W = [vt.rnd(rs, (b[j], b[j + 1], q, q), self.dt) for j in range(m)]
        rec.call("mpo", lambda: s.expect_MPO(W, n), cx, n=n, W=[vt.mpo(w) for w in W])

    def obs_density(self):
        s, rec, rs = self.s, self.rec, self.rs
        n = int(rs.randint(1, s.N + 1))
        rec.call("rho1", lambda: s.density_1s(n), mat, n=n)
        m = int(rs.randint(1, s.N))
        k = int(rs.randint(m + 1, s.N + 1))
        rec.call("rho2", lambda: s.density_2s(m, k), opm2, n=m, m=k)

    def obs_spectrum(self):
        s, rec = self.s, self.rec
        for _ in range(2):
            n = self.site()
            rec.call("schmidt", lambda: s.schmidt_sq(n), lambda r: [cx(x) for x in np.asarray(r).ravel()], n=n)
        if abs(np.sum(vt.dense(s.l[0]).conj() * vt.dense(s.r[0])) - 1) < 1e-8:
            rec.call("entropy", lambda: s.entropy(n, ret_schmidt_sq=True), lambda r: dict(S=cx(r[0]), lam=[cx(x) for x in np.asarray(r[1]).ravel()]), n=n)

    def obs_get(self):
        s, rec = self.s, self.rec
        for _ in range(3):
            n = self.site()
            rec.call("get", lambda: (s.get_A(n), s.get_l(n), s.get_r(n), s.get_D(n), s.get_q(n)),
                     lambda r: dict(A=ten(r[0]), l=mat(r[1]), r=mat(r[2]), D=int(r[3]), q=int(r[4])), n=n)

    def obs_overlap(self):
        s, rec, rs = self.s, self.rec, self.rs
        t = copy.deepcopy(s)
        k = [0, 1, 2, 3, 3][rs.randint(5)]
        if k == 3:                  # other chains: orthogonal states
            for u, L, D in ((t.uni_l, s.uni_l.L, s.uni_l.D), (t.uni_r, s.uni_r.L, s.uni_r.D)):
                if rs.randint(2):
                    A = du.rstate(rs, L, self.q, D, self.dt)
                    if abs(du.transfer([np.asarray(x) for x in u.A], A)).max() < 1e-3:
                        raise vt.Abandon()
                    for j in range(L):
                        u.A[j] = A[j] + 0j
                    w = np.sort(abs(np.linalg.eigvals(du.transfer([np.asarray(x) for x in (s.uni_l if u is t.uni_l else s.uni_r).A],
                                                                  du.fixed(A)[0]))))
                    if w[-1] > 0.98:
                        return
                    break
            else:
                return
            t.update()
            rec.call("overlap0", lambda: s.overlap(t), cx)
            return
        for u, first, last in ((t.uni_l, 1, None), (t.uni_r, None, s.N)):
            # other gauge of the chain, at the bond where it meets the window, and inside
            D = u.D
            g = du.rgauge(rs, D, self.dt)
            gi = np.linalg.inv(g)
            u.A[u.L - 1] = np.array([x.dot(g) for x in u.A[u.L - 1]])
            u.A[0] = np.array([gi.dot(x) for x in u.A[0]])
            if first:
                t.A[1] = np.array([gi.dot(x) for x in t.A[1]])
            else:
                t.A[last] = np.array([x.dot(g) for x in t.A[last]])
        if k:
            n = int(rs.randint(1, s.N + 1))
            t.A[n] = t.A[n] + vt.rnd(rs, t.A[n].shape, self.dt) * rs.uniform(0.1, 1) * abs(t.A[n]).max()
        keep, self.s = self.s, t
        ok = self.good()
        self.s = keep
        if not ok:
            return
        rec.call("update", t.update, None)
        if "exc" not in rec.ev[-1]:
            rec.ev.pop()
        rec.call("overlap", lambda: s.overlap(t), cx, other=snap(t))


def opm2(r):
    r = np.asarray(r)
    return mat(r) if r.ndim == 2 else opm(r)


def handler(rec, c, rs):
    rec.cfg = dict(kind="win")
    w = World(rec, c, rs)
    try:
        w.start()
        for a in c["hist"]:
            w.do(a)
            if a[0] in ("observe", "save"):
                rec.call("still", lambda: None, lambda _: snap(w.s))
    finally:
        if w.dir:
            shutil.rmtree(w.dir, ignore_errors=True)


if __name__ == "__main__":
    vt.main(handler)
