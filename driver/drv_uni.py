"""Replays histories of UniGen.tla on uniform chains (mps_uniform.py, mps_uniform_pinv.py, tdvp_uniform.py)."""
import os, copy, tempfile, shutil
import numpy as np
import vt
from vt import mat, ten, cx, fx, opm
import evoMPS.mps_uniform as mu
import evoMPS.tdvp_uniform as tu

GAP = 0.88          # largest |lambda_2 / lambda_1| of the states explored
LMIN = 2e-4         # smallest squared Schmidt coefficient


def snap(s):
    return dict(A=[ten(a) for a in s.A], l=[mat(x) for x in s.l], r=[mat(x) for x in s.r],
                D=int(s.D), q=int(s.q), L=int(s.L))


# ---- reference computations of the driver (scene selection only, never compared with the code)
def transfer(A, B=None):
    B = A if B is None else B
    n = np.lcm(len(A), len(B))
    E = None
    for k in range(n):
        a, b = A[k % len(A)], B[k % len(B)]
        e = sum(np.kron(x, y.conj()) for x, y in zip(a, b))
        E = e if E is None else E.dot(e)
    return E


def gap(A, B=None):
    """|second| / |first| eigenvalue"""
    w = np.sort(abs(np.linalg.eigvals(transfer(A, B))))[::-1]
    return 0.0 if len(w) == 1 else w[1] / max(w[0], 1e-300)


def fixed(A):
    """normalised tensors and environments"""
    D = A[0].shape[1]
    E = transfer(A)
    w, vl, vr = None, None, None
    w, v = np.linalg.eig(E)
    j = np.argmax(abs(w))
    r = v[:, j].reshape((D, D))
    r = r / np.trace(r) * abs(np.trace(r))
    w2, u = np.linalg.eig(E.conj().T)
    l = u[:, np.argmax(abs(w2))].reshape((D, D))
    l = l / np.trace(l) * abs(np.trace(l))
    f = abs(w[j]) ** (-0.5 / len(A))
    A = [a * f for a in A]
    n = np.trace(l.conj().T.dot(r)).real
    return A, l / np.sqrt(n), r / np.sqrt(n)


def schmidt2(A):
    A, l, r = fixed(A)
    res = []
    for a in A:
        l = sum(x.conj().T.dot(l).dot(x) for x in a)
        res.append(l)
    res2 = [None] * len(A)
    for k in range(len(A) - 1, -1, -1):
        res2[k] = r
        r = sum(x.dot(r).dot(x.conj().T) for x in A[k])
    return [np.sort(abs(np.linalg.eigvals(x.dot(y)))) for x, y in zip(res, res2)]


def good(A, rank=None, lmin=LMIN, g=GAP):
    try:
        if not all(np.all(np.isfinite(a)) for a in A):
            return False
        if max(np.linalg.norm(a) for a in A) == 0 or gap(A) > g:
            return False
        s = schmidt2(A)
        k = len(s[0]) if rank is None else rank
        return all(x[-k] > lmin for x in s)
    except np.linalg.LinAlgError:
        return False


def rstate(rs, L, q, D, dt, tries=200, lmin=LMIN):
    for _ in range(tries):
        A = [vt.rnd(rs, (q, D, D), "r" if dt != "c" else "c") for _ in range(L)]
        A = [a / np.linalg.norm(a) * np.sqrt(D) for a in A]
        if good(A, lmin=lmin):
            return A
        D_ = D
    raise vt.Abandon()


def gauged(rs, A, dt):
    """another gauge of the same state, not too badly conditioned"""
    L, D = len(A), A[0].shape[1]
    B = [a.copy() for a in A]
    for k in range(L):
        g = rgauge(rs, D, dt)
        gi = np.linalg.inv(g)
        B[k] = np.array([x.dot(g) for x in B[k]])
        j = (k + 1) % L
        B[j] = np.array([gi.dot(x) for x in B[j]])
    worst = max(abs(b).max() for b in B)
    return B if worst <= max(2.0, max(abs(a).max() for a in A)) else [a.copy() for a in A]


def rgauge(rs, D, dt):
    if dt == "c":
        u = vt.unitary(rs, D)
        v = vt.unitary(rs, D)
    else:
        u = np.linalg.qr(rs.normal(size=(D, D)))[0]
        v = np.linalg.qr(rs.normal(size=(D, D)))[0]
    return u.dot(np.diag(rs.uniform(0.6, 1.6, D))).dot(v)


def z2state(rs, L, q, D, dt):
    """tensors with op A = g A g^-1, op = diag(+-1)"""
    par = np.array([0, 1, 0])[:q]
    p = np.array([0, 1, 0, 1, 1, 0, 1, 0])[:D]
    for _ in range(300):
        A = []
        for _k in range(L):
            a = vt.rnd(rs, (q, D, D), "c" if dt == "c" else "r")
            for s in range(q):
                a[s][(p[:, None] + p[None, :] + par[s]) % 2 == 1] = 0
            A.append(a / np.linalg.norm(a) * np.sqrt(D))
        if good(A):
            return A, np.diag((-1.0) ** par)
    raise vt.Abandon()


def u1state(rs, L, D, dt):
    """q = 3 tensors conserving a charge: A_s[a,b] = 0 unless n_a - n_b = c_s"""
    ch = np.array([1, 0, -1])
    n = np.array([0, 1, 0, 1, -1, 0, 1, -1])[:D]
    for _ in range(300):
        A = []
        for _k in range(L):
            a = vt.rnd(rs, (3, D, D), "c" if dt == "c" else "r")
            for s in range(3):
                a[s][(n[:, None] - n[None, :]) != ch[s]] = 0
            A.append(a / np.linalg.norm(a) * np.sqrt(D))
        if good(A):
            return A, np.diag(ch.astype(float))
    raise vt.Abandon()


def as_callable(o):
    return lambda *idx: o[tuple(int(i) for i in idx)]


def maybe_call(rs, o, cplx=True):
    return as_callable(o) if cplx and rs.randint(3) == 0 else o


class World(object):
    def __init__(self, rec, c, rs):
        self.rec, self.c, self.rs = rec, c, rs
        self.L, self.q, self.D, self.dt = c["L"], c["q"], c["D"], c["dt"]
        self.typ = np.float64 if self.dt == "f" else np.complex128
        self.ham = None
        self.cur = False
        self.s = None
        self.rank = None
        if self.D ** 2 > self.q ** (2 * self.L) * 9:
            raise vt.Abandon()

    # ---- construction
    def rham(self):
        q, n = self.q, self.c["hs"]
        h = vt.herm(self.rs, q ** n, "c" if self.dt == "c" else "r", 1.0)
        return (h.real.copy() if self.dt == "f" else h).reshape((q,) * (2 * n))

    def new(self, upd=False, L=None, D=None):
        L = L or self.L
        D = D or self.D
        if self.c["cls"] == "tdvp":
            if self.ham is None:
                self.ham = self.rham()
            s = tu.EvoMPS_TDVP_Uniform(D, self.q, self.ham, L=L, dtype=self.typ, do_update=upd)
        else:
            s = mu.EvoMPS_MPS_Uniform(D, self.q, L=L, dtype=self.typ, do_update=upd)
        self.tune(s)
        return s

    def tune(self, s):
        s.symm_gauge = bool(self.c["symm"])
        self.set_solver(s, self.c["solver"])

    def set_solver(self, s, x):
        s.ev_brute = x == "brute"
        s.ev_use_arpack = x != "power"

    def start(self):
        c, rs, rec = self.c, self.rs, self.rec
        init = c["init"]
        fields = dict(D=self.D, q=self.q, L=self.L)
        if init == "default":
            for _ in range(20):
                s = self.new()
                if good([np.asarray(a, dtype=complex) for a in s.A]):
                    break
            else:
                raise vt.Abandon()
            rec.note("construct", upd=0, out=snap(s), **fields)
            self.s = s
            self.update(1, 0)
        elif init == "from":
            A = rstate(rs, self.L, self.q, self.D, self.dt)
            if self.dt == "f":
                A = [a.real.copy() for a in A]
            elif self.dt == "r":
                A = [a + 0j for a in A]
            u = rs.randint(2)
            if c["cls"] == "tdvp":
                self.ham = self.rham()
                f = lambda: tu.EvoMPS_TDVP_Uniform.from_tensors(A, self.ham, do_update=bool(u))
            else:
                f = lambda: mu.EvoMPS_MPS_Uniform.from_tensors(A, do_update=bool(u))
            self.s = rec.call("from", f, snap, stop=True, T=[ten(a) for a in A], upd=int(u))
            self.tune(self.s)
        else:
            s = self.new()
            self.rank = rs.randint(1, self.D + 1)
            core = rstate(rs, self.L, self.q, self.rank, self.dt)
            A = [np.zeros((self.q, self.D, self.D), dtype=self.typ) for _ in core]
            for a, b in zip(A, core):
                a[:, :self.rank, :self.rank] = b
            A = gauged(rs, A, self.dt)
            for k in range(self.L):
                s.A[k][:] = A[k] * rs.uniform(0.8, 1.2)
            s.zero_tol = 1e-9
            self.s = s
            rec.note("poke", out=snap(s))
            self.update(1, rs.randint(2))

    def check(self):
        """keep to states whose transfer map has a gap"""
        if not good([np.asarray(a, dtype=complex) for a in self.s.A], rank=self.rank):
            raise vt.Abandon()

    def update(self, r, t):
        s = self.s
        if self.rank is None or self.rank == s.D:
            rank, t2 = 0, t
        else:
            rank, t2 = (self.rank if r and t else 0), t
        kw = dict(restore_CF=bool(r), auto_truncate=bool(t and r), restore_CF_after_trunc=True)
        self.rec.call("update", lambda: s.update(**kw), lambda _: snap(s), stop=True, restore=int(r), trunc=int(t and r),
                      symm=int(s.symm_gauge), rank=int(rank))
        self.cur = True

    def poke(self):
        self.check()
        self.rec.note("poke", out=snap(self.s))

    # ---- actions
    def do(self, a):
        s, rs, rec, q, L = self.s, self.rs, self.rec, self.q, self.L
        D = s.D
        S = lambda _=None: snap(s)
        op = a[0]
        if op in ("scf", "rcf", "lcf"):
            self.cur = False        # products of tensors are refreshed by update() only
        elif op in ("noise", "randomize", "op", "truncate", "auto") and a[-1]:
            self.cur = True
        if op == "update":
            self.update(a[1], a[2])
        elif op == "symm":
            s.symm_gauge = bool(a[1])
        elif op == "solver":
            self.set_solver(s, a[1])
        elif op == "gauge":
            k = a[1] - 1
            g = rgauge(rs, D, self.dt)
            gi = np.linalg.inv(g)
            B = [np.asarray(x) for x in s.A]
            B[k] = np.array([x.dot(g) for x in B[k]])
            j = (k + 1) % L
            B[j] = np.array([gi.dot(x) for x in B[j]])
            if max(abs(x).max() for x in B) <= 2:
                for n in range(L):
                    s.A[n] = B[n]
            self.poke()
        elif op == "rescale":
            f = rs.uniform(0.8, 1.25) * (np.exp(1j * rs.uniform(0, 6)) if self.dt != "f" else (-1.0) ** rs.randint(2))
            s.A[a[1] - 1] = s.A[a[1] - 1] * f
            self.poke()
        elif op == "noise":
            fac = 2.0 ** -8
            st0 = np.random.get_state()
            A0 = [x.copy() for x in s.A]
            B = [x.copy() for x in s.A]
            m = max(np.linalg.norm(x) for x in A0) * fac / (q * D * D)
            if a[1]:
                t = copy.copy(s)
                t.A = B
                t.add_noise(fac=fac, do_update=False)
                if not good([np.asarray(x, dtype=complex) for x in t.A]):
                    raise vt.Abandon()
                np.random.set_state(st0)
            rec.call("noise", lambda: s.add_noise(fac=fac, do_update=bool(a[1])), S, stop=True, upd=a[1],
                     fac=fx(m), symm=int(s.symm_gauge))
            self.rank = None
            self.check()
        elif op == "randomize":
            rec_ = self.rec
            # only random states with a gap are explored
            keep = np.random.get_state()
            for _ in range(50):
                keep = np.random.get_state()
                t = copy.copy(s)
                t.A = [x.copy() for x in s.A]
                t.randomize(do_update=False)
                if good([np.asarray(x, dtype=complex) for x in t.A]):
                    break
            else:
                raise vt.Abandon()
            np.random.set_state(keep)
            self.rank = None
            rec.call("randomize", lambda: s.randomize(do_update=bool(a[1])), S, stop=True, upd=a[1], symm=int(s.symm_gauge))
        elif op == "op":
            k = a[1] - 1
            for _ in range(50):
                o = vt.rop(rs, (q, q), "r" if self.dt == "f" else "c") + np.eye(q)
                A = [np.asarray(x, dtype=complex) for x in s.A]
                A[k] = np.einsum("st,tij->sij", o, A[k])
                if good(A, rank=self.rank):
                    break
            else:
                raise vt.Abandon()
            f = maybe_call(rs, o, self.dt != 'f')
            if self.dt == "f" and callable(f):
                f = o
            rec.call("op", lambda: s.apply_op_1s(f, k, do_update=bool(a[2])), S, stop=True, k=a[1], o=opm(o), upd=a[2],
                     symm=int(s.symm_gauge))
        elif op == "scf":
            rec.call("scf", lambda: s.restore_SCF(), S, stop=True, ks=list(range(1, L + 1)), retg=0)
        elif op in ("rcf", "lcf"):
            diag, j, g = a[1:]
            ks = None if j == 0 else sorted(set([j - 1, rs.randint(L)]))
            kk = list(range(1, L + 1)) if ks is None else [k + 1 for k in ks]
            if op == "rcf":
                f = lambda: s.restore_RCF(diag_l=bool(diag), ks=ks, ret_g=bool(g))
            else:
                f = lambda: s.restore_LCF(diag_r=bool(diag), ks=ks, ret_g=bool(g))

            def enc(r):
                d = snap(s)
                if g:
                    d["G"] = [[] if x is None else mat(x) for x in r[0]]
                    d["Gi"] = [[] if x is None else mat(x) for x in r[1]]
                return d
            rec.call(op, f, enc, stop=True, ks=kk, diag=diag, retg=g)
            if ks is not None and max(abs(np.asarray(x)).max() for x in s.A) > 8:
                rec.ev.pop()      # tensors between different gauges: too large for the arithmetic of the specification
                raise vt.Abandon()
        elif op == "truncate":
            self.update(1, 0)
            if a[1] < s.D and (self.rank is None or a[1] <= self.rank) and self.distinct(a[1]):
                d = a[1]
                t = copy.deepcopy(s)
                self.tr(t, d)
                if not good([np.asarray(x, dtype=complex) for x in t.A]):
                    raise vt.Abandon()
                rec.call("truncate", lambda: s.truncate(d, update=bool(a[2])), S, stop=True, newD=d, upd=a[2],
                         symm=int(s.symm_gauge))
                self.rank = None
            elif not a[2]:
                self.poke()
        elif op == "auto":
            self.update(1, 0)
            tol = {2: 0.05, 4: 1e-3, 9: 1e-9}[a[1]]
            w = [np.diag(vt.dense(x)).real for x in s.l]
            d = max([1] + [int(np.sum(x > tol)) for x in w])
            if any(np.any(abs(x - tol) < 1e-5) for x in w) and tol > 1e-5:
                raise vt.Abandon()
            if d < s.D:
                if not self.distinct(d):
                    raise vt.Abandon()
                t = copy.deepcopy(s)
                self.tr(t, d)
                if not good([np.asarray(x, dtype=complex) for x in t.A]):
                    raise vt.Abandon()
            rec.call("auto", lambda: s.auto_truncate(update=bool(a[2]), zero_tol=tol), lambda r: dict(snap(s), did=int(bool(r))),
                     stop=True, upd=a[2], tol=fx(tol), symm=int(s.symm_gauge))
            self.rank = None
            if not a[2]:
                self.poke()
        elif op == "observe":
            getattr(self, "obs_" + a[1])()
        else:
            raise ValueError(op)

    def distinct(self, d):
        """the d largest weights are separated from the others at every bond"""
        for x in self.s.l:
            w = np.sort(np.diag(vt.dense(x)).real)[::-1]
            if d < len(w) and w[d - 1] - w[d] < 1e-5:
                return False
        return True

    def tr(self, t, d):
        K = [np.sort(np.argsort(-np.diag(vt.dense(x)).real, kind="stable")[:d]) for x in t.l]
        t.A = [t.A[k][:, K[k - 1]][:, :, K[k]] for k in range(t.L)]

    # ---- observables (each leaves the object as it was)
    def q_(self, op, fn, enc, **kw):
        return self.rec.call(op, fn, enc, **kw)

    def rop(self, shape):
        return vt.rop(self.rs, shape, "r" if self.dt == "f" else "c")

    def ops(self, n):
        q = self.q
        return self.rop((q ** n, q ** n)).reshape((q,) * (2 * n))

    def obs_local(self):
        s, rs, q, L = self.s, self.rs, self.q, self.L
        for k in range(L):
            o = self.ops(1)
            self.q_("ev", lambda: s.expect_1s(o, k), cx, k=k + 1, m=1, o=opm(o))
            o = self.ops(2)
            self.q_("ev", lambda: s.expect_2s(o, k), cx, k=k + 1, m=2, o=opm(o))
            p = [(self.ops(1), self.ops(1)) for _ in range(rs.randint(1, 3))]
            o = sum(np.kron(x, y) for x, y in p)
            self.q_("ev", lambda: s.expect_2s_tp(p, k), cx, k=k + 1, m=2, o=opm(o), tp=1)
        if self.c["cls"] == "tdvp" and self.cur and s.ham_sites == 2:
            for k in range(L):
                self.q_("ev", lambda: s.expect_2s(s.ham, k), cx, k=k + 1, m=2, o=opm(self.ham), own=1)

    def obs_three(self):
        s, L = self.s, self.L
        for k in range(L):
            o = self.ops(3)
            self.q_("ev", lambda: s.expect_3s(o, k), cx, k=k + 1, m=3, o=opm(o))
        if self.c["cls"] == "tdvp" and self.cur and s.ham_sites == 3:
            for k in range(L):
                self.q_("ev", lambda: s.expect_3s(s.ham, k), cx, k=k + 1, m=3, o=opm(self.ham), own=1)

    def obs_call(self):
        s, rs, L = self.s, self.rs, self.L
        if self.dt == 'f':      # operators given as functions are complex
            return
        k = rs.randint(L)
        for n, f in ((1, s.expect_1s), (2, s.expect_2s), (3, s.expect_3s)):
            o = self.ops(n)
            self.q_("ev", lambda: f(as_callable(o), k), cx, k=k + 1, m=n, o=opm(o), call=1)
        a, b = self.ops(1), self.ops(1)
        d = rs.randint(1, 5)
        self.q_("pairs", lambda: s.expect_1s_1s(as_callable(a), as_callable(b), d, k, return_intermediates=True),
                lambda r: [cx(x) for x in r], k=k + 1, d=int(d), o=opm(a), p=opm(b))
        self.q_("corr", lambda: s.correlation_1s_1s(as_callable(a), as_callable(b), d, k),
                lambda r: [cx(x) for x in r], k=k + 1, d=int(d), o=opm(a), p=opm(b))
        self.q_("string", lambda: s.expect_string_1s(as_callable(a), k, d), lambda r: [cx(x) for x in r], k=k + 1, d=int(d), o=opm(a))

    def obs_pair(self):
        s, rs, L = self.s, self.rs, self.L
        for k in range(L):
            a, b = self.ops(1), self.ops(1)
            d = int(rs.randint(1, 6))
            self.q_("pair", lambda: s.expect_1s_1s(a, b, d, k), cx, k=k + 1, d=d, o=opm(a), p=opm(b))
            self.q_("pairs", lambda: s.expect_1s_1s(a, b, d, k, return_intermediates=True), lambda r: [cx(x) for x in r],
                    k=k + 1, d=d, o=opm(a), p=opm(b))

    def obs_corr(self):
        s, rs, L = self.s, self.rs, self.L
        for k in range(L):
            a = self.ops(1)
            b = a if rs.randint(3) == 0 else self.ops(1)
            d = int(rs.randint(1, 6))
            self.q_("corr", lambda: s.correlation_1s_1s(a, b, d, k), lambda r: [cx(x) for x in r],
                    k=k + 1, d=d, o=opm(a), p=opm(b))
            self.q_("corr_ex", lambda: s.correlation_1s_1s(a, b, d, k, return_exvals=True),
                    lambda r: dict(c=[cx(x) for x in r[0]], e1=[cx(x) for x in r[1]], e2=[cx(x) for x in r[2]]),
                    k=k + 1, d=d, o=opm(a), p=opm(b))

    def obs_density(self):
        s = self.s
        for k in range(self.L):
            self.q_("rho1", lambda: s.density_1s(k), mat, k=k + 1)
            self.q_("occ", lambda: s.basis_occupancy(k), lambda r: [cx(x) for x in r], k=k + 1)

    def obs_spectrum(self):
        s = self.s
        for k in range(self.L):
            self.q_("schmidt", lambda: s.schmidt_sq(k), lambda r: [cx(x) for x in np.asarray(r).ravel()], k=k + 1)
            self.q_("entropy", lambda: s.entropy(k), cx, k=k + 1)
            self.q_("entropy_l", lambda: s.entropy(k, ret_schmidt_sq=True),
                    lambda r: dict(S=cx(r[0]), lam=[cx(x) for x in np.asarray(r[1]).ravel()]), k=k + 1)

    def obs_length(self):
        s = self.s
        self.q_("corrlen", lambda: s.correlation_length(), cx)
        if s.D > 1:
            self.q_("gap", lambda: s.calc_E_gap(), cx)

    def opgap(self, o):
        A = [np.asarray(a, dtype=complex) for a in self.s.A]
        return int(gap([np.einsum("st,tij->sij", o, a) for a in A], A) < GAP)

    def obs_string(self):
        s, rs, L = self.s, self.rs, self.L
        for k in range(L):
            o = self.ops(1) + np.eye(self.q) * rs.randint(2)
            d = int(rs.randint(1, 5))
            self.q_("string", lambda: s.expect_string_1s(o, k, d), lambda r: [cx(x) for x in r], k=k + 1, d=d, o=opm(o))
        o = self.ops(1) + np.eye(self.q)
        f = maybe_call(rs, o, self.dt != 'f')
        self.q_("string_site", lambda: s.expect_string_per_site_1s(f), lambda r: cx(np.asarray(r).ravel()[0]), o=opm(o), gapok=self.opgap(o))

    def other(self, L=None, D=None):
        rs = self.rs
        L = L or [1, 2, 3][rs.randint(3)]
        D = D or rs.randint(1, 5)
        A = rstate(rs, L, self.q, D, "c" if self.typ is np.complex128 else "f")
        A, _, _ = fixed(A)
        o = mu.EvoMPS_MPS_Uniform(D, self.q, L=L, dtype=self.typ, do_update=False)
        for k in range(L):
            o.A[k][:] = A[k] if self.typ is np.complex128 else A[k].real
        o.symm_gauge = bool(rs.randint(2))
        o.update(restore_CF=bool(rs.randint(2)))
        return o

    def near(self, noise=0.0):
        """a state equal to this one up to gauge, phase (and noise)"""
        s, rs = self.s, self.rs
        A = gauged(rs, [np.asarray(a) for a in s.A], self.dt)
        A = [a + noise * vt.rnd(rs, a.shape, "r" if self.dt == "f" else "c") for a in A]
        if self.dt != "f":
            A[0] = A[0] * np.exp(1j * rs.uniform(0, 6))
        A, _, _ = fixed(A)
        o = mu.EvoMPS_MPS_Uniform(s.D, self.q, L=self.L, dtype=self.typ, do_update=False)
        for k in range(self.L):
            o.A[k][:] = A[k] if self.typ is np.complex128 else A[k].real
        o.symm_gauge = bool(rs.randint(2))
        o.update(restore_CF=bool(rs.randint(2)))
        return o

    def obs_fidelity(self):
        s, rs = self.s, self.rs
        for j in range(3):
            o = self.near(0.05 * j) if j < 2 else self.other()
            A, B = [np.asarray(a, dtype=complex) for a in s.A], [np.asarray(a, dtype=complex) for a in o.A]
            g = int(gap(A, B) < GAP)
            for full in (0, 1):
                left = int(rs.randint(2))
                kw = dict(full_output=bool(full), left=bool(left))
                how = rs.randint(3)
                if how == 1:
                    kw["force_sparse"] = True
                elif how == 2:
                    kw["force_dense"] = True
                def enc(r):
                    return dict(d=fx(r[0]), w=cx(r[1]), V=[[cx(x)] for x in np.asarray(r[2]).ravel()] if full else [])
                self.q_("fid", lambda: s.fidelity_per_site(o, **kw), enc, B=[ten(b) for b in o.A], gapok=g, left=left,
                        sparse=int(how == 1))

    def obs_phase(self):
        s, rs = self.s, self.rs
        o = self.near(0.05 * rs.randint(2)) if rs.randint(3) else self.other(L=self.L)
        A, B = [np.asarray(a, dtype=complex) for a in s.A], [np.asarray(a, dtype=complex) for a in o.A]
        g = int(gap(A, B) < GAP)
        if self.dt == "f":
            return
        self.rec.call("phase", lambda: s.phase_align(o), lambda _: snap(s), stop=True, B=[ten(b) for b in o.A], gapok=g)
        if rs.randint(2):
            op = self.ops(2)
            k = rs.randint(self.L)
            self.q_("ev", lambda: s.expect_2s(op, k), cx, k=k + 1, m=2, o=opm(op), after="phase")

    def obs_align(self):
        s, rs = self.s, self.rs
        same = int(rs.randint(4) > 0)
        if self.dt == "f" or (self.rank is not None and self.rank < s.D):
            return
        if max(abs(np.asarray(x)).max() for x in list(s.l) + list(s.r)) > 4:
            return                # aligning rescales the environments
        o = self.near() if same else self.other(L=self.L, D=s.D)
        if not same and gap([np.asarray(a, dtype=complex) for a in s.A], [np.asarray(a, dtype=complex) for a in o.A]) > GAP:
            return
        if not same and s.D == 1 and abs(abs(np.linalg.eigvals(transfer(s.A, o.A)).item()) - 1) < 1e-3:
            return

        def enc(r):
            d = snap(s)
            d["none"] = int(r is None)
            if r is not None:
                d["G"] = [mat(x) for x in r[0]]
                d["Gi"] = [mat(x) for x in r[1]]
            else:
                d["G"] = d["Gi"] = []
            return d
        self.cur = False
        self.rec.call("align", lambda: s.gauge_align(o), enc, stop=True, B=[ten(b) for b in o.A], same=same)

    def symmetric(self, kind):
        """switch to a state with a symmetry"""
        s, rs = self.s, self.rs
        if kind == "z2":
            A, o = z2state(rs, self.L, self.q, s.D, self.dt)
        else:
            A, o = u1state(rs, self.L, s.D, self.dt)
        A = gauged(rs, A, self.dt)
        for k in range(self.L):
            s.A[k][:] = A[k] if self.typ is np.complex128 else A[k].real
        self.rank = None
        self.poke()
        self.update(1, 0)
        # the virtual operator commutes with the Schmidt weights only when these are distinct across sectors
        for x in s.l:
            w = np.sort(np.diag(vt.dense(x)).real)
            if len(w) > 1 and np.min(np.diff(w)) < 1e-4:
                raise vt.Abandon()
        return o

    def obs_symmetry(self):
        s, rs = self.s, self.rs
        o = self.symmetric("z2")
        f = maybe_call(rs, o, self.dt != 'f')
        for k in range(self.L):
            def enc(r):
                w = np.asarray(r[1]).ravel()[0]
                return dict(ev=[cx(x) for x in np.asarray(r[0]).ravel()], w=cx(w), V=mat(vt.dense(r[2]).reshape((s.D, s.D))))
            self.q_("string_hc", lambda: s.expect_string_1s_density_hc(f, k, return_g=True), enc, k=k + 1, o=opm(o))

    def obs_charge(self):
        s = self.s
        if self.q != 3 or s.D == 1:
            return
        o = self.symmetric("u1")
        for k in range(self.L):
            def enc(r):
                return dict(ev=[cx(x) for x in np.asarray(r[0]).ravel()], x=cx(r[1]), V=mat(vt.dense(r[2]).reshape((s.D, s.D))))
            self.q_("sum_hc", lambda: s.expect_sum_1s_density_hc(o, k, tol=1e-9, return_g=True), enc, k=k + 1, o=opm(o))


def handler(rec, c, rs):
    rec.cfg = dict(kind="uni")
    w = World(rec, c, rs)
    w.start()
    for a in c["hist"]:
        w.do(a)
        if c["fam"] == "uobs":
            rec.call("still", lambda: None, lambda _: snap(w.s))


if __name__ == "__main__":
    vt.main(handler)
