"""Replays histories of FiniteGen.tla on finite chains (mps_gen.py, tdvp_gen.py)."""
import os, copy, tempfile, shutil
import numpy as np
import vt
from vt import mat, ten, cx, fx, opm, mpo
import evoMPS.mps_gen as mg
import evoMPS.tdvp_gen as tg


def snap(s):
    """what the object says about its state"""
    N = int(s.N)
    return dict(A=[ten(s.A[n]) for n in range(1, N + 1)],
                l=[mat(s.l[n]) for n in range(N + 1)],
                r=[mat(s.r[n]) for n in range(N + 1)],
                D=[int(x) for x in s.D], q=[int(x) for x in s.q[1:]])


def rtens(rs, qs, Ds, dt, norm=None):
    """random site tensors [None, A1..AN]; the state gets the given norm"""
    N = len(qs)
    A = [None] + [vt.rnd(rs, (qs[n], Ds[n], Ds[n + 1]), dt) for n in range(N)]
    if norm is not None:
        nr = np.sqrt(abs(vnorm2(A)))
        A[rs.randint(1, N + 1)] *= norm / nr
        even(A)
    return A


def even(A):
    """even out the sizes of the tensors"""
    f = [np.sqrt(np.sum(abs(a) ** 2)) for a in A[1:]]
    g = np.exp(np.mean(np.log(f)))
    for n in range(1, len(A)):
        A[n] *= g / f[n - 1]


def vec(A):
    x = np.ones((1, 1))
    for a in A[1:]:
        x = np.einsum("ij,sjk->isk", x, a).reshape((-1, a.shape[2]))
    return x.ravel()


def vnorm2(A):
    return np.vdot(vec(A), vec(A)).real


def valid_D(rs, qs, Dmax, over=False):
    N = len(qs)
    D = [1] + [rs.randint(1, Dmax + 1) for _ in range(N - 1)] + [1]
    if over and rs.randint(3) == 0:      # more columns than the rank can be
        return D
    for n in range(N - 1, 0, -1):
        D[n] = min(D[n], D[n + 1] * qs[n])
    for n in range(1, N):
        D[n] = min(D[n], D[n - 1] * qs[n - 1])
    return D


def lowrank(rs, qs, D, dt):
    """tensors of the full shape whose state has smaller Schmidt rank, with mixed gauge"""
    N = len(qs)
    k = [1] + [rs.randint(1, D[n] + 1) for n in range(1, N)] + [1]
    core = rtens(rs, qs, k, dt)
    A = [None]
    for n in range(N):
        a = np.zeros((qs[n], D[n], D[n + 1]), dtype=complex)
        a[:, :k[n], :k[n + 1]] = core[n + 1]
        A.append(a)
    for n in range(1, N):
        u = vt.unitary(rs, D[n]) if dt == "c" else np.linalg.qr(rs.normal(size=(D[n], D[n])))[0]
        A[n] = np.array([x.dot(u) for x in A[n]])
        A[n + 1] = np.array([u.conj().T.dot(x) for x in A[n + 1]])
    nr = np.sqrt(vnorm2(A))
    A[1] = A[1] / nr * rs.uniform(0.7, 1.4)
    even(A)
    return A


def gop(rs, q, dt, scale=1.0):
    return vt.rop(rs, (q, q), dt, scale)


def nop(rs, qs, dt):
    """operator on neighbouring sites as an array op[s1..sk,t1..tk]"""
    d = int(np.prod(qs))
    return vt.rop(rs, (d, d), dt).reshape(tuple(qs) * 2)


def as_callable(o):
    return lambda *idx: o[tuple(int(i) for i in idx)]


def rmpo(rs, qs, dt, mmax=2):
    k = len(qs)
    b = [1] + [rs.randint(1, mmax + 1) for _ in range(k - 1)] + [1]
    return [vt.rop(rs, (b[j], b[j + 1], qs[j], qs[j]), dt) for j in range(k)]


class World(object):
    def __init__(self, rec, c, rs):
        self.rec, self.c, self.rs = rec, c, rs
        self.N = N = c["N"]
        self.qs = [c["q%d" % (j + 1)] for j in range(N)]
        self.dt = c["dt"]
        self.s = None

    def ham(self):
        rs, qs = self.rs, self.qs
        h = [None]
        for n in range(self.N - 1):
            d = qs[n] * qs[n + 1]
            h.append(vt.herm(rs, d, self.dt).reshape((qs[n], qs[n + 1]) * 2))
        return h

    def make(self, Ds=None):
        c, rs, qs, N = self.c, self.rs, self.qs, self.N
        if Ds is None:
            Ds = [rs.randint(1, 5)] + [c["d%d" % (j + 1)] for j in range(N - 1)] + [rs.randint(1, 5)]
        q = [0] + qs
        if c["cls"] == "tdvp":
            s = tg.EvoMPS_TDVP_Generic(N, list(Ds), q, self.ham())
            s.canonical_form = c["cf"]
            s.gauge_fixing = c["cf"]
        else:
            s = mg.EvoMPS_MPS_Generic(N, list(Ds), q)
            s.canonical_form = c["cf"]
        return s, [int(d) for d in Ds]

    def start(self):
        c, rs, qs, N, rec = self.c, self.rs, self.qs, self.N, self.rec
        x = rec.call("construct", lambda: self.make(), lambda r: dict(snap(r[0]), Dreq=r[1]), stop=True,
                     none=[1])
        self.s = s = x[0]
        kind = c["init"]
        D = [int(d) for d in s.D]
        if kind == "default":
            rec.call("update", lambda: s.update(), lambda _: snap(s), stop=True, restore=1, norm=1, cf=s.canonical_form)
        elif kind == "random":
            rec.call("randomize", lambda: s.randomize(), lambda _: snap(s), stop=True, upd=1, cf=s.canonical_form)
        elif kind == "product":
            self.product(1)
        elif kind in ("set", "lowrank"):
            A = lowrank(rs, qs, D, self.dt) if kind == "lowrank" else rtens(rs, qs, valid_D(rs, qs, 4, True), self.dt, rs.uniform(0.7, 1.4))
            rec.call("set", lambda: s.set_state_from_tensors(A), lambda _: snap(s), stop=True, T=[ten(a) for a in A[1:]],
                     upd=1, cf=s.canonical_form)
        elif kind == "from":
            self.from_tensors(1)

    def product(self, u):
        s, rs, rec = self.s, self.rs, self.rec
        psi = [vt.rnd(rs, (q,), self.dt) for q in self.qs]
        for p in psi:
            p[rs.randint(len(p))] += 1.0
        if rs.randint(2):
            psi = [list(p) for p in psi]
        rec.call("set", lambda: s.set_state_product(psi, do_update=bool(u)), lambda _: snap(s), stop=True,
                 T=[[[[cx(x)]] for x in p] for p in psi], upd=u, cf=s.canonical_form, via="product")

    def from_tensors(self, u):
        rs, rec = self.rs, self.rec
        A = rtens(rs, self.qs, valid_D(rs, self.qs, 4), self.dt, rs.uniform(0.7, 1.4))
        s = rec.call("set", lambda: mg.mps_from_tensors_gen(A, do_update=bool(u)), snap, stop=True,
                     T=[ten(a) for a in A[1:]], upd=u, cf="right", via="from")
        self.s = s

    def do(self, a):
        s, rs, rec, qs, N, dt = self.s, self.rs, self.rec, self.qs, self.N, self.dt
        op = a[0]
        S = lambda _=None: snap(s)
        if op == "cf":
            s.canonical_form = a[1]
            if hasattr(s, "gauge_fixing"):
                s.gauge_fixing = a[1]
        elif op == "update":
            rec.call("update", lambda: s.update(restore_CF=bool(a[1]), normalize=bool(a[2])), S, stop=True,
                     restore=a[1], norm=a[2], cf=s.canonical_form)
        elif op == "rcf":
            kw = dict(use_QR=bool(a[1]), diag_l=bool(a[2]), update_l=bool(a[3]), normalize_mps=bool(a[4]))
            s.zero_tol = 1e-12 if not a[1] else np.finfo(complex).resolution
            rec.call("rcf", lambda: s.restore_RCF(**kw), S, stop=True, diag=a[2], upd=a[3], norm=a[4], qr=a[1])
        elif op == "lcf":
            kw = dict(use_QR=bool(a[1]), diag_r=bool(a[2]), update_r=bool(a[3]), normalize_mps=bool(a[4]))
            s.zero_tol = 1e-12 if not a[1] else np.finfo(complex).resolution
            rec.call("lcf", lambda: s.restore_LCF(**kw), S, stop=True, diag=a[2], upd=a[3], norm=a[4], qr=a[1])
        elif op == "noise":
            rec.call("noise", lambda: s.add_noise(fac=2.0 ** -10, do_update=bool(a[1])), S, stop=True, upd=a[1],
                     fac=1 << 14, cf=s.canonical_form)
        elif op == "randomize":
            rec.call("randomize", lambda: s.randomize(do_update=bool(a[1])), S, stop=True, upd=a[1], cf=s.canonical_form)
        elif op == "gauge":
            n = a[1]
            D = s.A[n].shape[2]
            g = vt.unitary(rs, D).dot(np.diag(rs.uniform(0.6, 1.6, D)))
            gi = np.linalg.inv(g)
            s.A[n] = np.array([x.dot(g) for x in s.A[n]])
            s.A[n + 1] = np.array([gi.dot(x) for x in s.A[n + 1]])
            rec.note("poke", out=snap(s))
        elif op == "mixed":       # a state in no particular form
            self.do(("gauge", a[1]))
            self.do(("update", 0, int(rs.randint(2))))
            self.spectrum()
        elif op == "rescale":
            s.A[a[1]] = s.A[a[1]] * (rs.uniform(0.75, 1.3) * np.exp(1j * rs.uniform(0, 6)))
            rec.note("poke", out=snap(s))
        elif op == "calc_l":
            rec.call("calc_l", lambda: s.calc_l(), S, stop=True)
        elif op == "calc_r":
            rec.call("calc_r", lambda: s.calc_r(), S, stop=True)
        elif op == "renorm":
            rec.call("renorm", lambda: s.simple_renorm(update_r=bool(a[1])), S, stop=True, updr=a[1])
        elif op == "update_trunc":
            kw = dict(auto_truncate=True, restore_CF_after_trunc=bool(a[1]))
            s.zero_tol = 1e-9
            rec.call("update_trunc", lambda: s.update(**kw), S, stop=True, rest=a[1], cf=s.canonical_form, tol=fx(1e-9))
            s.zero_tol = np.finfo(complex).resolution
        elif op in ("trunc1", "truncall"):
            rec.call("update", lambda: s.update(), S, stop=True, restore=1, norm=1, cf=s.canonical_form)
            newD = [int(d) for d in s.D]
            if op == "trunc1":
                newD[a[1]] = min(a[2], newD[a[1]])
            else:
                newD = [min(a[1] + rs.randint(2), d) for d in newD]
                newD[0] = newD[-1] = 1
            u = a[3] if op == "trunc1" else 1
            rec.call("trunc", lambda: s.truncate(newD if rs.randint(2) else np.array(newD), update=bool(u)), S, stop=True,
                     newD=newD, upd=u, cf=s.canonical_form)
        elif op == "auto":
            rec.call("update", lambda: s.update(), S, stop=True, restore=1, norm=1, cf=s.canonical_form)
            tol = 10.0 ** -a[1]
            rec.call("auto", lambda: s.auto_truncate(update=bool(a[2]), zero_tol=tol),
                     lambda r: dict(snap(s), did=int(bool(r))), stop=True, upd=a[2], tol=fx(tol), cf=s.canonical_form)
        elif op == "spectrum":
            self.spectrum()
        elif op == "observe":
            getattr(self, "obs_" + a[1])()
        elif op == "op":
            n, kd, u = a[1:]
            q = qs[n - 1]
            o = gop(rs, q, dt)
            o[rs.randint(q), rs.randint(q)] += 1.0
            if kd == "proj":
                v = vt.rnd(rs, (q, 1), dt)
                v[rs.randint(q)] += 1
                v /= np.linalg.norm(v)
                o = v.dot(v.conj().T) + 0.05 * np.eye(q) * rs.randint(2)
                o *= 1.5
            o *= self.size(n, [o[None, None]])
            f = as_callable(o) if kd == "call" else o
            rec.call("op", lambda: s.apply_op_1s(f, n, do_update=bool(u)), S, stop=True, n=n, o=opm(o), upd=u,
                     cf=s.canonical_form)
        elif op == "mpo":
            n1, n2, u = a[1:]
            W = rmpo(rs, qs[n1 - 1:n2], dt)
            for w in W:
                w[0, 0] += np.eye(w.shape[2])
            f = self.size(n1, W) ** (1.0 / len(W))
            for w in W:
                w *= f
            rec.call("mpo", lambda: s.apply_op_MPO(W, n1, do_update=bool(u)), S, stop=True, n=n1, W=[mpo(w) for w in W],
                     upd=u, cf=s.canonical_form)
        elif op == "product":
            self.product(a[1])
        elif op == "set":
            A = rtens(rs, qs, valid_D(rs, qs, 4, True), dt, rs.uniform(0.7, 1.4))
            rec.call("set", lambda: s.set_state_from_tensors(A, do_update=bool(a[1])), S, stop=True,
                     T=[ten(x) for x in A[1:]], upd=a[1], cf=s.canonical_form)
        elif op == "from":
            self.from_tensors(a[1])
        elif op == "inner":
            A = rtens(rs, qs, valid_D(rs, qs, 3), dt, 1.0)
            o = mg.mps_from_tensors_gen(A, do_update=False)
            rec.call("inner", lambda: s.inner(o), cx, T=[ten(x) for x in A[1:]])
            rec.call("inner", lambda: s.inner(s), cx, T=[ten(x) for x in s.A[1:]])
        elif op == "bad":
            self.bad()
        elif op == "maxd":
            for d in (1, 2, 3, 5):
                rec.call("maxd", lambda: bool(s.maxD_is_less_than(d)), int, Dmax=d)
            rec.call("getters", lambda: [s.get_A(0) is None, s.get_A(N + 1) is None, s.get_l(-1) is None, s.get_l(N + 1) is None,
                                         s.get_r(-1) is None, s.get_r(N + 1) is None, s.get_D(-1) is None, s.get_D(N + 1) is None,
                                         s.get_q(0) is None, s.get_q(N + 1) is None,
                                         s.get_A(1) is s.A[1], s.get_A(N) is s.A[N], s.get_l(0) is s.l[0], s.get_r(N) is s.r[N],
                                         s.get_D(N) == s.D[N], s.get_q(1) == s.q[1]],
                     lambda r: [int(bool(x)) for x in r])
        elif op == "save_load":
            self.save_load(*a[1:])
        elif op == "bad_load":
            self.bad_load(a[1])
        elif op == "aliasing":
            self.aliasing(a[1])
        else:
            raise ValueError(op)

    def size(self, n, W):
        """factor that makes W (a matrix-product operator from site n on) keep the state at a moderate norm"""
        A = list(self.s.A)
        for j, w in enumerate(W):
            a = A[n + j]
            x = np.einsum("abst,tij->saibj", w, a)
            A[n + j] = x.reshape((x.shape[0], x.shape[1] * x.shape[2], x.shape[3] * x.shape[4]))
        return self.rs.uniform(0.7, 1.4) / np.sqrt(vnorm2(A))

    # ---- observables
    def q_(self, op, fn, enc, **kw):
        self.rec.call(op, fn, enc, **kw)
        self.touched = True

    def spectrum(self):
        s = self.s
        for n in range(0, self.N + 1):
            self.q_("schmidt", lambda: s.schmidt_sq(n), lambda r: [cx(x) for x in np.asarray(r).ravel()], n=n)
            self.q_("entropy", lambda: s.entropy(n), lambda r: cx(r), n=n)
            self.q_("entropy_l", lambda: s.entropy(n, ret_schmidt_sq=True),
                    lambda r: dict(S=cx(r[0]), lam=[cx(x) for x in np.asarray(r[1]).ravel()]), n=n)

    obs_spectrum = spectrum

    def obs_local(self):
        s, rs, qs, N, dt = self.s, self.rs, self.qs, self.N, self.dt
        for n in range(1, N + 1):
            o = gop(rs, qs[n - 1], dt)
            self.q_("ev", lambda: s.expect_1s(o, n), cx, n=n, m=n, o=opm(o))
        for n in range(1, N):
            o = nop(rs, qs[n - 1:n + 1], dt)
            self.q_("ev", lambda: s.expect_2s(o, n), cx, n=n, m=n + 1, o=opm(o))
        for n in range(1, N - 1):
            o = nop(rs, qs[n - 1:n + 2], dt)
            self.q_("ev", lambda: s.expect_3s(o, n), cx, n=n, m=n + 2, o=opm(o))
        if self.c["cls"] == "tdvp" and hasattr(s, "ham"):
            for n in range(1, N):       # the Hamiltonian terms themselves
                self.q_("ev", lambda: s.expect_2s(s.ham[n], n), cx, n=n, m=n + 1, o=opm(s.ham[n]))

    def obs_call(self):
        s, rs, qs, N, dt = self.s, self.rs, self.qs, self.N, self.dt
        n = rs.randint(1, N + 1)
        o = gop(rs, qs[n - 1], dt)
        self.q_("ev", lambda: s.expect_1s(as_callable(o), n), cx, n=n, m=n, o=opm(o))
        if N > 1:
            n = rs.randint(1, N)
            o2 = nop(rs, qs[n - 1:n + 1], dt)
            self.q_("ev", lambda: s.expect_2s(as_callable(o2), n), cx, n=n, m=n + 1, o=opm(o2))
            n1 = rs.randint(1, N)
            n2 = rs.randint(n1 + 1, N + 1)
            p, r = gop(rs, qs[n1 - 1], dt), gop(rs, qs[n2 - 1], dt)
            self.q_("pair", lambda: s.expect_1s_1s(as_callable(p), as_callable(r), n1, n2), cx, n=n1, m=n2, o=opm(p), p=opm(r))
        if N > 2:
            n = rs.randint(1, N - 1)
            o3 = nop(rs, qs[n - 1:n + 2], dt)
            self.q_("ev", lambda: s.expect_3s(as_callable(o3), n), cx, n=n, m=n + 2, o=opm(o3))
        run = self.run_from(n_min=1)
        if run:
            n, d, q = run
            o = gop(rs, q, dt)
            self.q_("string", lambda: s.expect_string_1s(as_callable(o), n, d), lambda r: [cx(x) for x in r], n=n, d=d, o=opm(o))

    def run_from(self, n_min=0):
        """a stretch n..n+d of sites of equal dimension"""
        qs, rs, N = self.qs, self.rs, self.N
        runs = [(n, d, qs[n - 1]) for n in range(1, N + 1) for d in range(n_min, N - n + 1)
                if all(qs[n - 1 + j] == qs[n - 1] for j in range(d + 1))]
        if runs and rs.randint(2):           # the longest one
            return max(runs, key=lambda x: x[1])
        return runs[rs.randint(len(runs))] if runs else None

    def obs_pair(self):
        s, rs, qs, N, dt = self.s, self.rs, self.qs, self.N, self.dt
        for n1 in range(1, N + 1):
            for n2 in range(n1 + 1, N + 1):
                p, r = gop(rs, qs[n1 - 1], dt), gop(rs, qs[n2 - 1], dt)
                self.q_("pair", lambda: s.expect_1s_1s(p, r, n1, n2), cx, n=n1, m=n2, o=opm(p), p=opm(r))
        run = self.run_from()
        if run:
            n, d, q = run
            p, r = gop(rs, q, dt), gop(rs, q, dt)
            self.q_("pairs", lambda: s.expect_1s_1s(p, r, n, n + d, return_intermediates=True), lambda x: [cx(v) for v in x],
                    n=n, d=d, o=opm(p), p=opm(r))

    def obs_corr(self):
        s, rs, dt = self.s, self.rs, self.dt
        enc = lambda x: [cx(v) for v in x]
        for same in (0, 1):
            run = self.run_from()
            n, d, q = run
            p = gop(rs, q, dt)
            r = p if same else gop(rs, q, dt)
            self.q_("corr", lambda: s.correlation_1s_1s(p, r, n, d), enc, n=n, d=d, o=opm(p), p=opm(r))
            self.q_("corr_ex", lambda: s.correlation_1s_1s(p, r, n, d, return_exvals=True),
                    lambda x: dict(c=enc(x[0]), e1=enc(x[1]), e2=enc(x[2])), n=n, d=d, o=opm(p), p=opm(r))
        run = self.run_from(1)
        if run:
            n, d, q = run
            o = gop(rs, q, dt)
            self.q_("string", lambda: s.expect_string_1s(o, n, d), enc, n=n, d=d, o=opm(o))

    def obs_mpo(self):
        s, rs, qs, N, dt = self.s, self.rs, self.qs, self.N, self.dt
        for n1 in range(1, N + 1):
            for n2 in range(n1, N + 1):
                W = rmpo(rs, qs[n1 - 1:n2], dt, 3)
                self.q_("ev_mpo", lambda: s.expect_MPO(W, n1), cx, n=n1, W=[mpo(w) for w in W])

    def obs_density(self):
        s, N = self.s, self.N
        for n in range(1, N + 1):
            self.q_("rho1", lambda: s.density_1s(n), mat, n=n)
        for n1 in range(1, N):
            n2 = self.rs.randint(n1 + 1, N + 1)
            self.q_("rho2", lambda: s.density_2s(n1, n2), mat, n=n1, m=n2)

    # ---- rejected inputs
    def bad(self):
        s, rs, rec, qs, N = self.s, self.rs, self.rec, self.qs, self.N
        o = np.eye(qs[0])
        rec.call("bad", lambda: s.apply_op_1s(o, 0))
        rec.call("bad", lambda: s.apply_op_1s(o, N + 1))
        A = rtens(rs, qs + [2], [1] * (N + 2), "c")
        rec.call("bad", lambda: s.set_state_from_tensors(A))
        rec.call("bad", lambda: s.set_state_from_tensors([s.A[1]] + list(s.A[1:])))
        rec.call("bad", lambda: s.inner(mg.mps_from_tensors_gen(A, do_update=False)))
        rec.call("bad", lambda: mg.EvoMPS_MPS_Generic(N, [1] * N, [0] + qs))
        rec.call("bad", lambda: mg.EvoMPS_MPS_Generic(N, [1] * (N + 1), qs))
        rec.call("bad", lambda: mg.EvoMPS_MPS_Generic(N, [[1] * (N + 1)], [0] + qs))
        rec.call("bad", lambda: s.truncate(np.array(s.D) + 1))
        rec.call("bad", lambda: s.truncate(list(s.D) + [1]))
        rec.call("bad", lambda: s.update(restore_CF=False, auto_truncate=True))
        rec.call("bad", lambda: tg.EvoMPS_TDVP_Generic(N, [1] * (N + 1), [0] + qs, lambda n, s_, t: 0.0, ham_sites=1))
        rec.note("after_bad", out=snap(s))

    # ---- files and shared data
    def save_load(self, u, how, d):
        s, rs, rec, N = self.s, self.rs, self.rec, self.N
        path = os.path.join(self.dir, "state%d.npy" % rs.randint(1 << 30))
        fresh, _ = self.make([1] + [d] * (N - 1) + [1])
        fresh.canonical_form = s.canonical_form

        def go():
            if how == "path":
                s.save_state(path)
                fresh.load_state(path, do_update=bool(u))
            else:
                with open(path, "wb") as f:
                    s.save_state(f)
                with open(path, "rb") as f:
                    fresh.load_state(f, do_update=bool(u))
            return fresh
        adopt = int(rs.randint(2))
        rec.call("load", go, lambda r: snap(r), stop=True, upd=u, cf=s.canonical_form, adopt=adopt)
        # the loaded state and its source share nothing
        keep, other = (fresh, s) if adopt else (s, fresh)
        for n in range(1, N + 1):
            other.A[n][...] = 0.0
        rec.note("still", out=snap(keep))
        self.s = keep
        if adopt and not u:
            rec.call("update", lambda: keep.update(), lambda _: snap(keep), stop=True, restore=1, norm=1, cf=keep.canonical_form)

    def bad_load(self, w):
        s, rs, rec, N, qs = self.s, self.rs, self.rec, self.N, self.qs
        path = os.path.join(self.dir, "bad%d.npy" % rs.randint(1 << 30))
        q2, D2 = list(qs), [1] + [2] * (N - 1) + [1]
        if w == "sites":
            q2 = q2 + [2]
            D2 = D2 + [1]
        elif w == "short":
            if N == 1:
                return
            q2 = q2[:-1]
            D2 = D2[:-2] + [1]
        elif w == "dims":
            q2[rs.randint(N)] += 1
        A = rtens(rs, q2, valid_D(rs, q2, 3), "c")
        if w == "bond":
            if N == 1:
                return
            n = rs.randint(1, N)
            A[n] = np.concatenate([A[n], A[n]], axis=2)
        arr = np.empty(len(A), dtype=object)
        for j, a in enumerate(A):
            arr[j] = a
        np.save(path, arr)
        rec.call("bad", lambda: s.load_state(path))
        rec.note("after_bad", out=snap(s))

    def aliasing(self, w):
        """changing the tensors handed in must not change the state"""
        s, rs, rec, qs, N = self.s, self.rs, self.rec, self.qs, self.N
        A = rtens(rs, qs, valid_D(rs, qs, 3), "c", 1.0)
        T = [ten(x) for x in A[1:]]
        if w == "set":
            rec.call("set", lambda: s.set_state_from_tensors(A, do_update=False), lambda _: snap(s), stop=True, T=T, upd=0,
                     cf=s.canonical_form)
        else:
            s = self.s = rec.call("set", lambda: mg.mps_from_tensors_gen(A, do_update=False), snap, stop=True, T=T, upd=0, cf="right")
        for x in A[1:]:
            x[...] = 0
        rec.note("still", out=snap(s))
        rec.call("update", lambda: s.update(), lambda _: snap(s), stop=True, restore=1, norm=1, cf=s.canonical_form)


def handler(rec, c, rs):
    rec.cfg = dict(N=c["N"])
    w = World(rec, c, rs)
    w.dir = tempfile.mkdtemp(prefix="vt-io-")
    try:
        w.start()
        for a in c["hist"]:
            w.touched = False
            w.do(a)
            if w.touched:
                rec.note("still", out=snap(w.s))
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)


if __name__ == "__main__":
    vt.main(handler)
