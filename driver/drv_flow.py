"""Replays histories of FlowGen.tla on finite chains with a Hamiltonian (tdvp_gen.py)."""
import copy
import numpy as np
import vt
from vt import mat, ten, cx, fx, opm, mpo
import evoMPS.tdvp_gen as tg
import evoMPS.split_step as ss
import evoMPS.tdvp_gen_diss as tgd
from drv_finite import snap, rtens, even, vec, vnorm2, lowrank, as_callable

DT = 1.0 / 8
TIMES = {"im": DT, "im-": -DT, "re": 1j * DT, "re-": -1j * DT, "cx": DT * (0.75 + 0.5j)}


def terms(H):
    return [[] if h is None else opm(h) for h in H]


def wcond(A):
    """smallest squared Schmidt coefficient (relative to the norm), counting every bond index"""
    N = len(A) - 1
    v = vec(A)
    n2 = np.vdot(v, v).real
    if not np.isfinite(n2) or n2 < 1e-12:
        return 0.0
    w, dl = 1.0, 1
    for n in range(1, N):
        dl *= A[n].shape[0]
        sv = np.linalg.svd(v.reshape((dl, -1)), compute_uv=False)
        D = A[n].shape[2]
        w = min(w, sv[D - 1] ** 2 / n2 if D <= len(sv) else 0.0)
    return w


def bten(B):
    return [[] if b is None else ten(b) for b in list(B)[1:]]


class Flow(object):
    def __init__(self, rec, c, rs):
        self.rec, self.c, self.rs = rec, c, rs
        self.N = c["N"]
        self.qs = [c["q%d" % (j + 1)] for j in range(self.N)]
        self.dt = c["dt"]
        self.k = c["hs"]
        self.canon = False

    # ---- what the object says
    def out(self, s=None):
        s = self.s if s is None else s
        o = snap(s)
        N = self.N
        if self.c["fam"] == "diss":
            return o
        o["K"] = [mat(s.K[n]) for n in range(1, N + 1)]
        o["h"] = [cx(s.h_expect[n]) for n in range(1, N + 1)]
        o["H"] = cx(s.H_expect)
        return o

    def plain(self, s=None):
        return snap(self.s if s is None else s)

    def new_terms(self):
        rs, qs, k, N = self.rs, self.qs, self.k, self.N
        H = []
        for n in range(N - k + 1):
            d = int(np.prod(qs[n:n + k]))
            h = vt.herm(rs, d, self.dt) + 0.2 * np.diag(rs.uniform(-1, 1, size=d))
            h = h * (rs.uniform(0.4, 0.9) / max(np.linalg.norm(h, 2), 1e-3))
            H.append(h.reshape(tuple(qs[n:n + k]) * 2))
        if self.c["hk"] == "none":
            for n in range(len(H)):
                if rs.randint(3) == 0 and not all(x is None for j, x in enumerate(H) if j != n):
                    H[n] = None
        for n in range(N - k + 1, N):
            H.append(None)
        return H

    def ham(self, H):
        """the Hamiltonian in the form the scene asks for"""
        if self.c["hk"] == "call":
            return lambda n, *idx: H[int(n) - 1][tuple(int(i) for i in idx)]
        if self.rs.randint(2):
            a = np.empty(self.N + 1, dtype=object)
            for n, h in enumerate(H):
                a[n + 1] = h
            return a
        return [None] + [h for h in H]

    def good(self, Ds, tries=60, floor=4e-3):
        best, bw = None, -1
        for _ in range(tries):
            A = rtens(self.rs, self.qs, Ds, self.dt, 1.0)
            w = wcond(A)
            if w > bw:
                best, bw = A, w
            if w > floor:
                break
        return best

    def capped(self, D):
        N, qs = self.N, self.qs
        D = list(D)
        for n in range(N - 1, 0, -1):
            D[n] = min(D[n], D[n + 1] * qs[n])
        for n in range(1, N):
            D[n] = min(D[n], D[n - 1] * qs[n - 1])
        return D

    def start(self):
        c, rs, qs, N, rec = self.c, self.rs, self.qs, self.N, self.rec
        req = [1] + [c["d%d" % (j + 1)] for j in range(N - 1)] + [1]
        kind = c["init"]
        if kind == "full":
            req = [1] + [99] * (N - 1) + [1]
        elif kind == "product":
            req = [1] * (N + 1)
        elif kind == "small":
            req = [1] + [rs.randint(1, 3) for _ in range(N - 1)] + [1]
        D = self.capped(req)
        self.H = self.new_terms()
        kw = dict(ham_sites=self.k) if (self.H[0] is None or c["hk"] == "call" or rs.randint(2)) else {}
        if c["fam"] == "diss":
            kw["ham_sites"] = self.k
            self.L = self.jumps()
            self.s = s = tgd.EvoMPS_TDVP_Generic_Dissipative(N, list(D), [0] + list(qs), self.ham(self.H), self.L, **kw)
        else:
            self.s = s = tg.EvoMPS_TDVP_Generic(N, list(D), [0] + list(qs), self.ham(self.H), **kw)
        s.canonical_form = c["cf"]
        s.gauge_fixing = c["gf"]
        hf = dict(h=terms(self.H), k=self.k)
        if kind == "default":
            rec.note("poke", out=self.plain(), **hf)
            return
        if kind == "lowrank":
            A = lowrank(rs, qs, D, self.dt)
        else:
            A = self.good(D)
        if kind != "full" and rs.randint(2):        # not normalised
            A[rs.randint(1, N + 1)] *= rs.uniform(0.75, 1.3)
        rec.call("set", lambda: s.set_state_from_tensors(A, do_update=False), lambda _: self.plain(), stop=True,
                 T=[ten(a) for a in A[1:]], **hf)

    # ---- actions
    def wc(self, s=None):
        s = self.s if s is None else s
        w = wcond(list(s.A))
        if w > 1e-3:
            return 1
        # directions the state does not feel: only meaningful if they are exactly absent and the
        # state is in the canonical form that belongs to the gauge
        return 0 if w > 2e-4 or (w < 1e-18 and s.canonical_form == s.gauge_fixing and self.canon) else -1

    def update(self, r, n, s=None):
        self.canon = bool(r)
        s0 = self.s if s is None else s
        self.rec.call("update", lambda: s0.update(restore_CF=bool(r), normalize=bool(n)), lambda _: self.out(s0), stop=True,
                      restore=r, norm=n, cf=s0.canonical_form, gf=s0.gauge_fixing)

    def flow(self, st=1, each=False, s=None, **kw):
        s = self.s if s is None else s
        rec = self.rec

        def go():
            if each:
                return [None] + [s.calc_B_n(n, set_eta=bool(st)) for n in range(1, self.N + 1)]
            if st:
                s.eta_sq.fill(1.75)      # what an earlier call, with other bonds, may have left
            return s.calc_B(set_eta=bool(st))
        e = {}
        B = rec.call("flow", go, None, stop=True, gf=s.gauge_fixing, wc=self.wc(s), set=(2 * st if each else st), **kw)
        rec.ev[-1].update(B=bten(B), etasq=[cx(x) for x in s.eta_sq[1:]], eta=cx(s.eta))
        return B

    def do(self, a):
        s, rs, rec, qs, N, k = self.s, self.rs, self.rec, self.qs, self.N, self.k
        op = a[0]
        if op in ("noise", "op"):
            self.canon = True
        if op == "cf":
            self.canon = False
            s.canonical_form = a[1]
            rec.note("cf", out=self.plain())
        elif op == "gf":
            s.gauge_fixing = a[1]
            rec.note("gf", out=self.plain())
        elif op == "update":
            self.update(a[1], a[2])
        elif op == "noise":
            rec.call("noise", lambda: s.add_noise(fac=2.0 ** -7), lambda _: self.out(), stop=True, restore=1,
                     cf=s.canonical_form, gf=s.gauge_fixing)
        elif op == "op":
            q = qs[a[1] - 1]
            o = np.eye(q) + 0.4 * vt.rop(rs, (q, q), self.dt)
            rec.call("op", lambda: s.apply_op_1s(o, a[1]), lambda _: self.out(), stop=True, restore=1,
                     cf=s.canonical_form, gf=s.gauge_fixing)
        elif op == "quench":
            self.H = self.new_terms()
            s.ham = self.ham(self.H)
            rec.note("quench", out=self.plain(), h=terms(self.H), k=k)
        elif op == "gauge":
            n = a[1]
            D = s.A[n].shape[2]
            g = vt.unitary(rs, D).dot(np.diag(rs.uniform(0.7, 1.4, D)))
            gi = np.linalg.inv(g)
            s.A[n] = np.array([x.dot(g) for x in s.A[n]])
            s.A[n + 1] = np.array([gi.dot(x) for x in s.A[n + 1]])
            rec.note("poke", out=self.plain())
        elif op == "flow":
            self.flow(a[1])
            rec.note("still", out=self.plain())
        elif op == "flow_n":
            self.flow(1, True)
            rec.note("still", out=self.plain())
        elif op == "terms":
            for n in range(1, N - k + 2):
                if self.H[n - 1] is None:
                    continue
                h = s.ham[n] if not callable(s.ham) else (lambda *i: s.ham(n, *i))
                f = s.expect_2s if k == 2 else s.expect_3s
                rec.call("term", lambda: f(h, n), cx, n=n)
            for n, o in (self.L if self.c["fam"] == "diss" else []):
                f = s.expect_2s if k == 2 else s.expect_3s
                rec.call("jump", lambda: f(o, n), cx, n=n, M=opm(o))
        elif op == "flow_mpo":
            self.flow_mpo()
            rec.note("still", out=self.plain())
        elif op == "step":
            self.step(TIMES[a[1]], a[2])
        elif op == "rk4":
            self.rk4(TIMES[a[1]], a[2])
        elif op == "cg":
            self.cg(a[1], a[2])
        elif op == "grow":
            self.grow(TIMES[a[1]], *a[2:])
        elif op in ("split", "dmrg"):
            self.sweep(op, *a[1:])
        elif op == "diss":
            self.diss(*a[1:])
        elif op == "noisestat":
            self.noisestat(1.0 / a[1] if a[1] else 16.0)
        elif op in ("esplit", "edmrg"):
            self.esweep(op, *a[1:])
        else:
            raise ValueError(op)

    # ---- open systems
    def jumps(self, m=None):
        rs, qs, k, N = self.rs, self.qs, self.k, self.N
        L = []
        for j in range(rs.randint(1, 4) if m is None else m):
            n = rs.randint(1, N - k + 2)
            d = int(np.prod(qs[n - 1:n - 1 + k]))
            o = vt.rop(rs, (d, d), self.dt, 0.5) * (rs.randint(6) > 0)
            L.append((n, np.array(o.reshape(tuple(qs[n - 1:n - 1 + k]) * 2))))
        return L

    def term(self, n, o, v):
        qs, k = self.qs, self.k
        d = int(np.prod(qs[n - 1:n - 1 + k]))
        a, b = int(np.prod(qs[:n - 1])), int(np.prod(qs[n - 1 + k:]))
        return np.einsum("st,atb->asb", np.asarray(o).reshape((d, d)), v.reshape((a, d, b))).ravel()

    def noise(self, A0, A1, dt):
        """the noise of a step from A0 to A1, from the part of it along the jump operators"""
        N = self.N
        v = vec(A0)
        cols = []
        for n in range(1, N + 1):
            for idx in np.ndindex(*A0[n].shape):
                T = np.zeros_like(A0[n])
                T[idx] = 1
                cols.append(vec(A0[:n] + [T] + A0[n + 1:]))
        P, sv, _ = np.linalg.svd(np.array(cols).T, full_matrices=False)
        P = P[:, sv > 1e-7]
        P = P.dot(P.conj().T)
        g = np.zeros_like(v)
        for n in range(1, N - self.k + 2):
            if self.H[n - 1] is not None:
                g = g - 1j * self.term(n, self.H[n - 1], v)
        M = []
        for n, L in self.L:
            Lv = self.term(n, L, v)
            g = g + np.conj(np.vdot(v, Lv)) * Lv - 0.5 * self.term(n, np.asarray(L).reshape((int(np.sqrt(L.size)),) * 2).conj().T, Lv)
            M.append(Lv)
        pr = lambda x: P.dot(x) - v * np.vdot(v, x) / np.vdot(v, v)
        t = sum(vec(A0[:n] + [(A1[n] - A0[n]) / dt] + A0[n + 1:]) for n in range(1, N + 1))
        X = np.array([pr(x) for x in M]).T
        W = np.linalg.lstsq(X, pr(t) - pr(g), rcond=1e-9)[0] * dt
        cond = np.linalg.svd(X, compute_uv=False)
        return W, bool(cond[-1] > 1e-3)

    def diss(self, t, w, x):
        s, rec = self.s, self.rec
        dt = 1.0 / t
        if x == 3:
            self.L = self.jumps()
            s.linds = self.L
        kw = dict(save=dict(save_memory=True), Y=dict(calc_Y_2s=True), plain={})[w]
        f = dict(dt=fx(dt), gf=s.gauge_fixing, wc=int(self.wc() == 1))
        if f["wc"] != 1:
            raise vt.Abandon()
        A0 = [None] + [a.copy() for a in s.A[1:]]
        ham = s.ham
        h0 = [None if h is None else np.array(h) for h in ham] if not callable(ham) else None
        L0 = [np.array(o) for _, o in self.L]
        rec.call("diss", lambda: s.take_step_dissipative(dt, **kw), lambda _: self.plain(), stop=True,
                 L=[[n, opm(o)] for n, o in self.L], **f)
        W, ok = self.noise(A0, [None] + list(s.A[1:]), dt)
        same = s.ham is ham and all(np.array_equal(a, o) for a, (_, o) in zip(L0, s.linds)) and len(L0) == len(s.linds)
        if h0 is not None:
            same = same and all(a is None and b is None or np.array_equal(a, b) for a, b in zip(h0, ham))
        rec.ev[-1].update(W=[cx(z) for z in W], ham=int(same))

    def noisestat(self, dt):
        """the noise of many steps from the same state"""
        s, rec = self.s, self.rec
        if self.wc() != 1 or sum(int(a.size) for a in s.A[1:]) > 40:
            return
        A0 = [None] + [a.copy() for a in s.A[1:]]
        linds = s.linds
        big = [x for x in self.L if np.linalg.norm(x[1]) > 0.3][:2]
        if not big:
            return
        s.linds = self.L = big
        ref = copy.deepcopy(s)
        w = []

        def many():
            for _ in range(300):
                z = copy.deepcopy(ref)
                z.take_step_dissipative(dt)
                W, ok = self.noise(A0, [None] + list(z.A[1:]), dt)
                if not ok:
                    return
                w.append(W / np.sqrt(dt))
        rec.call("noisestat", many, None, stop=True)
        rec.ev[-1]["w"] = [[cx(W[j]) for W in w] for j in range(len(big))] if len(w) == 300 else []
        s.linds = self.L = linds

    # ---- sweeps
    def wcs(self, ok, d0):
        """well conditioned before and after a sweep (a product state with complete bonds is not)"""
        e = self.rec.ev[-1]
        d1 = [int(d) for d in self.s.D]
        e["wc"] = int(ok and (self.is_full(d0) or (wcond(list(self.s.A)) > 1e-3 and d0 == d1) or (self.N == 2 and e["two"] > 0)))

    def is_full(self, D):
        return D == [int(d) for d in self.capped([1] + [99] * (self.N - 1) + [1])]

    def mpo_for(self, w):
        """Hermitian matrix-product operator (or none) and whether the local terms count"""
        if w == "local":
            return None, 1
        return self.rmpo(True), int(w == "both")

    def sweep(self, op, *a):
        s, rec, N = self.s, self.rec, self.N
        W, loc = self.mpo_for(a[-1])
        H = None if W is None else [None] + W
        f = dict(W=[] if W is None else [mpo(w) for w in W], local=loc, Dmax=0, two=0, stored=1)

        def end():
            rec.ev[-1]["H"] = cx(s.H_expect)
        kw = dict(HMPO=H, use_local_ham=bool(loc))
        if op == "split":
            dtau = TIMES[a[0]]
            if self.rs.randint(2):
                kw.update(norm_est=0.5)
            if self.rs.randint(2):  # (see the known finding: default settings work for small local problems only)
                kw.update(ncv=500)
            wc, d0 = wcond(list(s.A)) > 1e-3, [int(d) for d in s.D]
            rec.call("split", lambda: s.take_step_split(dtau, print_progress=False, **kw), lambda _: self.plain(), stop=True,
                     dtau=cx(dtau), steps=1, **f)
            self.wcs(wc or self.is_full(d0), d0)
            end()
        else:
            self.optimise(lambda: s.vari_opt_ss_sweep(**kw), f, end)

    def optimise(self, go, f, end=None, cut=0):
        """one sweep; some more; as many as it takes"""
        s, rec = self.s, self.rec
        rec.call("dmrg", go, lambda _: self.plain(), stop=True, conv=0, cut=cut, **f)
        if end:
            end()
        if cut or self.rs.randint(3):
            return
        E = [None, None]

        def many():
            for j in range(25):
                A0 = vec(list(s.A))
                go()
                A1 = vec(list(s.A))
                if 1 - abs(np.vdot(A0, A1)) < 1e-13:
                    return 1
            return 0
        c = rec.call("dmrg", many, lambda _: self.plain(), stop=True, cut=0, **f)
        rec.ev[-1]["conv"] = c
        if end:
            end()

    def esweep(self, op, *a):
        s, rec, N, rs = self.s, self.rec, self.N, self.rs
        H = [None]
        for n in range(1, N - self.k + 2):
            h = self.H[n - 1]
            H.append(np.zeros(tuple(self.qs[n - 1:n - 1 + self.k]) * 2) if h is None else h)
        H += [None] * (N + 1 - len(H))
        i = 0 if op == "edmrg" else 1
        w, two, dm = a[i], a[i + 1], a[i + 2]
        W, loc = self.mpo_for(w)
        f = dict(W=[] if W is None else [mpo(x) for x in W], local=loc, Dmax=dm, two=two, stored=0)
        kw = dict(HMPO=None if W is None else [None] + W, use_local_ham=bool(loc), print_progress=False)
        if two:
            kw.update(two_site=True, D_max=dm, min_schmidt=0.0, switch_to_1site=(two == 2))
        full = [int(d) for d in self.capped([1] + [99] * (N - 1) + [1])]
        cut = int(two > 0 and dm < max(full))
        seen = []

        def cb(m, j, **info):
            seen.append((j, sorted(info), all(m.r[n].shape[0] == m.D[n] and np.allclose(np.asarray(vt.dense(m.r[n])), np.eye(m.D[n]))
                                            for n in range(1, N + 1))))
        if op == "esplit":
            dtau, steps = TIMES[a[0]], a[4]
            d0 = [int(d) for d in s.D]
            wc = (self.is_full(d0) or N == 2 or (two == 0 and wcond(list(s.A)) > 1e-3)) and not cut
            rec.call("split", lambda: ss.evolve_split(s, H, self.k, dtau, steps, cb_func=cb, **kw), lambda _: self.plain(), stop=True,
                     dtau=cx(dtau), steps=steps, **f)
            self.wcs(wc, d0)
            rec.note("calls", n=len(seen), steps=steps, ok=int([x[0] for x in seen] == list(range(steps)) and all(x[2] for x in seen)))
        else:
            self.optimise(lambda: ss.evolve_split(s, H, self.k, 1.0, 1, DMRG=True, ncv=None, **kw), f, cut=int(two > 0))

    def flow_mpo(self):
        s, rs, rec, qs, N = self.s, self.rs, self.rec, self.qs, self.N
        W = self.rmpo()

        def go():
            s.eta_sq.fill(1.75)
            return s.calc_B_MPO([None] + W)
        B = rec.call("flow_mpo", go, None, stop=True, set=1, W=[mpo(w) for w in W], wc=self.wc())
        rec.ev[-1].update(B=bten(B), etasq=[cx(x) for x in s.eta_sq[1:]], eta=cx(s.eta), H=cx(s.H_expect))

    def rmpo(self, herm=False):
        """matrix-product operator of a sum of local terms, or a random one"""
        rs, qs, N = self.rs, self.qs, self.N
        b = [1] + [rs.randint(1, 4) for _ in range(N - 1)] + [1]
        W = [vt.rop(rs, (b[j], b[j + 1], qs[j], qs[j]), self.dt, 0.7) for j in range(N)]
        if herm or rs.randint(2):        # sum of single-site and neighbouring products
            X = [vt.herm(rs, q, self.dt, 0.8) for q in qs]
            Y = [vt.herm(rs, q, self.dt, 0.8) for q in qs]
            W = []
            for j, q in enumerate(qs):
                w = np.zeros((3, 3, q, q), dtype=complex)
                w[0, 0] = w[2, 2] = np.eye(q)
                w[0, 1] = X[j]
                w[1, 2] = X[j]
                w[0, 2] = Y[j]
                W.append(w)
            W[0] = W[0][:1]
            W[-1] = W[-1][:, 2:]
        return W

    def step(self, dtau, w):
        s, rec = self.s, self.rec
        f = dict(dtau=cx(dtau), gf=s.gauge_fixing, wc=self.wc())
        if w == "given":
            B = self.flow(1)
            b1 = bten(B)
            rec.call("step_given", lambda: s.take_step(dtau, B=B), lambda _: self.plain(), stop=True, B=b1, **f)
            rec.ev[-1]["B2"] = bten(B)
        else:
            kw = dict(save=dict(save_memory=True), Y=dict(calc_Y_2s=True), plain={})[w]
            rec.call("step", lambda: s.take_step(dtau, **kw), lambda _: self.plain(), stop=True, **f)

    def rk4(self, dtau, given):
        s, rec, N = self.s, self.rec, self.N
        A0 = [None if a is None else a.copy() for a in s.A]
        a0 = [ten(a) for a in A0[1:]]
        ref = copy.deepcopy(s)
        wc = 1
        B = self.flow(0, s=ref, stage=1)
        for j, f in ((2, 0.5), (3, 0.5), (4, 1.0)):
            for n in range(1, N + 1):
                ref.A[n] = A0[n] - (0 if B[n] is None else f * dtau * B[n])
            rec.note("stage", out=self.plain(ref), A0=a0, c=cx(f * dtau))
            self.update(0, 0, ref)
            wc = min(wc, self.wc(ref))
            B = self.flow(0, s=ref, stage=j)
        Bi = s.calc_B() if given else None
        b1 = bten(Bi) if given else []
        rec.call("rk4", lambda: s.take_step_RK4(dtau, B_i=Bi) if given else s.take_step_RK4(dtau), lambda _: self.plain(),
                 stop=True, A0=a0, dtau=cx(dtau), B=b1, wc=wc)
        rec.ev[-1]["B2"] = bten(Bi) if given else []


    def bb(self, s):
        return dict(etaBBsq=[cx(x) for x in s.etaBB_sq[1:]], etaBB=cx(s.etaBB))

    def grow(self, dtau, dD, Dmax, tol):
        s, rec, N = self.s, self.rec, self.N
        tol = {14: 1e-14, 2: 0.06}[tol]
        f = dict(dtau=cx(dtau), gf=s.gauge_fixing, wc=self.wc())
        D0, A0 = [int(d) for d in s.D], [None if a is None else a.copy() for a in s.A]
        full, err = copy.deepcopy(s), copy.deepcopy(s)
        rec.call("grow_full", lambda: full.take_step(dtau, dynexp=True, dD_max=16, sv_tol=1e-14), lambda _: self.plain(full),
                 stop=True, **f)
        rec.ev[-1].update(self.bb(full))
        rec.call("grow_err", lambda: err.take_step(dtau, calc_Y_2s=True), None, stop=True, **f)
        rec.ev[-1].update(self.bb(err))
        sv = []
        for n in range(1, N):       # singular values of what was added at the bond behind n
            d, d2 = D0[n], full.D[n]
            if d2 == d:
                sv.append([])
                continue
            P = full.A[n][:, :D0[n - 1], d:]
            Q = full.A[n + 1][:, d:, :D0[n + 1]]
            v = vec([None] + A0[1:n] + [P, Q] + A0[n + 2:]) / abs(dtau)
            dl = int(np.prod(self.qs[:n]))
            x = np.linalg.svd(v.reshape((dl, -1)), compute_uv=False)
            sv.append([fx(y) for y in x[:d2 - d]])
        kw = dict(dynexp=True, dD_max=dD, D_max=Dmax, sv_tol=tol)
        rec.call("grow", lambda: s.take_step(dtau, **kw), lambda _: self.plain(), stop=True, dDmax=dD, Dmax=Dmax, tol=fx(tol), sv=sv, **f)
        rec.ev[-1].update(self.bb(s))

    def cg(self, far, low):
        """two conjugate-gradient steps"""
        s, rec, N = self.s, self.rec, self.N
        B0, eta0 = [None] * (N + 1), 1.0
        for j in range(2):
            e = {}
            r = rec.call("cg", lambda: s.calc_B_CG(B0, eta0, 1.5 if far else 0.1, reset=(j == 0),
                                                  switch_threshold_eta=10.0 if low else 1e-6), None, stop=True,
                         reset=int(j == 0), gf=s.gauge_fixing, wc=self.wc(), low=low, B0=bten(B0), eta0=cx(eta0))
            Bcg, B, eta, tau = r
            rec.ev[-1].update(B=bten(B), Bcg=bten(Bcg), eta=cx(eta), etasq=[cx(x) for x in s.eta_sq[1:]], tau=cx(tau), set=1)
            big = abs(tau) * max(abs(b).max() for b in Bcg[1:] if b is not None) > 3 if any(b is not None for b in Bcg[1:]) else False
            rec.ev[-1]["big"] = int(big)
            rec.note("still", out=self.plain())
            if j == 0 and self.rs.randint(2):
                self.do(["terms"])
                self.flow(1)
            if big:      # a line search that runs far away is followed no further
                raise vt.Abandon()
            rec.call("step_given", lambda: s.take_step(tau, B=Bcg), lambda _: self.plain(), stop=True, B=bten(Bcg), B2=bten(Bcg),
                     dtau=cx(tau), gf=s.gauge_fixing, wc=1)
            if vnorm2(list(s.A)) > 3:
                raise vt.Abandon()
            self.update(1, 1)
            B0, eta0 = Bcg, eta


def handler(rec, c, rs):
    rec.cfg = dict(N=c["N"])
    w = Flow(rec, c, rs)
    w.start()
    for a in c["hist"]:
        w.do(a)


if __name__ == "__main__":
    vt.main(handler)
