"""Replays histories of UniGen.tla (family uconv): conversions of uniform chains, records and files."""
import os
import shutil
import tempfile
import numpy as np
import vt
from vt import mat, cx, fx
import drv_uni as du
import drv_uflow as df
from drv_uflow import bten, snapk
import evoMPS.mps_uniform as mu
import evoMPS.tdvp_uniform as tu

BADLEN = {1: 2, 2: 1, 3: 1, 4: 3, 5: 2}


def ham_array(s):
    """the term the object holds, as an array"""
    n = s.ham_sites
    h = s.ham
    if callable(h):
        idx = np.ndindex(*((s.q,) * (2 * n)))
        h = np.array([complex(h(*i)) for i in idx])
    return np.asarray(h, dtype=complex).reshape((s.q ** n, s.q ** n))


def settings(s):
    return [fx(s.itr_rtol * 1e12), fx(s.itr_atol * 1e12), fx(s.zero_tol * 1e6), int(s.pow_itr_max), int(s.ev_brute),
            int(s.ev_use_arpack), int(s.ev_arpack_nev), int(s.ev_arpack_ncv), int(s.symm_gauge), int(s.sanity_checks),
            fx(s.eps * 1e12), int(s.L), int(s.q), int(s.D), 0 if s.userdata is None else int(s.userdata)]


def ud(x):
    return [fx(y) for y in np.asarray(x, dtype=float).ravel()]


class World(df.World):
    def __init__(self, rec, c, rs):
        df.World.__init__(self, rec, c, rs)
        self.state = self.dir = self.path = None

    def close(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)

    def fresh(self, D, q, L):
        """another object, with random tensors and a Hamiltonian of its own"""
        self.q, self.L = q, L
        hm = self.newham(int(self.rs.randint(2, 4)) if q < 3 else 2, ["array", "call"][self.rs.randint(2)])
        sites = dict(ham_sites=self.m) if callable(hm) else {}
        s = tu.EvoMPS_TDVP_Uniform(D, q, hm, L=L, dtype=self.typ, do_update=False, **sites)
        self.tune(s)
        s.zero_tol = self.s.zero_tol
        return s, hm, sites

    def switch(self, s):
        self.s = s
        self.rec.note("other", out=self.plain(), **self.hfields())

    # ---- actions; changes of the tensors in place, as the steps of the code do them
    def do_gauge(self, j):
        s, rs = self.s, self.rs
        k = j - 1
        g = du.rgauge(rs, s.D, self.dt)
        gi = np.linalg.inv(g)
        B = [np.asarray(x).copy() for x in s.A]
        n = (k + 1) % s.L
        B[k] = np.array([x.dot(g) for x in B[k]])
        B[n] = np.array([gi.dot(x) for x in B[n]])
        f = rs.uniform(0.8, 1.2)
        if max(abs(x).max() for x in B) <= 2:
            for m in range(s.L):
                s.A[m][:] = B[m] * f
        else:
            for m in range(s.L):
                s.A[m][:] = s.A[m] * f
        self.poke()

    def do_noise(self, _):
        s, rs = self.s, self.rs
        for a in s.A:
            a += 0.05 * vt.rnd(rs, a.shape, "r" if self.dt == "f" else "c")
        self.rank = None
        self.poke()

    def do_export(self, *_):
        s, rs, rec = self.s, self.rs, self.rec
        x = rs.uniform(-2, 2, size=rs.randint(1, 4))
        if rs.randint(2):
            s.userdata = x
            kw = {}
        else:
            kw = dict(userdata=x)
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="vt-state-")
        self.path = os.path.join(self.dir, "s.npy")

        def run():
            s.save_state(self.path, **kw)
            return s.export_state(**kw)

        self.state = rec.call("export", run, None, stop=True, ud=ud(x))
        r = self.state
        rec.ev[-1].update(A=bten([r[0]] if r[0].ndim == 3 else list(r[0])), l=mat(r[1]), r=mat(r[2]))
        self.exq = (s.D, s.q, s.L, self.rank)
        rec.note("ham", out=self.plain())          # nothing changed

    def do_expand(self, d, kind):
        s, rs, rec = self.s, self.rs, self.rec
        D2 = s.D + d
        if D2 < 1 or D2 > 4:
            return
        re = rs.uniform(0.1, 0.5) if kind in ("re", "both") else 0
        im = rs.uniform(0.1, 0.5) if kind in ("im", "both") and self.dt != "f" else 0
        lre = [fx(np.linalg.norm(np.asarray(a).real) / a.size * re) for a in s.A]
        lim = [fx(np.linalg.norm(np.asarray(a).imag) / a.size * im) for a in s.A]
        D = s.D
        rec.call("expand", lambda: s.expand_D(D2, refac=re, imfac=im), lambda _: self.plain(), stop=True, D2=D2, re=lre, im=lim)
        if d > 0:
            self.padded(D, re, im)
        self.check()

    def padded(self, D, re, im):
        if re == 0 and im == 0:
            self.rank = self.rank if self.rank is not None else D
            self.s.zero_tol = 1e-9
        else:
            self.rank = None

    def do_setq(self, d, off):
        s, rs, rec = self.s, self.rs, self.rec
        q2 = s.q + d
        if q2 < 2 or q2 > 4:
            return
        o = off * d
        kw = dict(offset=o) if off or rs.randint(2) else {}
        rec.call("setq", lambda: s.set_q(q2, **kw), lambda _: self.plain(), stop=True, q2=q2, off=o)
        self.q = q2
        self.requench()
        self.check()

    def requench(self):
        kind = ["array", "call", "tp"][self.rs.randint(3)]
        self.quench(2, kind)

    def do_frommps(self, u):
        rs, rec, s0 = self.rs, self.rec, self.s
        mps = mu.EvoMPS_MPS_Uniform(s0.D, s0.q, L=s0.L, dtype=self.typ, do_update=False)
        self.tune(mps)
        mps.symm_gauge = bool(rs.randint(2))
        for k in range(s0.L):
            mps.A[k][:] = s0.A[k]
        mps.zero_tol = float(rs.choice([1e-9, 1e-8]))
        mps.itr_rtol = float(rs.choice([1e-13, 1e-12]))
        mps.itr_atol = float(rs.choice([1e-14, 1e-13]))
        mps.pow_itr_max = int(rs.randint(1000, 4000))
        mps.userdata = int(rs.randint(100))
        mps.update(restore_CF=bool(u))
        hm = self.newham(int(rs.randint(2, 4)) if self.q < 3 else 2, ["array", "call"][rs.randint(2)])
        sites = dict(ham_sites=self.m) if callable(hm) else {}
        rec.note("other", out=du.snap(mps), **self.hfields())
        a = settings(mps)

        def run():
            t = tu.EvoMPS_TDVP_Uniform.from_mps(mps, hm, **sites)
            for x in mps.A:
                x *= 3
            return t
        self.s = rec.call("from_mps", run, lambda t: du.snap(t), stop=True, set=a)
        rec.ev[-1]["set2"] = settings(self.s)
        self.s.userdata = None
        self.update(1, 0)

    def do_blocked(self, u):
        s, rec = self.s, self.rec
        n = s.q ** s.L
        if n > 8 or s.L > 1 and self.dt == "f" and callable(s.ham):
            return
        rec.call("block", lambda: s.convert_to_TI_blocked(do_update=bool(u)), lambda _: snapk(s) if u else self.plain(),
                 stop=True, upd=u)
        self.h, self.m = ham_array(s), int(s.ham_sites)
        rec.ev[-1].update(hm=mat(self.h), m=self.m)
        self.q, self.L = s.q, s.L
        self.one = self.tp = None

    def do_import(self, w, how):
        s, rs, rec = self.s, self.rs, self.rec
        if self.state is None:
            return
        D, q, L, rank = self.exq
        st = self.state
        if how == "file":
            st = np.load(self.path, allow_pickle=True)
        if w == "self":
            if (s.D, s.q, s.L) != (D, q, L):
                w = "new"
        kw = {}
        f = {}
        back = (s, self.q, self.L, self.h, self.m, self.one, self.tp)
        re = rs.uniform(0.1, 0.5)
        im = rs.uniform(0.1, 0.5) if self.dt != "f" else 0.0
        if w == "new":
            t = self.fresh(D, q, L)[0]
            f = dict(how="same")
        elif w == "self":
            t = s
            f = dict(how="same")
        elif w == "expand":
            D2 = min(4, D + int(rs.randint(0, 3)))
            if D2 < D:
                return
            t = self.fresh(D2, q, L)[0]
            kw = dict(expand=True, refac=re, imfac=im)
            A = [st[0]] if st[0].ndim == 3 else list(st[0])
            if rs.randint(3) == 0:
                kw["refac"] = kw["imfac"] = re = im = 0
            f = dict(how="expand", D2=D2, re=[fx(np.linalg.norm(a.real) / a.size * re) for a in A],
                     im=[fx(np.linalg.norm(a.imag) / a.size * im) for a in A])
        elif w == "truncate":
            if D < 2:
                return
            D2 = int(rs.randint(1, D + 1))
            t = self.fresh(D2, q, L)[0]
            kw = dict(truncate=True)
            f = dict(how="truncate", D2=D2, rank=D if rank is None else int(rank), symm=int(t.symm_gauge))
            if D2 == D:
                f = dict(how="same")
        elif w in ("expandq", "shrinkq"):
            q2 = q + (1 if w == "expandq" else -1)
            if rs.randint(4) == 0:
                q2 = q
            if q2 < 2 or q2 > 4:
                return
            t = self.fresh(D, q2, L)[0]
            kw = {"expand_q" if w == "expandq" else "shrink_q": True}
            f = dict(how="q", q2=q2) if q2 != q else dict(how="same")
        else:
            D2, q2, L2 = D, q, L
            if w == "badD":
                D2 = D + 1 if D < 4 and rs.randint(2) else max(1, D - 1)
                kw = [{}, dict(expand=D2 < D), dict(truncate=D2 > D), dict(expand_q=True, shrink_q=True)][rs.randint(4)]
            elif w == "badq":
                q2 = 2 if q > 2 else 3
                kw = [{}, dict(expand=True, truncate=True), dict(expand_q=q2 < q), dict(shrink_q=q2 > q)][rs.randint(4)]
            else:
                L2 = BADLEN[L]
                kw = [{}, dict(expand=True, truncate=True), dict(expand_q=True, shrink_q=True)][rs.randint(3)]
            if (D2, q2, L2) == (D, q, L):
                return
            t = self.fresh(D2, q2, L2)[0]
            self.switch(t)
            if rs.randint(2):
                t.update()
                rec.note("other", out=self.plain(), **self.hfields())
            r = rec.call("refused", lambda: t.import_state(st, **kw), lambda _: self.plain(t), stop=True)
            rec.ev[-1]["ret"] = bool(r)
            self.s, self.q, self.L, self.h, self.m, self.one, self.tp = back
            self.switch(s)
            return
        if t is not s:
            self.switch(t)
        self.q, self.L = t.q, t.L
        if how == "file" and w in ("self", "new") and rs.randint(2):
            r = rec.call("load", lambda: t.load_state(self.path), lambda _: snapk(t), stop=True, symm=int(t.symm_gauge))
        else:
            r = rec.call("import", lambda: t.import_state(st, do_update=False, **kw), lambda _: self.plain(t), stop=True, **f)
        rec.ev[-1]["ret"] = bool(r)
        rec.ev[-1]["ud"] = ud(t.userdata)
        if w == "truncate" and t.D < D:
            self.rank = None
        elif w == "expand" and t.D > D:
            self.rank = rank
            self.padded(D, re, im)
        else:
            self.rank = rank
        self.check()

    def do_fromfile(self):
        rs, rec = self.rs, self.rec
        if self.state is None:
            return
        D, q, L, rank = self.exq
        _, hm, sites = self.fresh(D, q, L)
        rec.note("other", out=self.plain(), **self.hfields())
        t = rec.call("load", lambda: tu.EvoMPS_TDVP_Uniform.from_file(self.path, hm, **sites), snapk, stop=True, ret=True)
        rec.ev[-1]["ud"] = ud(t.userdata)
        rec.ev[-1]["symm"] = int(t.symm_gauge)
        self.s, self.rank = t, rank
        self.tune(t)
        t.zero_tol = 1e-9


def handler(rec, c, rs):
    rec.cfg = dict(kind="uflow")
    w = World(rec, c, rs)
    try:
        w.start()
        for a in c["hist"]:
            w.do(a)
            if w.s.q > 4 and a[0] == "blocked":
                break
    finally:
        w.close()


if __name__ == "__main__":
    vt.main(handler)
