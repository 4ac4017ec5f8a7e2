"""Replays scenes of MatGen.tla on matmul.py, nullspace.py, the factor helpers of
tdvp_common.py and sexpmv.gexpmv."""
import numpy as np
import scipy.linalg as la
import vt
from vt import mat, ten, cx, fx
import evoMPS.matmul as mm
import evoMPS.tdvp_common as tc
import evoMPS.nullspace as ns
from evoMPS.sexpmv import gexpmv


def row(v):
    return [[cx(x) for x in np.asarray(v).ravel()]]


def special(rec, c, rs):
    D, m = c["D"], c["m"]

    def make(kind, dt):
        if kind == "eye":
            return mm.eyemat(D, dtype=np.complex128 if dt == "c" else np.float64)
        if kind == "diag":
            d = vt.rnd(rs, (D,), dt)
            return mm.simple_diag_matrix(d + 0.8 * np.sign(d.real))
        x = vt.rnd(rs, (D, D), dt)
        return np.asfortranarray(x) if c["ord"] == "F" else x
    a, b, z = make(c["ka"], c["dta"]), make(c["kb"], c["dtb"]), make(c["kc"], c["dta"])
    tall = vt.rnd(rs, (D, m), c["dtb"])
    wide = vt.rnd(rs, (m, D), c["dtb"])
    s = complex(rs.uniform(-1, 1), rs.uniform(-1, 1)) if c["dta"] == "c" else float(rs.uniform(-1, 1))
    rec.cfg = dict(a=mat(a), b=mat(b), c=mat(z), tall=mat(tall), wide=mat(wide), s=cx(s), D=D, m=m,
                   ka=c["ka"])
    live = [a, b, z, tall, wide]
    keep = [vt.dense(v).copy() for v in live]

    def do(op, fn, enc=mat):
        rec.call(op, fn, enc)
        rec.ev[-1]["mut"] = 0
        for v, kp in zip(live, keep):
            if not np.array_equal(vt.dense(v), kp):
                rec.ev[-1]["mut"] = 1
                if isinstance(v, np.ndarray):
                    v[...] = kp
                elif hasattr(v, "diag"):
                    v.diag[...] = kp.diagonal()
    isspec = c["ka"] != "dense"
    do("dot", lambda: a.dot(b) if isspec or c["kb"] == "dense" else b.dot_left(a))
    do("mmul_ab", lambda: mm.mmul(a, b))
    do("mmul_abc", lambda: mm.mmul(a, b, z))
    do("mmul_wide_a_b_tall", lambda: mm.mmul(wide, a, b, tall))
    do("mmul_wide_a", lambda: mm.mmul(wide, a))
    do("mmul_a_tall", lambda: mm.mmul(a, tall))
    do("dot_inplace", lambda: mm.dot_inplace(a, tall, np.empty((D, m), dtype=np.complex128 if "c" in c["dta"] + c["dtb"] else float)))
    do("dot_inplace_l", lambda: mm.dot_inplace(wide, a, np.empty((m, D), dtype=np.complex128 if "c" in c["dta"] + c["dtb"] else float)))
    if not (c["ka"] == "diag" and c["kb"] == "diag"):     # two diagonal factors: no dense in-place product is offered
        do("dot_inplace_ab", lambda: mm.dot_inplace(a, b, np.empty((D, D), dtype=np.complex128 if "c" in c["dta"] + c["dtb"] else float)))
    do("adot", lambda: mm.adot(a, b), cx)
    do("adot_noconj", lambda: mm.adot_noconj(a, b), cx)
    do("H", lambda: mm.H(a))
    do("H_tall", lambda: mm.H(tall))
    do("H_out", lambda: mm.H(tall, np.empty((m, D), dtype=tall.dtype)))
    if isspec or c["kb"] != "dense":
        do("add", lambda: a + b)
        do("sub", lambda: a - b)
        do("emul", lambda: a * b)
    if isspec:
        do("self", lambda: a)
        do("self", lambda: np.asarray(a))
        do("self", lambda: a.A)
        do("self", lambda: a.copy())
        do("shape", lambda: [[[int(v) << 24, 0] for v in a.shape]], lambda r: r)
        do("scale", lambda: a * s)
        do("scale", lambda: s * a)
        do("dot_tall", lambda: a.dot(tall))
        do("dot_left_wide", lambda: a.dot_left(wide))
        do("dot_left_b", lambda: a.dot_left(b))
        do("dot_b", lambda: a.dot(b))
        do("conj", lambda: a.conj())
        do("tr", lambda: a.T)
        do("tr", lambda: a.transpose())
        do("inv", lambda: a.inv())
        do("sqrt", lambda: a.sqrt())
        do("trace", lambda: a.trace(), cx)
        if D > 1:
            do("trace_off", lambda: a.trace(offset=1), cx)
        do("diagonal", lambda: a.diagonal(), row)
        do("ravel", lambda: a.ravel(), row)

        def cpy():
            y = a.copy()
            if hasattr(y, "diag"):
                y.diag[...] = 7
            return a
        do("self", cpy)

        def iadd():
            y = vt.dense(b).astype(complex).copy()
            y += a
            return y
        do("radd", iadd)
        do("bad_dot", lambda: a.dot(np.zeros((D + 1, 2))), lambda r: 0)
        do("bad_dot", lambda: a.dot_left(np.zeros((2, D + 1))), lambda r: 0)
    if c["kb"] == "diag":
        do("mmul_diag_r", lambda: mm.mmul_diag(b.diag, tall))
        do("mmul_diag_l", lambda: mm.mmul_diag(b.diag, wide, act_right=False))
        cplx = np.complex128 if np.iscomplexobj(b.diag) or np.iscomplexobj(tall) else float
        do("mmul_diag_r", lambda: mm.mmul_diag(b.diag, tall, out=np.empty((D, m), dtype=cplx)))
        do("mmul_diag_l", lambda: mm.mmul_diag(b.diag, wide, act_right=False, out=np.empty((m, D), dtype=cplx)))
    # hermitian roots and inverses, triangular inverses
    u = vt.unitary(rs, D) if c["dta"] == "c" else np.linalg.qr(rs.normal(size=(D, D)))[0]
    root = (u * rs.uniform(0.4, 2.0, size=D)).dot(u.conj().T)
    root = (root + root.conj().T) / 2
    sq = root.dot(root)
    sq = (sq + sq.conj().T) / 2
    ind = (u * (rs.uniform(0.4, 2.0, size=D) * np.where(rs.uniform(size=D) < 0.5, -1, 1))).dot(u.conj().T)
    ind = (ind + ind.conj().T) / 2
    live += [sq, ind]
    keep += [sq.copy(), ind.copy()]
    rec.cfg["root"] = mat(root)
    rec.cfg["sq"] = mat(sq)
    rec.cfg["ind"] = mat(ind)
    do("sqrtmh", lambda: mm.sqrtmh(sq))
    evd = la.eigh(sq)
    do("sqrtmh", lambda: mm.sqrtmh(sq, evd=(evd[0].copy(), evd[1].copy())))

    def ret():
        r, (ev, EV) = mm.sqrtmh(sq, ret_evd=True)
        return (EV * ev).dot(EV.conj().T)
    do("sqrtmh", ret)
    do("sqrtmh_ind", lambda: mm.sqrtmh(ind))
    do("invmh", lambda: mm.invmh(ind))
    e2 = la.eigh(ind)
    do("invmh", lambda: mm.invmh(ind, evd=(e2[0].copy(), e2[1].copy())))

    def reti():
        r, (ev, EV) = mm.invmh(ind, ret_evd=True)
        return (EV * ev).dot(EV.conj().T)
    do("invmh", reti)
    up = np.triu(vt.rnd(rs, (D, D), c["dta"], 0.5)) + np.eye(D)
    lo = np.tril(vt.rnd(rs, (D, D), c["dta"], 0.5)) + np.eye(D)
    live += [up, lo]
    keep += [up.copy(), lo.copy()]
    rec.cfg["up"] = mat(up)
    rec.cfg["lo"] = mat(lo)
    do("invtr_up", lambda: mm.invtr(up))
    do("invtr_lo", lambda: mm.invtr(lo, lower=True))


def psd(rs, D, rk, dt, rot):
    ev = np.concatenate([np.zeros(D - rk), rs.uniform(0.3, 2.0, size=rk)])
    if rot:
        u = vt.unitary(rs, D) if dt == "c" else np.linalg.qr(rs.normal(size=(D, D)))[0]
        x = (u * ev).dot(u.conj().T)
        x = (x + x.conj().T) / 2
    else:
        g = vt.rnd(rs, (rk, rk), dt)
        x = np.zeros((D, D), dtype=complex if dt == "c" else float)
        p = rs.permutation(D)[:rk]
        x[np.ix_(p, p)] = g.dot(g.conj().T) + 0.3 * np.eye(rk)
    return x


def factor(rec, c, rs):
    D, rk = c["D"], c["rk"]
    x = psd(rs, D, rk, c["dt"], c["rot"])
    evd = bool(c["evd"])
    kw = dict(lower=bool(c["lower"]), zero_tol=1e-12, force_evd=evd)
    rec.cfg = dict(A=mat(x), rk=rk, lower=c["lower"])
    keep = x.copy()

    def enc(r):
        d = dict(x=mat(r[0]), rk=int(r[-1]))
        if len(r) == 3:
            d["xi"] = mat(r[1])
        return d
    rec.call("factor", lambda: tc.herm_fac_with_inv(x, return_rank=True, calc_inv=bool(c["inv"]), **kw), enc,
             withinv=c["inv"])
    rec.ev[-1]["mut"] = int(not np.array_equal(keep, x))
    # without the rank, and with the internal sanity checks (which must not change anything)
    if c["inv"]:
        rec.call("factor", lambda: tuple(tc.herm_fac_with_inv(x, calc_inv=True, **kw)) + (rk,), enc, withinv=1, mut=0)
    else:
        rec.call("factor", lambda: (tc.herm_fac_with_inv(x, calc_inv=False, **kw), rk), enc, withinv=0, mut=0)


def root(rec, c, rs):
    D, rk = c["D"], c["rk"]
    if c["kind"] == "eye":
        x = mm.eyemat(D, dtype=complex if c["dt"] == "c" else float)
        rk = D
    elif c["kind"] == "diag":
        d = np.concatenate([np.zeros(D - rk), rs.uniform(0.3, 2, size=rk)])
        rs.shuffle(d)
        x = mm.simple_diag_matrix(d, dtype=complex if c["dt"] == "c" else float)
    else:
        x = psd(rs, D, rk, c["dt"], True)
    keep = vt.dense(x).copy()
    y = psd(rs, D, D, c["dt"], True)
    rec.cfg = dict(A=mat(x), B=mat(y), rk=rk)

    def enc(r):
        d = dict(x=mat(r[0]), xi=mat(r[1]))
        if len(r) > 2:
            d["rk"] = int(r[2])
        return d
    rec.call("root", lambda: tc.herm_sqrt_inv(x, zero_tol=1e-12, return_rank=True), enc)
    rec.ev[-1]["mut"] = int(not np.array_equal(keep, vt.dense(x)))
    rec.call("root", lambda: tuple(tc.herm_sqrt_inv(x, zero_tol=1e-12)) + (rk,), enc, mut=0)

    def lr():
        return tc.calc_l_r_roots(x, y, zero_tol=1e-12)
    r = rec.call("lr_roots", lr, lambda r: dict(l=mat(r[0]), li=mat(r[1]), r=mat(r[2]), ri=mat(r[3])), mut=0)


def null(rec, c, rs):
    n, m, rk = c["n"], c["m"], c["rk"]
    x = vt.rnd(rs, (n, rk), c["dt"]).dot(vt.rnd(rs, (rk, m), c["dt"])) if rk else np.zeros((n, m), dtype=complex if c["dt"] == "c" else float)
    if rk:                            # well separated singular values
        u, s, v = la.svd(x, full_matrices=False)
        x = (u[:, :rk] * rs.uniform(0.3, 1.5, size=rk)).dot(v[:rk])
    rec.cfg = dict(A=mat(x), rk=rk, n=n, m=m)
    keep = x.copy()

    def basis(r):
        r = np.asarray(r)
        return dict(cols=int(r.shape[1]), rows=int(r.shape[0]), b=mat(r) if r.size else [])
    rec.call("rank", lambda: ns.rank(x, atol=1e-10), int)
    rec.call("rank", lambda: ns.rank(x, atol=0, rtol=1e-9) if rk else 0, int)
    rec.call("nullspace", lambda: ns.nullspace(x, atol=1e-10), basis)
    if rk:
        rec.call("nullspace", lambda: ns.nullspace(x, atol=0, rtol=1e-9), basis)
    if n <= m:
        rec.call("nullspace_qr", lambda: ns.nullspace_qr(x), basis)
    for e in rec.ev:
        e["mut"] = int(not np.array_equal(keep, x))


def vsh(rec, c, rs):
    q, D0, D1 = c["q"], c["D0"], c["D1"]
    A = vt.rnd(rs, (q, D0, D1), c["dt"])
    if c["rk"]:                       # a rank-deficient site tensor
        A[:, :, -1] = 0
        A[:, -1, :] = 0

    def weight(D):
        if c["wt"] == "eye":
            return mm.eyemat(D, dtype=A.dtype)
        if c["wt"] == "diag":
            return mm.simple_diag_matrix(rs.uniform(0.3, 1.2, size=D).astype(A.dtype))
        g = vt.rnd(rs, (D, D), c["dt"])
        return g.dot(g.conj().T) + 0.2 * np.eye(D)
    r, l = weight(D1), weight(D0)
    rec.cfg = dict(A=ten(A), r=mat(r), l=mat(l), q=q, D0=D0, D1=D1)
    keep = A.copy()

    def enc(v):
        return dict(none=1) if v is None else dict(none=0, T=ten(v))
    rec.call("Vsh", lambda: tc.calc_Vsh(A, r), enc)
    rec.call("Vsh_l", lambda: tc.calc_Vsh_l(A, l), enc)
    for e in rec.ev:
        e["mut"] = int(not np.array_equal(keep, A))


class MV(object):
    def __init__(self, A):
        self._A = A
        self.shape = A.shape
        self.dtype = A.dtype

    def matvec(self, v):
        return self._A.dot(v)


def expm(rec, c, rs):
    n = c["n"]
    A = vt.herm(rs, n)
    A = A / max(la.norm(A, 2), 1e-3)
    if c["mat"] == "antiherm":
        A = 1j * A
    elif c["mat"] == "general":
        A = vt.rnd(rs, (n, n))
        A = A / la.norm(A, 2)
    elif c["mat"] == "block":
        h = n // 2
        A[:h, h:] = 0
        A[h:, :h] = 0
        A = 1j * A
    elif c["mat"] == "nilpotent":
        A = np.triu(vt.rnd(rs, (n, n)), 1)
    t = c["t"] / 10.0
    v = vt.rnd(rs, (n,))
    if c["vec"] == "unit":
        v = np.zeros(n, dtype=complex)
        v[0] = 1
    elif c["vec"] == "eigen":
        w_, V = la.eig(A)
        v = V[:, 0].astype(complex)
    v = v / la.norm(v)
    keepA, keepv = A.copy(), v.copy()
    anorm = max(la.norm(A, np.inf), 1e-2)
    op = MV(A) if c["op"] == "matvec" else A
    m = c["m"] or None
    w = np.zeros(n, dtype=complex) if c["w"] else None
    rec.cfg = dict(A=mat(A), v=mat(v.reshape(-1, 1)), t=fx(t), tol=c["tol"], n=n, m=c["m"] or min(20, n - 1),
                   unitary=int(c["mat"] in ("antiherm", "block")), eigen=int(c["vec"] == "eigen"))

    def enc(r):
        return dict(w=mat(np.asarray(r[0]).reshape(-1, 1)), conv=int(bool(r[1])), nstep=int(r[2]),
                    brk=int(bool(r[3])), mb=int(r[4]))
    tol = 10.0 ** (-c["tol"])
    rec.call("expm", lambda: gexpmv(op, v, t, anorm, m=m, tol=tol, w=w, mxstep=500), enc, mx=500)
    rec.ev[-1]["mut"] = int(not (np.array_equal(A, keepA) and np.array_equal(v, keepv)))
    rec.call("expm", lambda: gexpmv(op, v, t, anorm, m=m, tol=tol, mxstep=2), enc, mx=2)
    rec.ev[-1]["mut"] = int(not (np.array_equal(A, keepA) and np.array_equal(v, keepv)))


vt.main(lambda rec, c, rs: dict(special=special, factor=factor, root=root, null=null, vsh=vsh, expm=expm)[c["fam"]](rec, c, rs))
