"""Replays scenes of ContractGen.tla: calls every contraction of core_common / tdvp_common."""
import numpy as np
import vt
from vt import mat, ten, opm, mpo, cx
import evoMPS.core_common as cc
import evoMPS.tdvp_common as tc
import evoMPS.matmul as mm


def handler(rec, c, rs):
    dt = c["dt"]
    q = [c["q1"], c["q2"], c["q3"]]
    D = [c["D%d" % i] for i in range(4)]
    E = [c["E%d" % i] for i in range(4)]
    asF = (lambda x: np.asfortranarray(x)) if c["ord"] == "F" else (lambda x: x)
    A = [asF(vt.rnd(rs, (q[i], D[i], D[i + 1]), dt)) for i in range(3)]
    B = [asF(vt.rnd(rs, (q[i], E[i], E[i + 1]), dt)) for i in range(3)]

    def arg(i):
        if c["xk"] == "eye":
            return mm.eyemat(D[i], dtype=A[0].dtype)
        if c["xk"] == "diag":
            return mm.simple_diag_matrix(vt.rnd(rs, (D[i],), dt))
        return vt.rnd(rs, (D[i], E[i]), dt)
    x = [arg(i) for i in range(4)]

    def oper(*qs):
        o = vt.rop(rs, tuple(qs) * 2, dt)
        if c["sp"]:
            o[rs.uniform(size=o.shape) < 0.6] = 0
        return o
    o1 = oper(q[0])
    o2 = oper(q[0], q[1])
    o3 = oper(*q)
    tp = [[oper(q[0]), oper(q[1])] for _ in range(c["tp"])]
    W = vt.rop(rs, (c["m0"], c["m1"], q[0], q[0]), dt)
    xWl = vt.rnd(rs, (c["m0"], D[0], E[0]), dt)
    xWr = vt.rnd(rs, (c["m1"], D[1], E[1]), dt)
    AA = vt.rnd(rs, (q[0], q[1], D[0], D[2]), dt)       # a general two-site tensor
    BB = vt.rnd(rs, (q[0], q[1], E[0], E[2]), dt)
    AAA = vt.rnd(rs, tuple(q) + (D[0], D[3]), dt)
    BBB = vt.rnd(rs, tuple(q) + (E[0], E[3]), dt)
    A12 = np.einsum("sab,tbc->stac", A[0], A[1])
    B12 = np.einsum("sab,tbc->stac", B[0], B[1])
    A23 = np.einsum("sab,tbc->stac", A[1], A[2])
    B23 = np.einsum("sab,tbc->stac", B[1], B[2])
    K1 = vt.rnd(rs, (D[1], D[1]), dt)                   # environments for the K recursions (ket = bra)
    K2 = vt.rnd(rs, (D[2], D[2]), dt)
    # positive environments as in use, dense / identity / diagonal
    env = []
    for i in range(4):
        if c["xk"] == "dense":
            g = vt.rnd(rs, (D[i], D[i]), dt)
            env.append(g.dot(g.conj().T))
        else:
            env.append(x[i])
    ops = dict(A=A, B=B, x=x, o1=o1, o2=o2, o3=o3, tp=tp, W=W, AA=AA, BB=BB, AAA=AAA, BBB=BBB, K1=K1, K2=K2, env=env,
               xWl=xWl, xWr=xWr, A12=A12, B12=B12, A23=A23, B23=B23)

    def flatten(v):
        if isinstance(v, (list, tuple)):
            r = []
            for y in v:
                r += flatten(y)
            return r
        return [v]
    live = flatten([ops[k] for k in sorted(ops)])
    keep = [vt.dense(v).copy() for v in live]
    rec.cfg = dict(A=[ten(t) for t in A], B=[ten(t) for t in B], x=[mat(y) for y in x],
                   o1=opm(o1), o2=opm(o2), o3=opm(o3), tp=[[opm(a), opm(b)] for a, b in tp],
                   W=mpo(W), xWl=ten(xWl), xWr=ten(xWr), AA=ten(AA), BB=ten(BB), AAA=ten(AAA), BBB=ten(BBB),
                   K1=mat(K1), K2=mat(K2), env=[mat(y) for y in env])

    def do(op, fn, enc):
        rec.call(op, fn, enc)
        e = rec.ev[-1]
        e["mut"] = 0
        for v, kp in zip(live, keep):
            if not np.array_equal(vt.dense(v), kp):
                e["mut"] = 1
                if isinstance(v, np.ndarray):
                    v[...] = kp

    def pair(r):
        return dict(K=mat(r[0]), h=cx(r[1]))
    junk = lambda *s: vt.rnd(rs, s, dt) if "v" in c else asF(vt.rnd(rs, s, dt))     # compiled maps need contiguous output
    f1 = lambda s, t: o1[s, t]
    f2 = lambda s, t, u, v: o2[s, t, u, v]

    # products of site tensors
    do("AA", lambda: cc.calc_AA(A[0], A[1]), ten)
    do("AAA", lambda: cc.calc_AAA(*A), ten)
    do("AAA_AA", lambda: cc.calc_AAA_AA(AA, A[2]), ten)
    do("AAA_AAr", lambda: cc.calc_AAA_AAr(A[0], A23), ten)
    # transfer maps
    do("l_noop", lambda: tc.eps_l_noop(x[0], A[0], B[0]), mat)
    do("l_noop", lambda: tc.eps_l_noop_inplace(x[0], A[0], B[0], junk(D[1], E[1])), mat)
    do("r_noop", lambda: tc.eps_r_noop(x[1], A[0], B[0]), mat)
    do("r_noop", lambda: tc.eps_r_noop_inplace(x[1], A[0], B[0], junk(D[0], E[0])), mat)
    do("l_op1", lambda: cc.eps_l_op_1s(x[0], A[0], B[0], o1), mat)
    do("r_op1", lambda: cc.eps_r_op_1s(x[1], A[0], B[0], o1), mat)
    do("l_mpo", lambda: cc.eps_l_op_MPO(xWl, A[0], B[0], W), ten)
    do("r_mpo", lambda: cc.eps_r_op_MPO(xWr, A[0], B[0], W), ten)
    do("r_multi3", lambda: cc.eps_r_noop_multi(x[3], [A[0], A[1], A[2]], [B[0], B[1], B[2]]), mat)
    do("r_multi3", lambda: cc.eps_r_noop_multi(x[3], [A12, A[2]], [B[0], B23]), mat)
    do("r_multi3", lambda: cc.eps_r_noop_multi(x[3], [A[0], A23], [B[0], B[1], B[2]]), mat)
    do("r_multi2", lambda: cc.eps_r_noop_multi(x[2], [A[0], A[1]], [B12]), mat)
    do("r_multi1", lambda: cc.eps_r_noop_multi(x[1], [A[0]], [B[0]]), mat)
    # two-site operators
    do("r_op2", lambda: cc.eps_r_op_2s_A(x[2], A[0], A[1], B[0], B[1], o2), mat)
    do("r_op2_AA", lambda: cc.eps_r_op_2s_AA12(x[2], AA, B[0], B[1], o2), mat)
    do("r_op2_AABB", lambda: cc.eps_r_op_2s_AA_func_op(x[2], AA, BB, f2), mat)
    do("r_AA_B", lambda: cc.eps_r_op_2s_C12(x[2], AA, B[0], B[1]), mat)
    do("r_A_BB", lambda: cc.eps_r_op_2s_C34(x[2], A[0], A[1], BB), mat)
    do("r_AA_BB", lambda: tc.eps_r_op_2s_AA12_C34(x[2], AA, BB), mat)
    do("r_AA_BB", lambda: tc.eps_r_op_2s_C12_AA34(x[2], AA, BB), mat)
    do("l_AA_BB", lambda: tc.eps_l_op_2s_AA12_C34(x[0], AA, BB), mat)
    do("l_A_BB", lambda: tc.eps_l_op_2s_A1_A2_C34(x[0], A[0], A[1], BB), mat)
    do("r_AAA_BBB", lambda: tc.eps_r_op_3s_C123_AAA456(x[3], AAA, BBB), mat)
    do("l_AAA_BBB", lambda: tc.eps_l_op_3s_AAA123_C456(x[0], AAA, BBB), mat)
    # operator-contracted tensors
    do("C2", lambda: tc.calc_C_mat_op_AA(o2, AA), ten)
    do("C2", lambda: tc.calc_C_mat_op_AA_tensordot(o2, AA), ten)
    do("C2", lambda: cc.calc_C_func_op_AA(f2, AA), ten)
    do("C2_A", lambda: cc.calc_C_func_op(f2, A[0], A[1]), ten)
    do("C3", lambda: tc.calc_C_3s_mat_op_AAA(o3, AAA), ten)
    do("C3", lambda: tc.calc_C_3s_mat_op_AAA_tensordot(o3, AAA), ten)
    do("C2conj", lambda: tc.calc_C_conj_mat_op_AA(o2, AA), ten)
    do("C2conj", lambda: tc.calc_C_conj_mat_op_AA_tensordot(o2, AA), ten)
    do("Ctp", lambda: tc.calc_C_mat_op_tp(tp, A[0], A[1]), ten)
    Btp = tc.calc_C_tp(tp, B[0], B[1])
    Atp = tc.calc_C_tp(tp, A[0], A[1])
    do("tp_sum", lambda: sum(np.einsum("sab,tbc->stac", p[0], p[1]) for p in tc.calc_C_tp(tp, A[0], A[1])), ten)
    do("l_tp", lambda: tc.eps_l_op_2s_C34_tp(x[0], A[0], A[1], Btp), mat)
    do("r_tp", lambda: tc.eps_r_op_2s_C12_tp(x[2], Atp, B[0], B[1]), mat)
    # accumulated environments (ket = bra)
    do("K", lambda: tc.calc_K(K1, AA, env[0], env[2], A[0], A12), pair)
    do("K_nolm1", lambda: dict(K=mat(tc.calc_K(K1, AA, None, env[2], A[0], A12)[0])), lambda r: r)
    do("K_tp", lambda: tc.calc_K_tp(K1, env[0], env[2], A[0], A[1], Atp), pair)
    do("K3", lambda: tc.calc_K_3s(K1, AAA, env[0], env[3], A[0], np.einsum("sab,tubc->stuac", A[0], A23)), pair)
    do("Kl", lambda: tc.calc_K_l(K1, AA, env[0], env[2], A[1], A12), pair)
    do("Kl_tp", lambda: tc.calc_K_l_tp(K1, env[0], env[2], A[0], A[1], Atp), pair)
    do("K3l", lambda: tc.calc_K_3s_l(K2, AAA, env[0], env[3], A[2], np.einsum("sab,tubc->stuac", A[0], A23)), pair)
    do("mpo_local", lambda: tc.apply_MPO_local(W, A[0]), ten)
    return do, dict(A=A, B=B, AA=AA, o2=o2, x=x)


if __name__ == "__main__":
    vt.main(handler)
