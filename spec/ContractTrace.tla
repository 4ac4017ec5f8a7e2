--------------------------- MODULE ContractTrace ----------------------------
(***************************************************************************)
(* What every contraction of core_common.py and tdvp_common.py returns, as *)
(* a function of the scene (P01), and the compiled versions (P24).         *)
(***************************************************************************)
EXTENDS Tensors, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i

OpAdj(o) == MAdj(o)
\* <x| E_op from the left: the adjoint of |x> -> E_op |x>, i.e. conj(op[t][s])
RefL(c, x, ket, bra, op) == EpsL(x, TOp(op, ket), bra)
RefR(c, x, ket, bra, op) == EpsR(x, TOp(op, ket), bra)

A2s(c) == TJoin(c.A[1], c.A[2])
B2s(c) == TJoin(c.B[1], c.B[2])
A3s(c) == TJoin(A2s(c), c.A[3])
B3s(c) == TJoin(B2s(c), c.B[3])
TpOp(c) == MSum([k \in 1..Len(c.tp) |-> MKron(c.tp[k][1], c.tp[k][2])])

\* matrix-product operators acting on a list of environments
MpoL(c) == [b \in 1..Len(c.W[1]) |->
   MSum([a \in 1..Len(c.W) |-> EpsL(c.xWl[a], TOp(c.W[a][b], c.A[1]), c.B[1])])]
MpoR(c) == [a \in 1..Len(c.W) |->
   MSum([b \in 1..Len(c.W[1]) |-> EpsR(c.xWr[b], TOp(c.W[a][b], c.A[1]), c.B[1])])]

MatOps == {"l_noop","r_noop","l_op1","r_op1","r_multi3","r_multi2","r_multi1","r_op2","r_op2_AA","r_op2_AABB",
  "r_AA_B","r_A_BB","r_AA_BB","l_AA_BB","l_A_BB","r_AAA_BBB","l_AAA_BBB","l_tp","r_tp"}
RefM(c, op) ==
  CASE op = "l_noop" -> EpsL(c.x[1], c.A[1], c.B[1])
    [] op = "r_noop" -> EpsR(c.x[2], c.A[1], c.B[1])
    [] op = "l_op1" -> RefL(c, c.x[1], c.A[1], c.B[1], c.o1)
    [] op = "r_op1" -> RefR(c, c.x[2], c.A[1], c.B[1], c.o1)
    [] op = "r_multi1" -> EpsR(c.x[2], c.A[1], c.B[1])
    [] op = "r_multi2" -> EpsR(c.x[3], A2s(c), B2s(c))
    [] op = "r_multi3" -> EpsR(c.x[4], A3s(c), B3s(c))
    [] op = "r_op2" -> RefR(c, c.x[3], A2s(c), B2s(c), c.o2)
    [] op = "r_op2_AA" -> RefR(c, c.x[3], c.AA, B2s(c), c.o2)
    [] op = "r_op2_AABB" -> RefR(c, c.x[3], c.AA, c.BB, c.o2)
    [] op = "r_AA_B" -> EpsR(c.x[3], c.AA, B2s(c))
    [] op = "r_A_BB" -> EpsR(c.x[3], A2s(c), c.BB)
    [] op = "r_AA_BB" -> EpsR(c.x[3], c.AA, c.BB)
    [] op = "l_AA_BB" -> EpsL(c.x[1], c.AA, c.BB)
    [] op = "l_A_BB" -> EpsL(c.x[1], A2s(c), c.BB)
    [] op = "r_AAA_BBB" -> EpsR(c.x[4], c.AAA, c.BBB)
    [] op = "l_AAA_BBB" -> EpsL(c.x[1], c.AAA, c.BBB)
    [] op = "l_tp" -> EpsL(c.x[1], A2s(c), TOp(TpOp(c), B2s(c)))
    [] op = "r_tp" -> EpsR(c.x[3], TOp(TpOp(c), A2s(c)), B2s(c))

TenOps == {"AA","AAA","AAA_AA","AAA_AAr","l_mpo","r_mpo","C2","C2_cptr","C2_A","C3","C2conj","Ctp","tp_sum","mpo_local"}
RefT(c, op) ==
  CASE op = "AA" -> A2s(c)
    [] op = "AAA" -> A3s(c)
    [] op = "AAA_AA" -> TJoin(c.AA, c.A[3])
    [] op = "AAA_AAr" -> A3s(c)
    [] op = "l_mpo" -> MpoL(c)
    [] op = "r_mpo" -> MpoR(c)
    [] op \in {"C2", "C2_cptr"} -> TOp(c.o2, c.AA)
    [] op = "C2_A" -> TOp(c.o2, A2s(c))
    [] op = "C3" -> TOp(c.o3, c.AAA)
    [] op = "C2conj" -> TOp(MAdj(c.o2), c.AA)
    [] op = "Ctp" -> TOp(TpOp(c), A2s(c))
    [] op = "tp_sum" -> TOp(TpOp(c), A2s(c))
    [] op = "mpo_local" -> MpoT(c.W, c.A[1])

\* environments: right ones are kets, left ones are bras
KOps == {"K","K_nolm1","K_tp","K3","Kl","Kl_tp","K3l"}
RefHr(c, op) ==
  CASE op \in {"K", "K_nolm1"} -> EpsR(c.env[3], c.AA, A2s(c))
    [] op = "K_tp" -> EpsR(c.env[3], TOp(TpOp(c), A2s(c)), A2s(c))
    [] op = "K3" -> EpsR(c.env[4], c.AAA, A3s(c))
    [] op = "Kl" -> EpsL(c.env[1], A2s(c), c.AA)
    [] op = "Kl_tp" -> EpsL(c.env[1], A2s(c), TOp(TpOp(c), A2s(c)))
    [] op = "K3l" -> EpsL(c.env[1], A3s(c), c.AAA)
RefK0(c, op) ==
  CASE op \in {"K","K_nolm1","K_tp","K3"} -> EpsR(c.K1, c.A[1], c.A[1])
    [] op \in {"Kl","Kl_tp"} -> EpsL(c.K1, c.A[2], c.A[2])
    [] op = "K3l" -> EpsL(c.K2, c.A[3], c.A[3])
RefKE(c, op, hr) ==
  CASE op \in {"K","K_tp","K3"} -> MDot(c.env[1], hr)
    [] op \in {"Kl","Kl_tp"} -> MTrace(MMul(hr, c.env[3]))
    [] op = "K3l" -> MTrace(MMul(hr, c.env[4]))

\* |a - b| <= atol + rtol |b| for all entries, decided unless it is a close call
Mod(z) == RSqrt(CAbs2(z))
Margin(e, r, s) == RSub(RAdd(e.atol, RMul(e.rtol, Mod(e.b[r][s]))), Mod(CSub(e.a[r][s], e.b[r][s])))
CloseCall(e) == \E r \in 1..Rows(e.a), s \in 1..Cols(e.a) : LET m == Margin(e, r, s) IN m < 4096 /\ m > -4096
AllClose(e) == \A r \in 1..Rows(e.a), s \in 1..Cols(e.a) : Margin(e, r, s) > 0

Verdict(c, e) ==
  IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op = "allclose" THEN Cl(CloseCall(e) \/ (e.out = 1) = AllClose(e), "verdict")
  ELSE Cl(e.mut = 0, "inputs-unmodified") \cup
    (CASE e.op \in MatOps -> Cl(CloseM(e.out, RefM(c, e.op)), "value")
      [] e.op \in TenOps -> Cl(CloseT(e.out, RefT(c, e.op)), "value")
      [] e.op \in KOps ->
           LET hr == TLCEval(RefHr(c, e.op)) IN
           Cl(CloseM(e.out.K, MAdd(RefK0(c, e.op), hr)), "environment")
           \cup (IF e.op = "K_nolm1" THEN {} ELSE Cl(CloseC(e.out.h, RefKE(c, e.op, hr)), "local-expectation"))
      [] OTHER -> {"unknown-event"})

Init == tid \in 1..Len(Traces) /\ i = 0
Next ==
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(Traces[tid].cfg, Traces[tid].ev[i + 1]) : PrintT(<<"FAIL", tid, i + 1, cl>>)
=============================================================================
