------------------------------ MODULE MatTrace ------------------------------
(***************************************************************************)
(* Special matrix objects and matrix helpers (P02), factors, roots and     *)
(* null spaces (P03), Krylov exponential (P14).                            *)
(***************************************************************************)
EXTENDS Tensors, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i

EMul(a, b) == [r \in 1..Rows(a) |-> [s \in 1..Cols(a) |-> CMul(a[r][s], b[r][s])]]
DiagRow(a) == <<[r \in 1..Rows(a) |-> a[r][r]]>>
DiagM(a) == [r \in 1..Rows(a) |-> [s \in 1..Cols(a) |-> IF r = s THEN a[r][s] ELSE CZ]]
IsI(m) == CloseMT(m, MEye(Rows(m)), 4096)
IsHerm(m) == CloseM(m, MAdj(m))
LeftMulB(c) == MMul(c.b, c.a)

\* ---- P02: the value every operation must have
SpecialM == {"dot","dot_b","mmul_ab","dot_inplace_ab","mmul_abc","mmul_wide_a_b_tall","mmul_wide_a","mmul_a_tall",
   "dot_inplace","dot_inplace_l","H","H_tall","H_out","add","sub","emul","self","shape","scale","dot_tall",
   "dot_left_wide","dot_left_b","conj","tr","diagonal","ravel","radd","mmul_diag_r","mmul_diag_l"}
RefS(c, op) ==
  CASE op \in {"dot","dot_b","mmul_ab","dot_inplace_ab"} -> MMul(c.a, c.b)
    [] op = "mmul_abc" -> MMul(MMul(c.a, c.b), c.c)
    [] op = "mmul_wide_a_b_tall" -> MMul(MMul(c.wide, c.a), MMul(c.b, c.tall))
    [] op \in {"mmul_wide_a","dot_inplace_l","dot_left_wide"} -> MMul(c.wide, c.a)
    [] op \in {"mmul_a_tall","dot_inplace","dot_tall"} -> MMul(c.a, c.tall)
    [] op = "H" -> MAdj(c.a)
    [] op \in {"H_tall","H_out"} -> MAdj(c.tall)
    [] op \in {"add","radd"} -> MAdd(c.a, c.b)
    [] op = "sub" -> MSub(c.a, c.b)
    [] op = "emul" -> EMul(c.a, c.b)
    [] op = "self" -> c.a
    [] op = "shape" -> <<<<CR(c.D * ONE), CR(c.D * ONE)>>>>
    [] op = "scale" -> MScale(c.s, c.a)
    [] op = "dot_left_b" -> LeftMulB(c)
    [] op = "conj" -> MConj(c.a)
    [] op = "tr" -> MTr(c.a)
    [] op = "diagonal" -> DiagRow(c.a)
    [] op = "ravel" -> <<Flat(c.a)>>
    [] op = "mmul_diag_r" -> MMul(c.b, c.tall)
    [] op = "mmul_diag_l" -> MMul(c.wide, c.b)

Special(c, e) ==
  CASE e.op \in SpecialM -> Cl(CloseM(e.out, RefS(c, e.op)), "value")
    [] e.op = "inv" -> Cl(IsI(MMul(c.a, e.out)) /\ CloseM(e.out, DiagM(e.out)), "inverse")
    [] e.op = "sqrt" -> Cl(CloseM(MMul(e.out, e.out), c.a), "square-root")
                        \cup Cl(\A r \in 1..Rows(c.a) : e.out[r][r][1] >= -64, "principal-root")
    [] e.op = "trace" -> Cl(CloseC(e.out, MTrace(c.a)), "value")
    [] e.op = "trace_off" -> Cl(e.out = CZ, "value")
    [] e.op = "adot" -> Cl(CloseC(e.out, MTrace(MMul(MAdj(c.a), c.b))), "value")
    [] e.op = "adot_noconj" -> Cl(CloseC(e.out, MTrace(MMul(c.a, c.b))), "value")
    [] e.op = "sqrtmh" -> Cl(CloseMT(e.out, c.root, 4096), "value")
    [] e.op = "sqrtmh_ind" -> Cl(CloseMT(MMul(e.out, e.out), c.ind, 4096), "square-root")
    [] e.op = "invmh" -> Cl(IsI(MMul(e.out, c.ind)), "inverse") \cup Cl(IsHerm(e.out), "hermitian")
    [] e.op = "invtr_up" -> Cl(IsI(MMul(e.out, c.up)), "inverse")
    [] e.op = "invtr_lo" -> Cl(IsI(MMul(e.out, c.lo)), "inverse")
    [] OTHER -> {"unknown-event"}

\* ---- P03
\* generalised inverse on the support: the four defining equations
PInv(x, xi) == /\ CloseMT(MMul(MMul(x, xi), x), x, 8192)
               /\ CloseMT(MMul(MMul(xi, x), xi), xi, 16384)
               /\ LET p == MMul(x, xi) IN CloseMT(p, MAdj(p), 8192)
               /\ LET p == MMul(xi, x) IN CloseMT(p, MAdj(p), 8192)
\* trace of a projector counts its dimension
ProjRank(p, rk) == CDist(MTrace(p), CR(rk * ONE)) <= 16384

Factor(c, e) ==
  LET o == e.out IN
  Cl(CloseMT(IF c.lower = 1 THEN MMul(o.x, MAdj(o.x)) ELSE MMul(MAdj(o.x), o.x), c.A, 4096), "factor")
  \cup Cl(o.rk = c.rk, "rank")
  \cup (IF e.withinv = 1
        THEN Cl(PInv(o.x, o.xi), "inverse")
             \cup Cl(ProjRank(MMul(o.x, o.xi), c.rk), "support")
        ELSE Cl(~Has(o, "xi"), "inverse"))
Root(c, e) ==
  LET o == e.out IN
  Cl(CloseMT(MMul(o.x, o.x), c.A, 4096) /\ IsHerm(o.x), "root") \cup Cl(PInv(o.x, o.xi), "inverse")
  \cup Cl(ProjRank(MMul(o.x, o.xi), c.rk), "support") \cup Cl(o.rk = c.rk, "rank")
  \cup Cl(\A j \in 1..Rows(o.x) : o.x[j][j][1] >= -64, "positive-root")
LRRoots(c, e) ==
  LET o == e.out IN
  Cl(CloseMT(MMul(o.l, o.l), c.A, 4096) /\ PInv(o.l, o.li), "left-root")
  \cup Cl(CloseMT(MMul(o.r, o.r), c.B, 4096) /\ PInv(o.r, o.ri), "right-root")

Ortho(b) == LET g == MMul(MAdj(b), b) IN CloseMT(g, MEye(Rows(g)), 4096)
Basis(c, e, cols) ==
  Cl(e.out.cols = cols /\ e.out.rows = c.m, "dimension")
  \cup (IF e.out.cols = 0 \/ e.out.rows # c.m THEN {}
        ELSE Cl(Ortho(e.out.b), "orthonormal")
             \cup Cl(MMax(MMul(c.A, e.out.b)) <= 1024, "annihilated"))

Vsh(c, e) ==
  LET n == Len(c.A) * c.D1 - c.D0 IN
  IF n <= 0 THEN Cl(e.out.none = 1, "none-when-complete")
  ELSE IF e.out.none = 1 THEN {"missing"}
  ELSE LET T == e.out.T
           V == [s \in 1..Len(T) |-> MAdj(T[s])] IN
    Cl(Len(T) = c.q /\ TRows(T) = c.D1 /\ TCols(T) = n, "shape")
    \cup Cl(CloseMT(EpsR(MEye(c.D1), V, V), MEye(n), 4096), "isometry")
    \cup Cl(MMax(EpsR(c.r, V, c.A)) <= 2048, "orthogonal-to-A")
VshL(c, e) ==
  LET n == Len(c.A) * c.D0 - c.D1 IN
  IF n <= 0 THEN Cl(e.out.none = 1, "none-when-complete")
  ELSE IF e.out.none = 1 THEN {"missing"}
  ELSE LET T == e.out.T
           V == [s \in 1..Len(T) |-> MAdj(T[s])] IN
    Cl(Len(T) = c.q /\ TRows(T) = n /\ TCols(T) = c.D0, "shape")
    \cup Cl(CloseMT(EpsL(MEye(c.D0), V, V), MEye(n), 4096), "isometry")
    \cup Cl(MMax(EpsL(c.l, V, c.A)) <= 2048, "orthogonal-to-A")

\* ---- P14: exp(tA) v by short Taylor steps
RECURSIVE Taylor(_, _, _, _, _)
Taylor(M, term, acc, k, n) ==
  IF k > n THEN acc
  ELSE LET t2 == MScale(CR(RDiv(ONE, k * ONE)), MMul(M, term)) IN Taylor(M, t2, MAdd(acc, t2), k + 1, n)
RECURSIVE Steps(_, _, _)
Steps(M, v, n) == IF n = 0 THEN v ELSE Steps(M, TLCEval(Taylor(M, v, v, 1, 12)), n - 1)
ExpV(A, v, t) == IF t = 0 THEN v ELSE LET n == 8 IN Steps(MScale(CR(t \div n), A), v, n)

Expm(c, e) ==
  LET o == e.out IN
  \* accuracy is promised when convergence is claimed
  (IF o.conv = 1 THEN Cl(CloseMT(o.w, ExpV(c.A, c.v, c.t), 2048), "value") ELSE {})
  \cup Cl(o.conv = (IF o.nstep < e.mx THEN 1 ELSE 0), "convergence-flag")
  \cup Cl(o.nstep <= e.mx, "step-limit")
  \* with a Krylov space of useful size the step limit is never hit on these problems
  \cup Cl(e.mx < 500 \/ c.m < 5 \/ o.conv = 1, "not-converged")
  \* every (even partial) result of a unitary evolution has the norm of v
  \cup Cl(c.unitary = 0 \/ Abs(MNorm2(o.w) - ONE) <= 2048, "unitary")
  \* an eigenvector spans an invariant subspace
  \cup Cl(c.eigen = 0 \/ c.t = 0 \/ (o.brk = 1 /\ o.mb = 1), "breakdown")

Body(c, e) ==
  CASE e.op = "factor" -> Factor(c, e)
    [] e.op = "root" -> Root(c, e)
    [] e.op = "lr_roots" -> LRRoots(c, e)
    [] e.op = "rank" -> Cl(e.out = c.rk, "rank")
    [] e.op = "nullspace" -> Basis(c, e, c.m - c.rk)
    [] e.op = "nullspace_qr" -> Basis(c, e, c.m - c.n)
    [] e.op = "Vsh" -> Vsh(c, e)
    [] e.op = "Vsh_l" -> VshL(c, e)
    [] e.op = "expm" -> Expm(c, e)
    [] OTHER -> Special(c, e)
Verdict(c, e) ==
  IF e.op = "bad_dot" THEN Cl(Has(e, "exc"), "mismatch-accepted")
  ELSE IF Has(e, "exc") THEN {"raised"}
  ELSE Cl(e.mut = 0, "inputs-unmodified") \cup Body(c, e)

Init == tid \in 1..Len(Traces) /\ i = 0
Next ==
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(Traces[tid].cfg, Traces[tid].ev[i + 1]) : PrintT(<<"FAIL", tid, i + 1, cl>>)
=============================================================================
