------------------------------ MODULE UniTrace ------------------------------
(***************************************************************************)
(* The uniform chain as a transition system on the infinite state it       *)
(* stands for (P15, P16).  st.o is what the object stored last, st.fr says *)
(* that the stored environments are promised to be those of the tensors.   *)
(***************************************************************************)
EXTENDS Uniform
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i, st

Lcm(a, b) == CHOOSE n \in 1..(a * b) : (n % a) = 0 /\ (n % b) = 0 /\ \A m \in 1..(n - 1) : (m % a) # 0 \/ (m % b) # 0

\* ---- truncation: the newD largest Schmidt components of every bond
USlice(o, newD) == LET K == [k \in 1..o.L |-> Kept2(o.l[k], newD)] IN
  [k \in 1..o.L |-> [s \in 1..o.q |-> [x \in 1..newD |-> [y \in 1..newD |-> o.A[k][s][At(K, k - 1)[x]][K[k][y]]]]]]

\* result of an update: the state of tensors A, everything stored consistent
UpdatedU(o, A, restore, symm) ==
  Cl(SameU(A, o.A), "state") \cup StoredU(o)
  \cup (IF st.fr THEN Cl(SameRho(st.o, o), "density-matrices") ELSE {}) \cup (IF restore = 1 THEN CanonU(o, symm) ELSE {})
SameTen(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : CloseTT(A[k], B[k], 2)
\* the gauge matrices returned are the ones used
GaugeUsed(e, A, B) ==
  \A k \in 1..Len(A) :
    LET Lk == IF At(e.Gi, k - 1) = <<>> THEN MEye(TRows(A[k])) ELSE At(e.Gi, k - 1)
        Rk == IF e.G[k] = <<>> THEN MEye(TRows(A[k])) ELSE e.G[k] IN
    CloseT(TMulL(Lk, TMulR(A[k], Rk)), B[k])
InKs(e, k) == \E j \in 1..Len(e.ks) : e.ks[j] = k

Change(e, o) ==
  LET A == st.o.A IN
  CASE e.op = "construct" ->
         Cl(o.D = e.D /\ o.q = e.q /\ o.L = e.L, "dimensions") \cup (IF e.upd = 1 THEN StoredU(o) \cup CanonU(o, 1) ELSE {})
    [] e.op = "poke" -> {}
    [] e.op = "from" ->
         Cl(SameU(e.T, o.A), "state") \cup (IF e.upd = 1 THEN StoredU(o) ELSE Cl(SameTen(e.T, o.A), "tensors"))
    [] e.op = "update" -> UpdatedU(o, A, e.restore, e.symm) \cup Cl(o.D <= st.o.D, "dimensions-grew")
         \cup (IF e.trunc = 0 THEN Cl(o.D = st.o.D, "dimensions") ELSE {})
         \cup (IF e.rank # 0 THEN Cl(o.D = e.rank, "not-truncated") ELSE {})
    [] e.op \in {"scf", "rcf", "lcf"} ->
         Cl(SameU(A, o.A), "state") \cup StoredU(o) \cup Cl(o.D = st.o.D, "dimensions") \cup Cl(SameRho(st.o, o), "density-matrices")
         \cup Cl(\A k \in 1..o.L : ~InKs(e, k) \/
                   (CASE e.op = "scf" -> SCF(o, k) [] e.op = "rcf" -> RCF(o, k, e.diag) [] OTHER -> LCF(o, k, e.diag)), "canonical-form")
         \cup Cl(\A k \in 1..o.L : InKs(e, k) \/ (MDist(o.l[k], st.o.l[k]) <= 2 /\ MDist(o.r[k], st.o.r[k]) <= 2), "other-bonds-changed")
         \cup (IF e.retg = 1 THEN Cl(GaugeUsed(e.out, A, o.A), "returned-gauge") ELSE {})
    [] e.op = "truncate" ->
         LET ref == USlice(st.o, e.newD) IN
         Cl(o.D = e.newD, "dimensions") \cup Cl(SameU(ref, o.A), "state")
         \cup (IF e.upd = 1 THEN StoredU(o) \cup CanonU(o, e.symm) ELSE {})
    [] e.op = "auto" ->
         LET cnt(t) == LET S == {CountAbove2(st.o.l[k], t) : k \in 1..st.o.L} IN CHOOSE x \in S : \A y \in S : y <= x
             hi == Max2(1, cnt(e.tol - 3))  lo == Max2(1, cnt(e.tol + 3)) IN
         Cl(o.D <= hi /\ o.D >= lo, "dimensions")
         \cup Cl((o.did = 1) = (o.D < st.o.D), "reported")
         \cup (IF o.D = st.o.D THEN Cl(SameTen(A, o.A), "changed-without-truncation")
               ELSE Cl(SameU(USlice(st.o, o.D), o.A), "state"))
         \cup (IF e.upd = 1 \/ o.D = st.o.D THEN StoredU(o) \cup CanonU(o, e.symm) ELSE {})
    [] e.op = "noise" ->
         IF e.upd = 1 THEN StoredU(o) \cup CanonU(o, e.symm)
         ELSE Cl(Len(o.A) = Len(A) /\ \A n \in 1..Len(A) : CloseTT(o.A[n], A[n], e.fac + 4), "too-noisy")
              \cup Cl(~SameTen(A, o.A), "no-noise")
    [] e.op = "randomize" ->
         IF e.upd = 1 THEN StoredU(o) \cup CanonU(o, e.symm)
         ELSE Cl(\A n \in 1..Len(A) : Abs(TNorm2(o.A[n]) - ONE) <= 1024, "norm") \cup Cl(o.D = st.o.D, "dimensions")
    [] e.op = "op" ->
         LET B == [k \in 1..Len(A) |-> IF k = e.k THEN TOp(e.o, A[k]) ELSE A[k]] IN
         IF e.upd = 1 THEN Cl(SameU(B, o.A), "state") \cup StoredU(o) \cup CanonU(o, e.symm) ELSE Cl(\A k \in 1..Len(A) : CloseT(o.A[k], B[k]), "tensors")
    [] e.op = "phase" ->
         Cl(SameU(A, o.A), "state") \cup (IF st.fr THEN StoredU(o) ELSE {})
         \cup Cl(LET E == EAcc(o.A, e.B, Lcm(o.L, Len(e.B)))  P == SquaredN(E, 7)  Q == MMul(E, P)  w == MDot(P, Q)
                 IN e.gapok = 0 \/ (w[1] > 0 /\ Abs(w[2]) <= 512 + (w[1] \div 1024)), "overlap-not-positive")
    [] e.op = "align" ->
         IF e.same = 0 THEN Cl(o.none = 1 /\ SameTen(A, o.A), "changed")
         ELSE Cl(o.none = 0, "not-aligned") \cup Cl(\A k \in 1..o.L : CloseT(o.A[k], e.B[k]), "tensors")
              \cup StoredU(o)
              \cup (IF o.none = 0 /\ Len(o.G) = o.L THEN
                    Cl(\A k \in 1..o.L : CloseM(MMul(o.G[k], o.Gi[k]), MEye(o.D)), "inverse") ELSE {})
    [] e.op = "still" ->
         Cl(SameTen(A, o.A) /\ o.D = st.o.D, "state-changed")
         \cup Cl(\A n \in 1..o.L : MDist(o.l[n], st.o.l[n]) <= 2 /\ MDist(o.r[n], st.o.r[n]) <= 2, "environments-changed")
    [] OTHER -> {"unknown-event"}

\* ---- queries
DiagOf(m) == [a \in 1..Rows(m) |-> m[a][a]]
Lam(o, k) == MMul(o.l[k], o.r[k])
\* the dominant eigenvalue of the map M is w
IsDominant(M, w) == LET P == SquaredN(M, 7) IN CloseMT(MMul(M, P), MScale(w, P), 2048)
RECURSIVE OpBlockN(_, _, _)
OpBlockN(o, op, k) == LET S == ESite(TOp(op, At(o.A, k)), At(o.A, k)) IN
  IF k = o.L THEN S ELSE MMul(S, OpBlockN(o, op, k + 1))
OpBlock(o, op) == OpBlockN(o, op, 1)
RECURSIVE OpAll(_, _, _)
OpAll(op, n, q) == IF n = 1 THEN op ELSE MKron(OpAll(op, n - 1, q), op)
RECURSIVE OpSum(_, _, _)
OpSum(op, n, q) == IF n = 1 THEN op
  ELSE MAdd(MKron(OpSum(op, n - 1, q), MEye(q)), MKron(MEye(PowI(q, n - 1)), op))
IndMax(w) == CHOOSE a \in 1..Len(w) : \A b \in 1..Len(w) : w[b][1] <= w[a][1]

Query(e) ==
  LET o == st.o IN
  CASE e.op = "ev" -> Cl(CloseC(e.out, ExU(o, e.o, e.k, e.m)), "value")
    [] e.op = "pair" -> Cl(CloseC(e.out, PairU(o, e.o, e.p, e.k, e.d)), "value")
    [] e.op = "pairs" -> Cl(Len(e.out) = e.d + 1 /\ \A j \in 0..e.d : CloseC(e.out[j + 1], PairU(o, e.o, e.p, e.k, j)), "value")
    [] e.op \in {"corr", "corr_ex"} ->
         LET e1 == [j \in 0..e.d |-> ExU(o, e.o, e.k + j, 1)]
             e2 == [j \in 0..e.d |-> ExU(o, e.p, e.k + j, 1)]
             cc == IF e.op = "corr" THEN e.out ELSE e.out.c IN
         Cl(Len(cc) = e.d + 1 /\ \A j \in 0..e.d : CloseC(cc[j + 1], CSub(PairU(o, e.o, e.p, e.k, j), CMul(e1[0], e2[j]))), "value")
         \cup (IF e.op = "corr" THEN {}
               ELSE Cl(Len(e.out.e1) = e.d + 1 /\ \A j \in 0..e.d : CloseC(e.out.e1[j + 1], e1[j]), "first-values")
                    \cup Cl(Len(e.out.e2) = e.d + 1 /\ \A j \in 0..e.d : CloseC(e.out.e2[j + 1], e2[j]), "second-values"))
    [] e.op = "rho1" -> Cl(CloseM(e.out, RhoU(o, e.k, 1)), "value")
    [] e.op = "occ" -> LET R == RhoU(o, e.k, 1) IN
         Cl(Len(e.out) = o.q /\ \A s \in 1..o.q : CloseC(e.out[s], CR(R[s][s][1])), "value")
    [] e.op = "string" -> Cl(Len(e.out) = e.d /\ \A j \in 1..e.d : CloseC(e.out[j], StringU(o, e.o, e.k, j)), "value")
    [] e.op = "string_site" -> Cl(e.gapok = 0 \/ IsDominant(OpBlock(o, e.o), CPow(e.out, o.L)), "value")
    [] e.op = "string_hc" ->
         LET T == JoinN(o.A, e.k, e.k + o.L - 1)  V == e.out.V  w == CPow(e.out.w, o.L)
             im == IndMax(DiagOf(Lam(o, IF e.k = 1 THEN o.L ELSE e.k - 1))) IN
         Cl(Abs(CAbs2(w) - ONE) <= 4096, "not-a-symmetry")
         \cup Cl(CloseTT(TMulR(TOp(OpAll(e.o, o.L, o.q), T), V), TScale(w, TMulL(V, T)), 4096), "virtual-operator")
         \cup Cl(CloseMT(MMul(V, MAdj(V)), MEye(o.D), 4096), "not-unitary")
         \cup Cl(Len(e.out.ev) = o.D /\ \A a \in 1..o.D : CDist(e.out.ev[a], V[a][a]) <= 64, "values")
         \cup Cl(Abs(V[im][im][2]) <= 1024 /\ V[im][im][1] > 0, "phase")
    [] e.op = "sum_hc" ->
         LET T == JoinN(o.A, e.k, e.k + o.L - 1)  V == e.out.V IN
         Cl(CloseTT(TSub(TMulL(V, T), TMulR(T, V)), TOp(OpSum(e.o, o.L, o.q), T), 8192), "virtual-operator")
         \cup Cl(CDist(e.out.x, CZ) <= 1024, "full-value")
         \cup Cl(Len(e.out.ev) = o.D /\ \A a \in 1..o.D : CDist(e.out.ev[a], V[a][a]) <= 64, "values")
         \cup Cl(CDist(MDot(At(o.l, e.k - 1), MMul(V, At(o.r, e.k - 1))), CZ) <= 4096, "offset")
    [] e.op = "schmidt" -> SchmidtU(o, e.k, e.out)
    [] e.op = "entropy" ->
         Cl(e.out[1] >= -256 /\ Abs(e.out[2]) <= 256, "not-an-entropy")
         \cup (IF IsDiag(o.l[e.k]) /\ IsDiag(o.r[e.k]) THEN Cl(Abs(e.out[1] - Entropy(DiagOf(Lam(o, e.k)))) <= 8192, "value")
               ELSE Cl(e.out[1] >= -Log2(Max2(MTrace(MMul(Lam(o, e.k), Lam(o, e.k)))[1], 1)) - 8192
                       /\ e.out[1] <= Log2(ONE * o.D) + 8192, "value"))
    [] e.op = "entropy_l" -> SchmidtU(o, e.k, e.out.lam) \cup Cl(CDist(e.out.S, CR(Entropy(e.out.lam))) <= 8192, "entropy")
    [] e.op = "corrlen" ->
         IF o.D = 1 THEN Cl(e.out = CZ, "value") ELSE
         LET lg == LogRad(Deflated(o)) IN       \* xi * log2 |lambda2| * ln 2 = -L
         IF lg < -8 * ONE \/ lg > -(ONE \div 64) THEN {}
         ELSE Cl(Abs(RMul(RMul(e.out[1], lg), 11629080) + o.L * ONE) <= o.L * (ONE \div 64), "value")
    [] e.op = "gap" ->
         LET lg == LogRad(Deflated(o)) IN
         IF lg < -8 * ONE THEN {} ELSE Cl(e.out[1] < ONE /\ Abs(Log2(ONE - e.out[1]) - lg) <= ONE \div 64, "value")
    [] e.op = "fid" ->
         LET n == Lcm(o.L, Len(e.B))  E == EAcc(o.A, e.B, n)  w == e.out.w  d == e.out.d IN
         Cl(Abs(RMul(CPow(CR(d), n)[1], CPow(CR(d), n)[1]) - CAbs2(w)) <= 2048, "per-site")
         \cup Cl(e.gapok = 0 \/ IsDominant(E, w), "eigenvalue")
         \cup (IF e.out.V = <<>> THEN {}
               ELSE IF e.left = 1 THEN Cl(CloseM(MMul(MAdj(E), e.out.V), MScale(CConj(w), e.out.V)), "left-vector")
               ELSE Cl(CloseM(MMul(E, e.out.V), MScale(w, e.out.V)), "right-vector"))
    [] OTHER -> {"unknown-event"}

ChangeOps == {"construct","poke","from","update","scf","rcf","lcf","truncate","auto","noise","randomize","op","phase","align","still"}
Fresh(e) ==
  CASE e.op \in {"update","scf","rcf","lcf"} -> TRUE
    [] e.op \in {"construct","from","truncate","noise","randomize","op"} -> e.upd = 1
    [] e.op \in {"phase","align","still"} -> st.fr
    [] e.op = "auto" -> e.upd = 1
    [] OTHER -> FALSE
Verdict(e) ==
  IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op \in ChangeOps THEN (IF ~UShapes(e.out) THEN {"shapes"} ELSE Change(e, e.out))
  ELSE Query(e)
After(e) ==
  IF Has(e, "exc") \/ e.op \notin (ChangeOps \ {"still"}) THEN st
  ELSE [o |-> e.out, fr |-> Fresh(e)]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = [o |-> <<>>, fr |-> FALSE]
Next ==
  LET e == Traces[tid].ev[i + 1] IN
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(e) : PrintT(<<"FAIL", tid, i + 1, cl>>)
  /\ st' = After(e)
=============================================================================
