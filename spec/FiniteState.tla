---------------------------- MODULE FiniteState -----------------------------
(***************************************************************************)
(* What a finite chain object must store: shapes, environments, canonical  *)
(* forms; matrix-product operators acting on state vectors.                *)
(***************************************************************************)
EXTENDS Chain, Json, IOUtils
TOLV == 2048          \* state vectors, about 1e-4

\* ---- consistency of what the object stores
Shapes(o) ==
  LET N == Len(o.A) IN
  /\ Len(o.D) = N + 1 /\ Len(o.q) = N /\ o.D[1] = 1 /\ o.D[N + 1] = 1
  /\ \A n \in 1..N : Len(o.A[n]) = o.q[n] /\ TRows(o.A[n]) = o.D[n] /\ TCols(o.A[n]) = o.D[n + 1]
EnvShapes(o) == \A n \in 1..Len(o.D) : Rows(o.l[n]) = o.D[n] /\ Rows(o.r[n]) = o.D[n]
EnvL(o) == /\ CloseM(o.l[1], <<<<C1>>>>)
           /\ \A n \in 1..Len(o.A) : CloseM(o.l[n + 1], EpsL(o.l[n], o.A[n], o.A[n]))
EnvR(o) == LET N == Len(o.A) IN
           /\ CloseM(o.r[N + 1], <<<<C1>>>>)
           /\ \A n \in 1..N : CloseM(o.r[n], EpsR(o.r[n + 1], o.A[n], o.A[n]))
IsDiag(m) == \A a \in 1..Rows(m) : \A b \in 1..Cols(m) : a = b \/ CDist(m[a][b], CZ) <= 512
IsPos(m) == \A a \in 1..Rows(m) : m[a][a][1] >= -64 /\ Abs(m[a][a][2]) <= 64
IsOne(m) == CloseMT(m, MEye(Rows(m)), 1024)
OrthoR(o) == \A n \in 2..Len(o.A) : IsOne(EpsR(MEye(o.D[n + 1]), o.A[n], o.A[n])) /\ IsOne(o.r[n])
OrthoL(o) == \A n \in 1..(Len(o.A) - 1) : IsOne(EpsL(MEye(o.D[n]), o.A[n], o.A[n])) /\ IsOne(o.l[n + 1])
\* the inverse-based variant keeps the dimensions: orthonormal on the occupied subspace
IsProj01(m) == IsDiag(m) /\ \A a \in 1..Rows(m) : CDist(m[a][a], C1) <= 1024 \/ CDist(m[a][a], CZ) <= 1024
OrthoR0(o) == \A n \in 2..Len(o.A) : IsProj01(o.r[n])
OrthoL0(o) == \A n \in 1..(Len(o.A) - 1) : IsProj01(o.l[n + 1])
DiagL(o) == \A n \in 1..Len(o.l) : IsDiag(o.l[n]) /\ IsPos(o.l[n])
DiagR(o) == \A n \in 1..Len(o.r) : IsDiag(o.r[n]) /\ IsPos(o.r[n])

\* everything promised after an update with canonicalisation
Canon(o, cf, diag) ==
  IF cf = "right" THEN Cl(OrthoR(o), "right-orthonormal") \cup (IF diag = 1 THEN Cl(DiagL(o), "left-diagonal") ELSE {})
  ELSE Cl(OrthoL(o), "left-orthonormal") \cup (IF diag = 1 THEN Cl(DiagR(o), "right-diagonal") ELSE {})
Stored(o, fl, fr) ==
  Cl(EnvShapes(o), "environment-shapes")
  \cup (IF fl THEN Cl(EnvL(o), "left-environments") ELSE {})
  \cup (IF fr THEN Cl(EnvR(o), "right-environments") ELSE {})

SameRay(u, v) == Parallel(u, v, TOLV)
Unit(v) == Abs(VNorm2(v) - ONE) <= TOLV
SameNorm(u, v) == Abs(VNorm2(v) - VNorm2(u)) <= TOLV
DLess(o, D) == Len(o.D) = Len(D) /\ \A n \in 1..Len(D) : o.D[n] <= D[n]
SameTensors(A, B) == Len(A) = Len(B) /\ \A n \in 1..Len(A) : CloseTT(A[n], B[n], 2)

\* ---- bond dimensions that can be of full rank: D[n] <= q[n] D[n-1] and D[n] <= q[n+1] D[n+1]
RECURSIVE CapL(_, _, _)
CapL(D, q, n) == IF n = 1 THEN 1 ELSE Min2(IF n = Len(D) THEN 1 ELSE D[n], q[n - 1] * CapL(D, q, n - 1))
RECURSIVE CapR(_, _, _)
CapR(D, q, n) == IF n = Len(D) THEN 1 ELSE Min2(D[n], q[n] * CapR(D, q, n + 1))
CapD(D, q) == [n \in 1..Len(D) |-> IF n = 1 \/ n = Len(D) THEN 1 ELSE Min2(CapL(D, q, n), CapR(D, q, n))]

\* ---- matrix-product operator on sites n.. as an operator on vectors
RECURSIVE MpoAcc(_, _, _, _, _)
MpoAcc(W, n, X, qs, j) ==
  IF j > Len(W) THEN X[1]
  ELSE MpoAcc(W, n, TLCEval([b \in 1..Len(W[j][1]) |->
         MSum([a \in 1..Len(W[j]) |-> <<Act(W[j][a][b], X[a], qs, n + j - 1, n + j - 1)>>])[1]]), qs, j + 1)
MpoAct(W, n, v, qs) == MpoAcc(W, n, <<v>>, qs, 1)
=============================================================================
