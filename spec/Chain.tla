------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* A finite chain of sites with open ends, seen through its full state     *)
(* vector: what a matrix product state represents, how local operators act *)
(* on it, its reduced density matrices, Schmidt spectra, and the geometry  *)
(* of the variational manifold (gradients, tangent vectors).               *)
(*                                                                         *)
(*  A      sequence of site tensors A[1..N]                                *)
(*  vector sequence of complex numbers, basis states ordered row-major     *)
(*         (last site fastest)                                             *)
(*  qs     sequence of site dimensions                                     *)
(***************************************************************************)
EXTENDS Tensors

\* ---- products of dimensions
RECURSIVE Prod(_, _, _)
Prod(qs, a, b) == IF a > b THEN 1 ELSE qs[a] * Prod(qs, a + 1, b)

\* ---- the state vector
RECURSIVE JoinAll(_, _, _)
JoinAll(A, a, b) == IF a = b THEN A[a] ELSE TJoin(JoinAll(A, a, b - 1), A[b])
Psi(A) == TLCEval(LET T == JoinAll(A, 1, Len(A)) IN [k \in 1..Len(T) |-> T[k][1][1]])

\* vectors are handled as one-row matrices by the linear algebra
VRow(v) == <<v>>
VDot(u, v) == MDot(<<u>>, <<v>>)          \* <u|v>
VNorm2(v) == MNorm2(<<v>>)
VAdd(u, v) == MAdd(<<u>>, <<v>>)[1]
VSub(u, v) == MSub(<<u>>, <<v>>)[1]
VScale(c, v) == MScale(c, <<v>>)[1]
VZero(n) == [k \in 1..n |-> CZ]
VMax(v) == MMax(<<v>>)
VDist(u, v) == MDist(<<u>>, <<v>>)
CloseV(u, v) == CloseM(<<u>>, <<v>>)

\* ---- local operators: op on sites n..n+k-1 whose dimensions multiply to Rows(op)
OpAt(op, v, dl, dr) == TLCEval(
  LET dm == Cols(op)  de == Rows(op)
      P == [a \in 1..dl |-> MMul(op, [b \in 1..dm |-> [c \in 1..dr |-> v[((a - 1) * dm + (b - 1)) * dr + c]]])]
  IN [k \in 1..(dl * de * dr) |->
       P[((k - 1) \div (de * dr)) + 1][(((k - 1) \div dr) % de) + 1][((k - 1) % dr) + 1]])
\* op on neighbouring sites n..m of a chain with dimensions qs
Act(op, v, qs, n, m) == OpAt(op, v, Prod(qs, 1, n - 1), Prod(qs, m + 1, Len(qs)))

\* expectation value (numerator) <v|op|v>
Ev(op, v, qs, n, m) == VDot(v, Act(op, v, qs, n, m))
\* product of one-site operators (a sequence of <<site, op>>) applied to v
RECURSIVE ActAll(_, _, _, _)
ActAll(ops, k, v, qs) == IF k = 0 THEN v ELSE ActAll(ops, k - 1, Act(ops[k][2], v, qs, ops[k][1], ops[k][1]), qs)

\* Hamiltonian: terms h[n] on sites n..n+k-1 (<<>> where there is none)
RECURSIVE HamAcc(_, _, _, _, _)
HamAcc(h, k, v, qs, n) ==
  IF n = 0 THEN VZero(Len(v))
  ELSE LET rest == HamAcc(h, k, v, qs, n - 1) IN
       IF h[n] = <<>> THEN rest ELSE TLCEval(VAdd(rest, Act(h[n], v, qs, n, n + k - 1)))
HamV(h, k, v, qs) == TLCEval(HamAcc(h, k, v, qs, Len(h)))

\* ---- cuts
\* the vector as a matrix (left dim x right dim) for the cut behind site n
CutM(v, qs, n) == LET dl == Prod(qs, 1, n)  dr == Prod(qs, n + 1, Len(qs)) IN
  [a \in 1..dl |-> [b \in 1..dr |-> v[(a - 1) * dr + b]]]
\* reduced density matrix of the smaller side of the cut
CutRho(v, qs, n) == TLCEval(LET M == CutM(v, qs, n) IN
  IF Rows(M) <= Cols(M) THEN MMul(M, MAdj(M)) ELSE MMul(MAdj(M), M))
\* power sums tr(rho^k), k = 1..n
RECURSIVE PowerSums(_, _, _)
PowerSums(rho, p, n) == IF n = 0 THEN <<>> ELSE <<MTrace(p)>> \o PowerSums(rho, TLCEval(MMul(p, rho)), n - 1)
RECURSIVE CPow(_, _)
CPow(z, k) == IF k = 1 THEN z ELSE CMul(z, CPow(z, k - 1))
RECURSIVE PowSum(_, _, _)
PowSum(lam, k, j) == IF j = 0 THEN CZ ELSE CAdd(CPow(lam[j], k), PowSum(lam, k, j - 1))

\* reduced density matrix rho[s][t] = <s|rho|t> of sites n1 (and n2)
Rho1(v, qs, n) == TLCEval(
  LET q == qs[n]
      E(s, t) == [a \in 1..q |-> [b \in 1..q |-> IF a = t /\ b = s THEN C1 ELSE CZ]] IN
  [s \in 1..q |-> [t \in 1..q |-> Ev(E(s, t), v, qs, n, n)]])
Rho2(v, qs, n1, n2) == TLCEval(
  LET a == qs[n1]  b == qs[n2]
      U(d, s, t) == [x \in 1..d |-> [y \in 1..d |-> IF x = t /\ y = s THEN C1 ELSE CZ]]
      X(s, t) == Act(U(a, ((s - 1) \div b) + 1, ((t - 1) \div b) + 1),
                     Act(U(b, ((s - 1) % b) + 1, ((t - 1) % b) + 1), v, qs, n2, n2), qs, n1, n1) IN
  [s \in 1..(a * b) |-> [t \in 1..(a * b) |-> VDot(v, X(s, t))]])

\* ---- blocks of the chain
\* left block states: rows = joined physical indices of sites 1..n, columns = bond n
LeftMat(A, n) == TLCEval(
  IF n = 0 THEN <<<<C1>>>> ELSE LET T == JoinAll(A, 1, n) IN [k \in 1..Len(T) |-> T[k][1]])
\* right block states: rows = bond n-1, columns = joined physical indices of sites n..N
RightMat(A, n) == TLCEval(
  IF n > Len(A) THEN <<<<C1>>>> ELSE
  LET T == JoinAll(A, n, Len(A)) IN [a \in 1..TRows(T) |-> [k \in 1..Len(T) |-> T[k][a][1]]])

\* gradient of <Psi(A)|v> with respect to the conjugate of tensor n
Grad(A, v, n) == TLCEval(
  LET L == LeftMat(A, n - 1)  R == RightMat(A, n + 1)  q == Len(A[n])
      dl == Rows(L)  dr == Cols(R)
      V(s) == [i \in 1..dl |-> [j \in 1..dr |-> v[((i - 1) * q + (s - 1)) * dr + j]]] IN
  [s \in 1..q |-> MMul(MAdj(L), MMul(V(s), MAdj(R)))])
\* the vector with tensor n replaced by T
PsiWith(A, n, T) == Psi([k \in 1..Len(A) |-> IF k = n THEN T ELSE A[k]])
RECURSIVE TangentAcc(_, _, _)
TangentAcc(A, B, n) == IF n = 0 THEN VZero(Prod([k \in 1..Len(A) |-> Len(A[k])], 1, Len(A)))
  ELSE LET rest == TangentAcc(A, B, n - 1) IN IF B[n] = <<>> THEN rest ELSE VAdd(rest, PsiWith(A, n, B[n]))
\* tangent vector with parameters B (<<>> where there is none)
Tangent(A, B) == TLCEval(TangentAcc(A, B, Len(A)))

\* ---- environments of the tensors
RECURSIVE LEnv(_, _)
LEnv(A, n) == IF n = 0 THEN <<<<C1>>>> ELSE EpsL(LEnv(A, n - 1), A[n], A[n])
RECURSIVE REnv(_, _)
REnv(A, n) == IF n = Len(A) THEN <<<<C1>>>> ELSE EpsR(REnv(A, n + 1), A[n + 1], A[n + 1])

\* ---- comparison up to a phase and norm
\* v = (z / <u|u>) u  for some z
Parallel(u, v, tol) ==
  LET n2 == VNorm2(u)  z == VDot(u, v) IN VDist(VScale(CR(n2), v), VScale(z, u)) <= tol

\* ---- logarithm to base 2 of a fixed-point number 0 < x
RECURSIVE L2Int(_, _)
L2Int(x, k) == IF x >= 2 * ONE THEN L2Int(x \div 2, k + 1) ELSE IF x < ONE THEN L2Int(2 * x, k - 1) ELSE <<x, k>>
RECURSIVE L2Frac(_, _, _)
L2Frac(y, bit, acc) ==
  IF bit = 0 THEN acc
  ELSE LET z == RMul(y, y) IN
       IF z >= 2 * ONE THEN L2Frac(z \div 2, bit \div 2, acc + bit) ELSE L2Frac(z, bit \div 2, acc)
Log2(x) == LET p == L2Int(x, 0) IN p[2] * ONE + L2Frac(p[1], ONE \div 2, 0)
RECURSIVE EntropyAcc(_, _)
EntropyAcc(lam, j) == IF j = 0 THEN 0
  ELSE LET x == lam[j][1] IN RSub(EntropyAcc(lam, j - 1), IF x <= 0 THEN 0 ELSE RMul(x, Log2(x)))
Entropy(lam) == EntropyAcc(lam, Len(lam))
=============================================================================
