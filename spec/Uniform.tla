------------------------------ MODULE Uniform -------------------------------
(***************************************************************************)
(* A uniform chain: a block of L site tensors repeated for ever in both    *)
(* directions, seen through the fixed points of its transfer map.          *)
(*                                                                         *)
(*  o      what an object stores: tensors A[1..L] (all D x D), l[k] and    *)
(*         r[k] the environments to the right of site k                    *)
(*  At     indices are taken modulo the block length                       *)
(***************************************************************************)
EXTENDS FiniteState

At(S, k) == S[((k - 1) % Len(S)) + 1]

UShapes(o) ==
  /\ Len(o.A) = o.L /\ Len(o.l) = o.L /\ Len(o.r) = o.L
  /\ \A k \in 1..o.L :
       /\ Len(o.A[k]) = o.q
       /\ \A s \in 1..o.q : Rows(o.A[k][s]) = o.D /\ Cols(o.A[k][s]) = o.D
UEnvShapes(o) == \A k \in 1..o.L : Rows(o.l[k]) = o.D /\ Cols(o.l[k]) = o.D /\ Rows(o.r[k]) = o.D /\ Cols(o.r[k]) = o.D

\* ---- the transfer map as a matrix on flattened D x D matrices
ESite(A, B) == TLCEval(MSum([s \in 1..Len(A) |-> MKron(A[s], MConj(B[s]))]))
RECURSIVE EAcc(_, _, _)
EAcc(A, B, n) == IF n = 1 THEN ESite(At(A, 1), At(B, 1)) ELSE TLCEval(MMul(EAcc(A, B, n - 1), ESite(At(A, n), At(B, n))))
EBlock(A, B) == EAcc(A, B, Len(A))
RECURSIVE Squared(_, _)
Squared(M, n) == IF n = 0 THEN M ELSE LET S == TLCEval(MMul(M, M)) IN Squared(S, n - 1)
\* the same, scaled to largest entry 1 after each squaring
RECURSIVE Scaled(_)
Scaled(M) == LET b == MMax(M) IN IF b = 0 THEN M
  ELSE IF b < ONE \div 64 THEN Scaled(TLCEval(MScale(CR(64 * ONE), M)))
  ELSE MScale(CR(RDiv(ONE, b)), M)
RECURSIVE SquaredN(_, _)
SquaredN(M, n) == IF n = 0 THEN M ELSE LET N == TLCEval(Scaled(M))  S == TLCEval(Scaled(MMul(N, N))) IN SquaredN(S, n - 1)
Col(v) == [k \in 1..Len(v) |-> <<v[k]>>]
UnCol(m, n, c) == UnFlat([k \in 1..Len(m) |-> m[k][1]], n, c)

\* tensors scaled to entries of at most 1
TMax(T) == CHOOSE x \in {MMax(T[s]) : s \in 1..Len(T)} : \A s \in 1..Len(T) : MMax(T[s]) <= x
RECURSIVE Sized(_)
Sized(T) == TLCEval(LET b == TMax(T) IN IF b = 0 THEN T ELSE IF b < ONE \div 64 THEN Sized(TScale(CR(64 * ONE), T))
  ELSE TScale(CR(RDiv(ONE, b)), T))

\* ---- what an up-to-date object must store
EnvU(o) == \A k \in 1..o.L :
   /\ CloseM(o.l[k], EpsL(At(o.l, k - 1), o.A[k], o.A[k]))
   /\ CloseM(At(o.r, k - 1), EpsR(o.r[k], o.A[k], o.A[k]))
UnitU(o) == \A k \in 1..o.L : CloseC(MDot(o.l[k], o.r[k]), C1)
HermU(o) == \A k \in 1..o.L : CloseMT(MAdj(o.l[k]), o.l[k], 1024) /\ CloseMT(MAdj(o.r[k]), o.r[k], 1024)
\* a positive multiple, up to the precision of the larger one
Unit1(M) == Scaled(M)
Along(u, v, tol) == LET x == TLCEval(Unit1(u))  y == TLCEval(Unit1(v))  n2 == MDot(x, x)  z == MDot(x, y) IN
  z[1] > 0 /\ CloseMT(MScale(n2, y), MScale(z, x), tol)
\* (the tensors of an ill-conditioned gauge have large elements: the precision left in the transfer map)
RECURSIVE AMax(_, _)
AMax(A, n) == IF n = 0 THEN ONE ELSE Max2(TMax(A[n]), AMax(A, n - 1))
GaugeFac(A) == LET b == Min2(AMax(A, Len(A)), 8 * ONE) \div 65536 IN (b * b) \div 65536
\* the environments are the ones every state far away evolves to
RECURSIVE EAccS(_, _)
EAccS(A, n) == TLCEval(LET e == Scaled(ESite(Sized(A[n]), Sized(A[n]))) IN IF n = 1 THEN e ELSE Scaled(MMul(EAccS(A, n - 1), e)))
DominantU(o) == LET P == SquaredN(EAccS(o.A, o.L), 7)
                    one == Col(Flat(MEye(o.D)))
                    tol == TOLV * GaugeFac(o.A) IN
   /\ Along(MMul(P, one), Col(Flat(o.r[o.L])), tol)
   /\ Along(MMul(MAdj(P), one), Col(Flat(o.l[o.L])), tol)
StoredU(o) ==
  IF ~UEnvShapes(o) THEN {"environment-shapes"}
  ELSE Cl(EnvU(o), "environments") \cup Cl(UnitU(o), "norm") \cup Cl(HermU(o), "hermitian") \cup Cl(DominantU(o), "not-dominant")

\* ---- canonical forms
\* Schmidt coefficients on both sides / identity on one side (a 0/1 projector on a deficient bond)
SCF(o, k) == IsDiag(o.l[k]) /\ IsPos(o.l[k]) /\ CloseMT(o.l[k], o.r[k], 1024)
RCF(o, k, diag) == IsProj01(o.r[k]) /\ (diag = 0 \/ (IsDiag(o.l[k]) /\ IsPos(o.l[k])))
LCF(o, k, diag) == IsProj01(o.l[k]) /\ (diag = 0 \/ (IsDiag(o.r[k]) /\ IsPos(o.r[k])))
CanonU(o, symm) == Cl(\A k \in 1..o.L : IF symm = 1 THEN SCF(o, k) ELSE RCF(o, k, 1), "canonical-form")

\* ---- the physical state
\* amplitudes of n blocks closed into a ring: gauge independent, and determine the state
RECURSIVE JoinN(_, _, _)
JoinN(A, a, b) == IF a = b THEN At(A, a) ELSE TJoin(JoinN(A, a, b - 1), At(A, b))
\* (the size is no part of the state: kept near 1 at every step)
RECURSIVE JoinS(_, _, _)
JoinS(A, a, b) == TLCEval(IF a = b THEN Sized(At(A, a)) ELSE Sized(TJoin(JoinS(A, a, b - 1), Sized(At(A, b)))))
Ring(B, n) == TLCEval(LET T == JoinS(B, 1, n) IN [k \in 1..Len(T) |-> MTrace(T[k])])
RECURSIVE PowI(_, _)
PowI(q, n) == IF n = 0 THEN 1 ELSE q * PowI(q, n - 1)
Bounded(v) == LET b == VMax(v) IN IF b = 0 THEN v ELSE LET w == TLCEval(VScale(CR(RDiv(ONE, Max2(b, ONE \div 16))), v)) IN
  VScale(CR(RDiv(ONE, Max2(RSqrt(VNorm2(w)), ONE \div 16))), w)
\* sites to use: a multiple of the block length L with at most 81 amplitudes
RingLen(q, L) == LET m == CHOOSE m \in 1..6 : (m = 1 \/ PowI(q, m * L) <= 81) /\ (PowI(q, (m + 1) * L) > 81 \/ m = 6) IN m * L
SameU(A, B) ==
  LET q == Len(A[1])  n == RingLen(q, Max2(Len(A), Len(B))) IN
  Len(B[1]) = q /\ Parallel(Bounded(Ring(A, n)), Bounded(Ring(B, n)), TOLV)

\* positions of the d largest entries of the diagonal matrix w, in order
Wt(w, a) == w[a][a][1]
Rank2(w, a) == Len(SelectSeq([b \in 1..Rows(w) |-> b], LAMBDA b : Wt(w, b) > Wt(w, a) \/ (Wt(w, b) = Wt(w, a) /\ b > a)))
Kept2(w, d) == SelectSeq([a \in 1..Rows(w) |-> a], LAMBDA a : Rank2(w, a) < d)
CountAbove2(w, t) == Len(SelectSeq([a \in 1..Rows(w) |-> a], LAMBDA a : Wt(w, a) > t))

\* ---- expectation values in the state of an up-to-date object
\* ket tensor T and bra tensor U on sites k..k+m-1
Sandwich(o, k, m, T, U) == MDot(At(o.l, k - 1), EpsR(At(o.r, k + m - 1), T, U))
ExU(o, op, k, m) == LET T == JoinN(o.A, k, k + m - 1) IN Sandwich(o, k, m, TOp(op, T), T)
\* op1 on site k, op2 on site k+d
RECURSIVE CarryL(_, _, _, _)
CarryL(A, x, a, b) == IF a > b THEN x ELSE CarryL(A, EpsL(x, At(A, a), At(A, a)), a + 1, b)
\* <x|: left vector after op on site k.  MDot conjugates its left argument, so op acts from the bra side
OpL(x, A, op) == EpsL(x, TOp(op, A), A)
PairU(o, op1, op2, k, d) ==
  IF d = 0 THEN ExU(o, MMul(op1, op2), k, 1)
  ELSE LET x == CarryL(o.A, OpL(At(o.l, k - 1), At(o.A, k), op1), k + 1, k + d - 1) IN
       MDot(x, EpsR(At(o.r, k + d), TOp(op2, At(o.A, k + d)), At(o.A, k + d)))
\* op on each of the sites k..k+n-1
RECURSIVE StringR(_, _, _, _)
StringR(o, op, k, n) == IF n = 0 THEN At(o.r, k - 1) ELSE
  EpsR(StringR(o, op, k + 1, n - 1), TOp(op, At(o.A, k)), At(o.A, k))
StringU(o, op, k, n) == MDot(At(o.l, k - 1), StringR(o, op, k, n))
RhoU(o, k, m) == TLCEval(LET T == JoinN(o.A, k, k + m - 1) IN
  [s \in 1..Len(T) |-> [t \in 1..Len(T) |-> MDot(At(o.l, k - 1), MMul(T[s], MMul(At(o.r, k + m - 1), MAdj(T[t]))))]])
\* all reduced density matrices of two neighbouring sites
SameRho(o, p) == \A k \in 1..o.L : CloseMT(RhoU(o, k, 2), RhoU(p, k, 2), TOLV)

\* ---- spectra
\* power sums of the Schmidt spectrum behind site k: tr (l r)^j
SchmidtU(o, k, lam) ==
  LET m == MMul(o.l[k], o.r[k])  n == Max2(o.D, Len(lam))  ps == PowerSums(m, m, n) IN
  Cl(Len(lam) = o.D, "count")
  \cup Cl(\A j \in 1..n : CDist(PowSum(lam, j, Len(lam)), ps[j]) <= TOLV, "spectrum")
  \cup Cl(\A j \in 1..Len(lam) : lam[j][1] >= -256 /\ Abs(lam[j][2]) <= 1024, "not-a-weight")
\* log2 of the spectral radius of M from the norms of n repeated squares
RECURSIVE LogRadAcc(_, _, _, _)
LogRadAcc(M, n, w, acc) ==
  LET b == MMax(M)  a == acc + (Log2(Max2(b, 1)) \div w) IN
  IF b = 0 THEN -MAXI
  ELSE IF n = 0 THEN a
  ELSE IF b < ONE \div 64 THEN LogRadAcc(TLCEval(MScale(CR(64 * ONE), M)), n, w, acc - ((6 * ONE) \div w))
  ELSE LET S == TLCEval(MScale(CR(RDiv(ONE, b)), M)) IN LogRadAcc(TLCEval(MMul(S, S)), n - 1, 2 * w, a)
LogRad(M) == LogRadAcc(M, 14, 1, 0)
\* the transfer map without its leading part
Deflated(o) == TLCEval(MSub(EBlock(o.A, o.A), MMul(Col(Flat(o.r[o.L])), MAdj(Col(Flat(o.l[o.L]))))))
=============================================================================
