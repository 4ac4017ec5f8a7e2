------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* A finite window of N site tensors between two uniform chains that go on *)
(* for ever to its left and right.                                         *)
(*                                                                         *)
(*  o      what an object stores: A[1..N]; l[n+1], r[n+1] the environments *)
(*         to the right of site n (n in 0..N+1); ul, ur the two chains;    *)
(*         nc the centre site                                              *)
(*  sites  any integer; site 0 is the last of a block of ul, site N+1 the  *)
(*         first of a block of ur                                          *)
(***************************************************************************)
EXTENDS Uniform

WN(o) == Len(o.A)
\* site tensors of the infinite state
SiteW(o, n) == IF n < 1 THEN o.ul.A[((n - 1) % o.ul.L) + 1] ELSE IF n > WN(o) THEN o.ur.A[((n - WN(o) - 1) % o.ur.L) + 1] ELSE o.A[n]
\* what the far left and the far right evolve to: fixed points stored by the two chains, carried to site n
RECURSIVE LeftW(_, _)
LeftW(o, n) == TLCEval(IF n = 0 \/ (n < 0 /\ (n % o.ul.L) = 0) THEN o.ul.l[o.ul.L] ELSE EpsL(LeftW(o, n - 1), SiteW(o, n), SiteW(o, n)))
RECURSIVE RightW(_, _)
RightW(o, n) == TLCEval(IF n = WN(o) \/ (n > WN(o) /\ ((n - WN(o)) % o.ur.L) = 0) THEN o.ur.r[o.ur.L] ELSE EpsR(RightW(o, n + 1), SiteW(o, n + 1), SiteW(o, n + 1)))
NormW(o) == MDot(LeftW(o, 0), RightW(o, 0))

\* ---- what the object must store
ShapesW(o) ==
  LET N == WN(o) IN
  /\ Len(o.D) = N + 2 /\ o.N = N /\ o.D[1] = o.ul.D /\ o.D[N + 1] = o.ur.D /\ o.D[N + 2] = o.ur.D
  /\ \A n \in 1..N : Len(o.A[n]) = o.ul.q /\ TRows(o.A[n]) = o.D[n] /\ TCols(o.A[n]) = o.D[n + 1]
  /\ UShapes(o.ul) /\ UShapes(o.ur)
EnvShapesW(o) == Len(o.l) = WN(o) + 2 /\ Len(o.r) = WN(o) + 2 /\ \A n \in 1..(WN(o) + 2) : Rows(o.l[n]) = o.D[n] /\ Rows(o.r[n]) = o.D[n]
\* environments stored for the sites 0..N, and for the first site of the right chain
EnvW(o) ==
  IF ~EnvShapesW(o) THEN {"environment-shapes"}
  ELSE Cl(\A n \in 0..(WN(o) + 1) : CloseM(o.l[n + 1], LeftW(o, n)), "left-environments")
       \cup Cl(\A n \in 0..(WN(o) + 1) : CloseM(o.r[n + 1], RightW(o, n)), "right-environments")
BulksW(o) == {"left-" \o x : x \in StoredU(o.ul)} \cup {"right-" \o x : x \in StoredU(o.ur)}
CanonW(o) ==
  LET N == WN(o) IN
  Cl(\A n \in 0..(o.nc - 1) : IsOne(o.l[n + 1]), "left-orthonormal")
  \cup Cl(\A n \in o.nc..N : IsOne(o.r[n + 1]), "right-orthonormal")
  \cup Cl(\A n \in 0..(o.nc - 1) : IsDiag(o.r[n + 1]) /\ IsPos(o.r[n + 1]), "right-diagonal")
  \cup Cl(\A n \in o.nc..N : IsDiag(o.l[n + 1]) /\ IsPos(o.l[n + 1]), "left-diagonal")

\* ---- observables of the infinite state (for the tensors as they are: not divided by the norm)
RECURSIVE JoinW(_, _, _)
JoinW(o, a, b) == IF a = b THEN SiteW(o, a) ELSE TJoin(JoinW(o, a, b - 1), SiteW(o, b))
ExW(o, op, n, m) == LET T == TLCEval(JoinW(o, n, n + m - 1)) IN MDot(LeftW(o, n - 1), EpsR(RightW(o, n + m - 1), TOp(op, T), T))
RECURSIVE CarryW(_, _, _, _)
CarryW(o, x, a, b) == IF a > b THEN x ELSE CarryW(o, EpsL(x, SiteW(o, a), SiteW(o, a)), a + 1, b)
PairW(o, op1, op2, n, d) ==
  IF d = 0 THEN ExW(o, MMul(op1, op2), n, 1)
  ELSE LET T == SiteW(o, n)  U == SiteW(o, n + d)
           x == CarryW(o, EpsL(LeftW(o, n - 1), TOp(op1, T), T), n + 1, n + d - 1) IN
       MDot(x, EpsR(RightW(o, n + d), TOp(op2, U), U))
RECURSIVE StringRW(_, _, _, _)
StringRW(o, op, n, d) == IF d = 0 THEN RightW(o, n - 1) ELSE EpsR(StringRW(o, op, n + 1, d - 1), TOp(op, SiteW(o, n)), SiteW(o, n))
StringW(o, op, n, d) == MDot(LeftW(o, n - 1), StringRW(o, op, n, d))
RhoW(o, n, m) == TLCEval(LET T == JoinW(o, n, n + m - 1) IN
  [s \in 1..Len(T) |-> [t \in 1..Len(T) |-> MDot(LeftW(o, n - 1), MMul(T[s], MMul(RightW(o, n + m - 1), MAdj(T[t]))))]])
\* reduced density matrix of two sites a < b
RhoPairW(o, a, b) == TLCEval(
  LET q == o.ul.q  T == SiteW(o, a)  U == SiteW(o, b)  l == LeftW(o, a - 1)  r == RightW(o, b)
      X == [s \in 1..q |-> [t \in 1..q |-> CarryW(o, MMul(MAdj(T[t]), MMul(l, T[s])), a + 1, b - 1)]]
      Y == [s \in 1..q |-> [t \in 1..q |-> MMul(U[s], MMul(r, MAdj(U[t])))]]
      F(p, k) == IF k = 1 THEN ((p - 1) \div q) + 1 ELSE ((p - 1) % q) + 1 IN
  [p \in 1..(q * q) |-> [w \in 1..(q * q) |-> MTrace(MMul(X[F(p, 1)][F(w, 1)], Y[F(p, 2)][F(w, 2)]))]])
\* MPO on sites n..
RECURSIVE MpoW(_, _, _, _)
MpoW(o, W, n, j) ==      \* list of matrices to the left of the j-th factor
  IF j > Len(W) THEN <<RightW(o, n + Len(W) - 1)>>
  ELSE LET X == MpoW(o, W, n, j + 1)  T == SiteW(o, n + j - 1) IN
       TLCEval([a \in 1..Len(W[j]) |-> MSum([b \in 1..Len(W[j][1]) |-> EpsR(X[b], TOp(W[j][a][b], T), T)])])
ExMpoW(o, W, n) == MDot(LeftW(o, n - 1), MpoW(o, W, n, 1)[1])

\* ---- the same infinite state, its sites off places further to the right in o than in p
Normed(x, M) == MScale(CR(RDiv(ONE, Max2(x[1], ONE \div 64))), M)
SameW(p, o, off) ==
  LET N == WN(o)  np == NormW(p)  no == NormW(o)
      lo == Min2(0, off) - 1  hi == Max2(N, WN(p) + off) + 1
      far(a, b) == CloseMT(Normed(no, RhoPairW(o, a, b)), Normed(np, RhoPairW(p, a - off, b - off)), TOLV) IN
  /\ \A n \in lo..hi : CloseMT(Normed(no, RhoW(o, n, 2)), Normed(np, RhoW(p, n - off, 2)), TOLV)
  /\ far(lo, hi + 1) /\ far(0, N + 1)
  /\ (N > 2 => far(1, N))

\* ---- overlap of two windows of the same length whose chains stand for the same states, up to a phase
ColOf(P) == LET C == MAdj(P)  b == MMax(P)
                 j == CHOOSE j \in 1..Len(C) : \E k \in 1..Len(C[j]) : Max2(Abs(C[j][k][1]), Abs(C[j][k][2])) = b IN MAdj(<<C[j]>>)
MixP(A, B) == SquaredN(TLCEval(Scaled(EAcc([k \in 1..Len(A) |-> Sized(A[k])], [k \in 1..Len(B) |-> Sized(B[k])], Len(A)))), 7)
RECURSIVE MixR(_, _, _, _)
MixR(o, p, x, n) == IF n = 0 THEN x ELSE MixR(o, p, EpsR(x, o.A[n], p.A[n]), n - 1)
\* |<p|o>|^2 * fac
OverlapW(o, p) ==
  LET PL == MixP(o.ul.A, p.ul.A)  PR == MixP(o.ur.A, p.ur.A)
      y == UnCol(Scaled(ColOf(PR)), o.ur.D, p.ur.D)               \* E(A, B) y = w y
      x == UnCol(Scaled(ColOf(MAdj(PL))), o.ul.D, p.ul.D)         \* E(A, B)^+ x = w* x
      lo == o.ul.l[o.ul.L]  ro == o.ul.r[o.ul.L]  lp == p.ul.l[p.ul.L]  rp == p.ul.r[p.ul.L]
      l2 == o.ur.l[o.ur.L]  r2 == o.ur.r[o.ur.L]  m2 == p.ur.l[p.ur.L]  s2 == p.ur.r[p.ur.L]
      cx == MTrace(MMul(MMul(x, rp), MMul(MAdj(x), ro)))[1]
      nx == MTrace(MMul(MMul(lo, ro), MMul(lo, ro)))[1]
      cy == MTrace(MMul(MMul(y, m2), MMul(MAdj(y), l2)))[1]
      ny == MTrace(MMul(MMul(r2, l2), MMul(r2, l2)))[1]
      z == MDot(x, MixR(o, p, y, WN(o))) IN
  [z2 |-> CAbs2(z), num |-> RMul(nx, ny), den |-> RMul(cx, cy)]
OverlapOk(o, p, w) == LET v == OverlapW(o, p) IN
  Abs(RMul(CAbs2(w), v.den) - RMul(v.z2, v.num)) <= 512 + (v.den \div 4096)
=============================================================================
