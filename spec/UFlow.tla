-------------------------------- MODULE UFlow --------------------------------
(***************************************************************************)
(* A uniform chain with a local Hamiltonian: one term h on m neighbouring  *)
(* sites, translated to every site.  Energy environments, the direction of *)
(* evolution in the tangent space, and its growth through two-site blocks. *)
(***************************************************************************)
EXTENDS Uniform

RECURSIVE SumRe(_, _)
SumRe(s, n) == IF n = 0 THEN 0 ELSE RAdd(SumRe(s, n - 1), s[n][1])

\* ---- the energy
Win(o, j, m) == TLCEval(JoinN(o.A, j, j + m - 1))
\* the term on sites k..k+m-1 seen from the left / ending at k seen from the right
HRr(o, h, m, k) == LET T == Win(o, k, m) IN EpsR(At(o.r, k + m - 1), TOp(h, T), T)
HLl(o, h, m, k) == LET T == Win(o, k - m + 1, m) IN EpsL(At(o.l, k - m), T, TOp(h, T))
TermE(o, h, m, k) == MDot(At(o.l, k - 1), HRr(o, h, m, k))
RECURSIVE BlockE(_, _, _, _)
BlockE(o, h, m, k) == IF k = 0 THEN CZ ELSE CAdd(BlockE(o, h, m, k - 1), TermE(o, h, m, k))
\* energy per site
Density(o, h, m) == LET e == BlockE(o, h, m, o.L) IN <<e[1] \div o.L, e[2] \div o.L>>

\* K[k]: all terms from site k on, relative to their expectation values; the constant is fixed at the block's edge
KRightU(o, h, m) ==
  /\ \A k \in 1..o.L :
       LET hr == HRr(o, h, m, k)  e == MDot(At(o.l, k - 1), hr) IN
       CloseM(o.K[k], MSub(MAdd(EpsR(At(o.K, k + 1), o.A[k], o.A[k]), hr), MScale(e, At(o.r, k - 1))))
  /\ CDist(MDot(o.l[o.L], o.K[1]), CZ) <= 1024
KLeftU(o, KL, h, m) ==
  /\ Len(KL) = o.L
  /\ \A k \in 1..o.L :
       LET e == TermE(o, h, m, k - m + 1) IN
       CloseM(KL[k], MSub(MAdd(EpsL(At(KL, k - 1), o.A[k], o.A[k]), HLl(o, h, m, k)), MScale(e, o.l[k])))
  /\ CDist(MTrace(MMul(KL[o.L], o.r[o.L])), CZ) <= 1024
KShapes(o) == Len(o.K) = o.L /\ \A k \in 1..o.L : Rows(o.K[k]) = o.D /\ Cols(o.K[k]) = o.D
EnergyU(o, h, m) ==
  IF ~KShapes(o) THEN {"energy-environment-shapes"}
  ELSE Cl(KRightU(o, h, m), "energy-environments") \cup Cl(CloseC(o.he, Density(o, h, m)), "energy-density")

\* ---- the direction of evolution
\* gradient with respect to the conjugate of sites k..k+w-1 of the term on sites j..j+m-1
GradWin(o, h, m, j, k, w) == TLCEval(
  LET T == Win(o, j, m)  C == TOp(h, T)  nw == PowI(o.q, w)
      na == PowI(o.q, k - j)  nb == PowI(o.q, j + m - k - w)
      La == IF k = j THEN <<MEye(o.D)>> ELSE JoinN(o.A, j, k - 1)
      Rb == IF k + w = j + m THEN <<MEye(o.D)>> ELSE JoinN(o.A, k + w, j + m - 1)
      l == At(o.l, j - 1)  r == At(o.r, j + m - 1) IN
  [s \in 1..nw |-> MSum([x \in 1..(na * nb) |->
     LET a == ((x - 1) \div nb) + 1  b == ((x - 1) % nb) + 1 IN
     MMul(MAdj(La[a]), MMul(MMul(l, C[((a - 1) * nw + (s - 1)) * nb + b]), MMul(r, MAdj(Rb[b]))))])])
TSum(S) == LET n == Len(S) IN [s \in 1..Len(S[1]) |-> MSum([j \in 1..n |-> S[j][s]])]
\* what the Hamiltonian does to site k, seen by variations that leave the right part of the chain orthogonal
Force(o, h, m, k) == TLCEval(TSum(
  <<TMulL(At(o.l, k - 1), TMulR(o.A[k], At(o.K, k + 1)))>> \o [p \in 1..m |-> GradWin(o, h, m, k - p + 1, k, 1)]))
GaugeB(o, B, t) == \A k \in 1..o.L : MMax(EpsR(o.r[k], B[k], o.A[k])) <= t
\* l B r - F is normal to the variations allowed by the gauge: X A r for some X (the witness)
NormalB(o, B, h, m, X, t) == \A k \in 1..o.L :
  CloseTT(TSub(TMulL(At(o.l, k - 1), TMulR(B[k], o.r[k])), Force(o, h, m, k)),
          TMulL(X[k], TMulR(o.A[k], o.r[k])), t)
ShapesBU(o, B) == Len(B) = o.L /\ \A k \in 1..o.L :
  Len(B[k]) = o.q /\ \A s \in 1..o.q : Rows(B[k][s]) = o.D /\ Cols(B[k][s]) = o.D
DirectionU(o, B, h, m, X, t) ==
  IF ~ShapesBU(o, B) THEN {"direction-shapes"}
  ELSE Cl(GaugeB(o, B, t), "gauge") \cup (IF X = <<>> THEN {} ELSE Cl(NormalB(o, B, h, m, X, t), "not-the-projection"))
\* norm of a direction satisfying the gauge condition
SiteNorm(o, B, k) == MTrace(MMul(EpsL(At(o.l, k - 1), B[k], B[k]), o.r[k]))[1]
RECURSIVE NormB(_, _, _)
NormB(o, B, k) == IF k = 0 THEN 0 ELSE RAdd(NormB(o, B, k - 1), SiteNorm(o, B, k))
EtasU(o, B, sq, eta) ==
  Cl(\A k \in 1..o.L : CDist(sq[k], CR(SiteNorm(o, B, k))) <= 1024 + (Abs(sq[k][1]) \div 2048), "site-norms")
  \cup Cl(LET n == NormB(o, B, o.L) IN Abs(RMul(eta[1], eta[1]) - n) <= 1024 + (n \div 2048)
          /\ Abs(eta[2]) <= 256 /\ eta[1] >= -256, "norm")

\* ---- growth through two-site blocks
BlockU(T, r1, r2, c1, c2) == [s \in 1..Len(T) |->
  [a \in 1..(r2 - r1 + 1) |-> [b \in 1..(c2 - c1 + 1) |-> T[s][r1 + a - 1][c1 + b - 1]]]]
\* corner of the old tensors, two-site tensors, in units of f
CoreU(o, o2) == [k \in 1..o.L |-> BlockU(o2.A[k], 1, o.D, 1, o.D)]
PairU2(o, o2, k, f) == TLCEval(TScale(f, TJoin(BlockU(o2.A[k], 1, o.D, o.D + 1, o2.D),
                                              BlockU(At(o2.A, k + 1), o.D + 1, o2.D, 1, o.D))))
CornersU(o, o2) == o2.D = o.D \/ \A k \in 1..o.L : \A s \in 1..o.q :
  MMax(BlockU(o2.A[k], o.D + 1, o2.D, o.D + 1, o2.D)[s]) <= 2
PairGaugeU(o, T, k, t) ==
  LET q == o.q  A == o.A[k]  A2 == At(o.A, k + 1)  l == At(o.l, k - 1)  r == At(o.r, k + 1) IN
  /\ \A u \in 1..q : MMax(MSum([s \in 1..q |-> MMul(MAdj(A[s]), MMul(l, T[(s - 1) * q + u]))])) <= t
  /\ \A s \in 1..q : MMax(MSum([u \in 1..q |-> MMul(T[(s - 1) * q + u], MMul(r, MAdj(A2[u])))])) <= t
Force2(o, h, m, k) == TLCEval(TSum([p \in 1..(m - 1) |-> GradWin(o, h, m, k - p + 1, k, 2)]))
\* l T r - F2 = l A Y + Z A r with witnesses Y, Z
PairNormal(o, T, h, m, k, Y, Z, t) ==
  LET q == o.q  A == o.A[k]  A2 == At(o.A, k + 1)  l == At(o.l, k - 1)  r == At(o.r, k + 1)  F == Force2(o, h, m, k) IN
  \A s \in 1..q : \A u \in 1..q :
    MDist(MSub(MMul(l, MMul(T[(s - 1) * q + u], r)), F[(s - 1) * q + u]),
          MAdd(MMul(MMul(l, A[s]), Y[u]), MMul(Z[s], MMul(A2[u], r)))) <= t
\* tr (l T r T^+)^j  over the left block index (site k, bond k-1): the squared singular values of T
PairRho(o, T, k) == TLCEval(
  LET q == o.q  D == o.D  l == At(o.l, k - 1)  r == At(o.r, k + 1)
      G(s, t) == MMul(l, MSum([u \in 1..q |-> MMul(T[(s - 1) * q + u], MMul(r, MAdj(T[(t - 1) * q + u])))])) IN
  LET g == TLCEval([s \in 1..q |-> [t \in 1..q |-> G(s, t)]]) IN
  [x \in 1..(q * D) |-> [y \in 1..(q * D) |-> g[((x - 1) \div D) + 1][((y - 1) \div D) + 1][((x - 1) % D) + 1][((y - 1) % D) + 1]]])
PairDot(o, T, U, k) == LET l == At(o.l, k - 1)  r == At(o.r, k + 1) IN
  MTrace(MSum([x \in 1..Len(T) |-> MMul(MAdj(T[x]), MMul(l, MMul(U[x], r)))]))

\* ---- (pseudo-) inverses of 1 - exp(ip) E
\* y - ph (E y - pseudo r (l|y)) = x
RECURSIVE CarryR(_, _, _, _)
CarryR(A, B, x, k) == IF k = 0 THEN x ELSE CarryR(A, B, EpsR(x, At(A, k), At(B, k)), k - 1)
RECURSIVE CarryL2(_, _, _, _, _)
CarryL2(A, B, x, k, n) == IF k > n THEN x ELSE CarryL2(A, B, EpsL(x, At(A, k), At(B, k)), k + 1, n)
PinvOk(o, A, B, x, y, ph, left, pseudo) ==
  LET n == Len(A)
      Ey == IF left = 1 THEN CarryL2(A, B, y, 1, n) ELSE CarryR(A, B, y, n)
      off == IF pseudo = 0 THEN MZero(o.D, o.D)
             ELSE IF left = 1 THEN MScale(MDot(o.r[o.L], y), o.l[o.L]) ELSE MScale(MDot(o.l[o.L], y), o.r[o.L])
      f == IF left = 1 THEN CConj(ph) ELSE ph IN
  MDist(MSub(y, MScale(f, MSub(Ey, off))), x) <= 1024 + (MMax(y) \div 512)
PinvMat(o, A, B, M, ph, pseudo) ==
  LET E == EAcc(A, B, Len(A))
      Q == IF pseudo = 0 THEN E ELSE MSub(E, MMul(Col(Flat(o.r[o.L])), MAdj(Col(Flat(o.l[o.L])))))
      n == o.D * o.D IN
  CloseMT(MMul(M, MSub(MEye(n), MScale(ph, Q))), MEye(n), 4096 + (MMax(M) \div 256))
=============================================================================
