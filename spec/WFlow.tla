-------------------------------- MODULE WFlow --------------------------------
(***************************************************************************)
(* A window between two uniform chains under a Hamiltonian of local terms  *)
(* on m sites.                                                             *)
(*   H[n + m - 1]  the term on sites n..n+m-1, for n in 2-m..N: all terms  *)
(*                 that touch the window or join it to its chains          *)
(*   hl, hr        the terms of the chains                                 *)
(* Energies are counted relative to those of the left chain.               *)
(***************************************************************************)
EXTENDS Window, UFlow

TermW(H, m, n) == H[n + m - 1]
TMaxN(T) == MMax([s \in 1..Len(T) |-> <<CR(MMax(T[s]))>>])
HRw(o, H, m, n) == TLCEval(LET T == TLCEval(JoinW(o, n, n + m - 1)) IN EpsR(RightW(o, n + m - 1), TOp(TermW(H, m, n), T), T))
HLw(o, H, m, n) == TLCEval(LET T == TLCEval(JoinW(o, n, n + m - 1)) IN EpsL(LeftW(o, n - 1), T, TOp(TermW(H, m, n), T)))
TermEw(o, H, m, n) == MDot(LeftW(o, n - 1), HRw(o, H, m, n))

\* energy of everything to the left of a bond (terms that end at or before site n), and from site n on to the right
RECURSIVE KLw(_, _, _, _)
KLw(o, H, m, n) == TLCEval(IF n = 0 THEN o.KUL[o.ul.L] ELSE MAdd(EpsL(KLw(o, H, m, n - 1), o.A[n], o.A[n]), HLw(o, H, m, n - m + 1)))
RECURSIVE KRw(_, _, _, _)
KRw(o, H, m, n) == TLCEval(IF n = WN(o) + 1 THEN o.KUR[1] ELSE MAdd(EpsR(KRw(o, H, m, n + 1), o.A[n], o.A[n]), HRw(o, H, m, n)))

RECURSIVE SumTerms(_, _, _, _)
SumTerms(o, H, m, n) == IF n < 2 - m THEN CZ ELSE CAdd(SumTerms(o, H, m, n - 1), TermEw(o, H, m, n))
\* what the terms would have if the left chain went on
RefTerm(o, hl, m, n) == TermE(o.ul, hl, m, ((n - 1) % o.ul.L) + 1)
RECURSIVE RefTerms(_, _, _, _)
RefTerms(o, hl, m, n) == IF n < 2 - m THEN CZ ELSE CAdd(RefTerms(o, hl, m, n - 1), RefTerm(o, hl, m, n))
Excess(o, H, hl, m) ==
  CAdd(CAdd(SumTerms(o, H, m, WN(o)), MTrace(MMul(o.KUL[o.ul.L], RightW(o, 0)))),
       CSub(MDot(LeftW(o, WN(o)), o.KUR[1]), RefTerms(o, hl, m, WN(o))))

UKShapes(u, K) == Len(K) = u.L /\ \A k \in 1..u.L : Rows(K[k]) = u.D /\ Cols(K[k]) = u.D
EnergyW(o, H, hl, hr, m) ==
  LET N == WN(o) IN
  IF ~UKShapes(o.ul, o.KUL) \/ ~UKShapes(o.ur, o.KUR) THEN {"energy-environment-shapes"}
  ELSE Cl(KLeftU(o.ul, o.KUL, hl, m), "left-bulk-energy") \cup Cl(KRightU(o.ur @@ [K |-> o.KUR], hr, m), "right-bulk-energy")
  \cup Cl(\A n \in 0..o.nc : CloseM(o.Kl[n + 1], KLw(o, H, m, n)), "left-energy-environments")
  \cup Cl(\A n \in Max2(1, o.nc - m + 2)..(N + 1) : CloseM(o.K[n + 1], KRw(o, H, m, n)), "right-energy-environments")
  \cup Cl(\A n \in 0..N : CloseC(o.he[n + 1], TermEw(o, H, m, n)), "term-energies")
  \cup Cl(CDist(o.dH, Excess(o, H, hl, m)) <= 1024 + (Abs(o.dH[1]) \div 4096), "excess-energy")

\* ---- direction of evolution
\* gradient with respect to the conjugate of sites k..k+w-1 of the term on sites j..j+m-1
DimW(o, n) == IF n <= 0 THEN o.ul.D ELSE IF n > WN(o) THEN o.ur.D ELSE o.D[n + 1]
GradW(o, H, m, j, k, w) == TLCEval(
  LET C == TOp(TermW(H, m, j), TLCEval(JoinW(o, j, j + m - 1)))  q == o.ul.q  nw == PowI(q, w)
      na == PowI(q, k - j)  nb == PowI(q, j + m - k - w)
      La == IF k = j THEN <<MEye(DimW(o, k - 1))>> ELSE TLCEval(JoinW(o, j, k - 1))
      Rb == IF k + w = j + m THEN <<MEye(DimW(o, k + w - 1))>> ELSE TLCEval(JoinW(o, k + w, j + m - 1))
      l == LeftW(o, j - 1)  r == RightW(o, j + m - 1) IN
  [s \in 1..nw |-> MSum([x \in 1..(na * nb) |->
     LET a == ((x - 1) \div nb) + 1  b == ((x - 1) % nb) + 1 IN
     MMul(MAdj(La[a]), MMul(MMul(l, C[((a - 1) * nw + (s - 1)) * nb + b]), MMul(r, MAdj(Rb[b]))))])])
Framed(o, B, k) == TMulL(LeftW(o, k - 1), TMulR(B, RightW(o, k)))
ForceW(o, H, m, k) == TLCEval(TSum(
  <<TMulL(LeftW(o, k - 1), TMulR(o.A[k], KRw(o, H, m, k + 1))), TMulL(KLw(o, H, m, k - 1), TMulR(o.A[k], RightW(o, k)))>>
  \o [p \in 1..m |-> GradW(o, H, m, k - p + 1, k, 1)]))
Force2W(o, H, m, k) == TLCEval(TSum([p \in 1..(m - 1) |-> GradW(o, H, m, k - p + 1, k, 2)]))

\* witnesses: NL[k] spans what is orthogonal to site k from the left, NR[k] from the right
NullL(o, k) == o.ul.q * DimW(o, k - 1) - DimW(o, k)
NullR(o, k) == o.ul.q * DimW(o, k) - DimW(o, k - 1)
NLok(o, V, k) == IF NullL(o, k) = 0 THEN V = <<>> ELSE
  /\ Len(V) = o.ul.q /\ Cols(V[1]) = NullL(o, k)
  /\ CloseMT(MSum([s \in 1..Len(V) |-> MMul(MAdj(V[s]), V[s])]), MEye(NullL(o, k)), 64)
  /\ MMax(MSum([s \in 1..Len(V) |-> MMul(MAdj(o.A[k][s]), MMul(LeftW(o, k - 1), V[s]))])) <= 2048
NRok(o, V, k) == IF NullR(o, k) = 0 THEN V = <<>> ELSE
  /\ Len(V) = o.ul.q /\ Rows(V[1]) = NullR(o, k)
  /\ CloseMT(MSum([s \in 1..Len(V) |-> MMul(V[s], MAdj(V[s]))]), MEye(NullR(o, k)), 64)
  /\ MMax(MSum([s \in 1..Len(V) |-> MMul(V[s], MMul(RightW(o, k), MAdj(o.A[k][s])))])) <= 2048
ConL(V, F) == MSum([s \in 1..Len(V) |-> MMul(MAdj(V[s]), F[s])])
ConR(F, V) == MSum([s \in 1..Len(V) |-> MMul(F[s], MAdj(V[s]))])
TDotW(A, B) == MTrace(MSum([s \in 1..Len(A) |-> MMul(MAdj(A[s]), B[s])]))
CDiv(a, b) == LET z == CMul(a, CConj(b))  d == CAbs2(b) IN <<RDiv(z[1], d), RDiv(z[2], d)>>
ShapeBW(o, b, k) == b = <<>> \/ (Len(b) = o.ul.q /\ \A s \in 1..Len(b) : Rows(b[s]) = o.D[k] /\ Cols(b[s]) = o.D[k + 1])
\* one site: left of the centre orthogonal to it from the left, right of it from the right, at the centre
\* anything but the state itself (exact: the norm is kept; stages of a step may only change its norm)
DirSite(o, b, H, m, k, NL, NR, exact, t) ==
  IF ~ShapeBW(o, b, k) THEN {"direction-shapes"}
  ELSE IF k < o.nc THEN
    IF NullL(o, k) = 0 THEN Cl(b = <<>> \/ TMaxN(b) <= t, "direction-not-zero")
    ELSE IF b = <<>> THEN {"direction-missing"}
    ELSE Cl(MMax(EpsL(LeftW(o, k - 1), b, o.A[k])) <= t, "gauge")
         \cup Cl(NLok(o, NL[k], k), "witness")
         \cup Cl(MMax(ConL(NL[k], TSub(Framed(o, b, k), ForceW(o, H, m, k)))) <= t, "not-the-projection")
  ELSE IF k > o.nc THEN
    IF NullR(o, k) = 0 THEN Cl(b = <<>> \/ TMaxN(b) <= t, "direction-not-zero")
    ELSE IF b = <<>> THEN {"direction-missing"}
    ELSE Cl(MMax(EpsR(RightW(o, k), b, o.A[k])) <= t, "gauge")
         \cup Cl(NRok(o, NR[k], k), "witness")
         \cup Cl(MMax(ConR(TSub(Framed(o, b, k), ForceW(o, H, m, k)), NR[k])) <= t, "not-the-projection")
  ELSE IF b = <<>> THEN {"direction-missing"}
  ELSE LET z == TSub(ForceW(o, H, m, k), Framed(o, b, k))  a == Framed(o, o.A[k], k)
           c == CDiv(TDotW(o.A[k], z), NormW(o)) IN
       Cl(TMaxN(TSub(z, TScale(c, a))) <= t, "not-the-projection")
       \cup (IF exact = 1 THEN Cl(CDist(TDotW(o.A[k], Framed(o, b, k)), CZ) <= t, "norm-not-kept") ELSE {})
DirectionW(o, B, H, m, NL, NR, exact, t) ==
  IF Len(B) # WN(o) THEN {"direction-shapes"} ELSE UNION {DirSite(o, B[k], H, m, k, NL, NR, exact, t) : k \in 1..WN(o)}
NormBW(o, b, k) == IF b = <<>> THEN 0 ELSE TDotW(b, Framed(o, b, k))[1]
EtasW(o, B, sq, eta) ==
  LET N == WN(o)  nn == [k \in 1..N |-> CR(NormBW(o, B[k], k))]  t == SumRe(nn, N) IN
  Cl(Len(sq) = N /\ \A k \in 1..N : CDist(sq[k], nn[k]) <= 1024 + (Abs(sq[k][1]) \div 2048), "site-norms")
  \cup Cl(Abs(RMul(eta[1], eta[1]) - t) <= 1024 + (t \div 2048) /\ Abs(eta[2]) <= 256 /\ eta[1] >= -256, "norm")

\* ---- growth: bonds inside of the window gain two-site parts
CoreW(o, o2) == [k \in 1..WN(o) |-> BlockU(o2.A[k], 1, o.D[k], 1, o.D[k + 1])]
Grown(o, o2, n) == o2.D[n + 1] > o.D[n + 1]
PairTen(o, o2, k, f) == TLCEval(IF ~Grown(o, o2, k) THEN <<>> ELSE
  TScale(f, TJoin(BlockU(o2.A[k], 1, o.D[k], o.D[k + 1] + 1, o2.D[k + 1]), BlockU(o2.A[k + 1], o.D[k + 1] + 1, o2.D[k + 1], 1, o.D[k + 2]))))
CornersW(o, o2) == \A k \in 1..WN(o) :
  (o2.D[k] > o.D[k] /\ o2.D[k + 1] > o.D[k + 1]) =>
    \A s \in 1..o.ul.q : MMax(BlockU(o2.A[k], o.D[k] + 1, o2.D[k], o.D[k + 1] + 1, o2.D[k + 1])[s]) <= 2
PairDotW(o, T, U, k) == LET l == LeftW(o, k - 1)  r == RightW(o, k + 1) IN
  MTrace(MSum([x \in 1..Len(T) |-> MMul(MAdj(T[x]), MMul(l, MMul(U[x], r)))]))
PairRhoW(o, T, k) == TLCEval(
  LET q == o.ul.q  D == o.D[k]  l == LeftW(o, k - 1)  r == RightW(o, k + 1)
      g == TLCEval([s \in 1..q |-> [t \in 1..q |->
             MMul(l, MSum([u \in 1..q |-> MMul(T[(s - 1) * q + u], MMul(r, MAdj(T[(t - 1) * q + u])))]))]]) IN
  [x \in 1..(q * D) |-> [y \in 1..(q * D) |-> g[((x - 1) \div D) + 1][((y - 1) \div D) + 1][((x - 1) % D) + 1][((y - 1) % D) + 1]]])
PairGaugeW(o, T, k, t) ==
  LET q == o.ul.q  l == LeftW(o, k - 1)  r == RightW(o, k + 1) IN
  /\ \A u \in 1..q : MMax(MSum([s \in 1..q |-> MMul(MAdj(o.A[k][s]), MMul(l, T[(s - 1) * q + u]))])) <= t
  /\ \A s \in 1..q : MMax(MSum([u \in 1..q |-> MMul(T[(s - 1) * q + u], MMul(r, MAdj(o.A[k + 1][u])))])) <= t
\* the whole of what the Hamiltonian does to two neighbours at once (T = <<>>: nothing)
PairWhole(o, T, H, m, k, NL, NR, t) ==
  LET q == o.ul.q  l == LeftW(o, k - 1)  r == RightW(o, k + 1)  F == Force2W(o, H, m, k) IN
  NullL(o, k) = 0 \/ NullR(o, k + 1) = 0 \/
  LET Z == [x \in 1..(q * q) |-> IF T = <<>> THEN MScale(<<-ONE, 0>>, F[x]) ELSE MSub(MMul(l, MMul(T[x], r)), F[x])] IN
  MMax(MSum([x \in 1..(q * q) |-> LET s == ((x - 1) \div q) + 1  u == ((x - 1) % q) + 1 IN
       MMul(MAdj(NL[k][s]), MMul(Z[x], MAdj(NR[k + 1][u])))])) <= t
=============================================================================
