----------------------------- MODULE FlowTrace ------------------------------
(***************************************************************************)
(* A finite chain evolving under a Hamiltonian H = sum of local terms      *)
(* (P09 - P12).       State: the tensors, the vector psi they stand for and *)
(* the Hamiltonian.  The direction of evolution is specified by its        *)
(* variational characterisation: with e = <H>/<1>,                         *)
(*     Phi(B) - (H - e) psi   is orthogonal to every tangent vector,       *)
(* i.e. its gradient with respect to each tensor vanishes, together with   *)
(* the gauge condition that makes the parameters B unique.                 *)
(***************************************************************************)
EXTENDS Sweep
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i, st

Ham(v) == HamV(st.h, st.k, v, st.o.q)
HOf(p, o) == HamV(st.h, st.k, p, o.q)

\* ---- energies and the environments of the Hamiltonian
Terms(o) == 1..(Len(o.A) - st.k + 1)
\* the sum of the terms within sites a..b, on block vectors (rows of X are states of sites a..b)
RECURSIVE BlockH(_, _, _, _, _)
BlockH(x, qs, a, b, n) ==
  IF n < a THEN VZero(Len(x))
  ELSE LET rest == BlockH(x, qs, a, b, n - 1) IN
       IF n + st.k - 1 > b \/ n > Len(st.h) \/ st.h[n] = <<>> THEN rest
       ELSE VAdd(rest, OpAt(st.h[n], x, Prod(qs, a, n - 1), Prod(qs, n + st.k, b)))
KRight(o, n) == LET N == Len(o.A)  R == RightMat(o.A, n) IN
  TLCEval(MMul([a \in 1..Rows(R) |-> BlockH(R[a], o.q, n, N, N)], MAdj(R)))
KLeft(o, n) == LET L == MTr(LeftMat(o.A, n)) IN
  TLCEval(MMul(MConj(L), MTr([a \in 1..Rows(L) |-> BlockH(L[a], o.q, 1, n, n)])))
Energies(o, p, gf) ==
  Cl(CloseC(o.H, VDot(p, HOf(p, o))), "energy")
  \cup Cl(\A n \in Terms(o) : st.h[n] = <<>> \/ CloseC(o.h[n], Ev(st.h[n], p, o.q, n, n + st.k - 1)), "local-energies")
  \cup Cl(\A n \in 1..Len(o.A) : CloseM(o.K[n], IF gf = "right" THEN KRight(o, n) ELSE KLeft(o, n)), "energy-environments")

Fresh(o, p, e) ==
  Stored(o, TRUE, TRUE) \cup (IF Has(o, "K") THEN Energies(o, p, e.gf) ELSE {}) \cup (IF e.restore = 1 THEN Canon(o, e.cf, 1) ELSE {})

\* ---- directions
TOLB(s) == 2048 * s
Small(T, t) == \A s \in 1..Len(T) : MMax(T[s]) <= t
\* residual of the projection with direction B at tensors A; X is the target vector
Residual(A, B, X) == VSub(Tangent(A, B), X)
Target(A, h, kk, qs) == LET p == Psi(A)  hp == HamV(h, kk, p, qs)
                            e == RDiv(VDot(p, hp)[1], VNorm2(p)) IN TLCEval(VSub(hp, VScale(CR(e), p)))
GaugeOk(A, B, gf, t) ==
  \A n \in 1..Len(A) : B[n] = <<>> \/
    MMax(IF gf = "right" THEN EpsR(REnv(A, n), B[n], A[n]) ELSE EpsL(LEnv(A, n - 1), A[n], B[n])) <= t
NormalOk(A, B, X, t) == LET r == TLCEval(Residual(A, B, X)) IN \A n \in 1..Len(A) : Small(Grad(A, r, n), t)
\* where a direction may be missing: the gauge leaves it no freedom
MayMiss(o, n, gf) == IF gf = "right" THEN o.q[n] * o.D[n + 1] <= o.D[n] ELSE o.q[n] * o.D[n] <= o.D[n + 1]
ShapesB(o, B, gf) ==
  Len(B) = Len(o.A) /\ \A n \in 1..Len(B) :
    IF B[n] = <<>> THEN MayMiss(o, n, gf)
    ELSE Len(B[n]) = o.q[n] /\ TRows(B[n]) = o.D[n] /\ TCols(B[n]) = o.D[n + 1]
TMaxN(T) == MMax([s \in 1..Len(T) |-> <<CR(MMax(T[s]))>>])
\* wc = 1: the state is well conditioned, so that B is determined to the precision of the numbers
Direction(o, B, gf, X, wc, sc) ==
  IF ~ShapesB(o, B, gf) THEN {"direction-shapes"}
  ELSE IF wc = 1 THEN Cl(GaugeOk(o.A, B, gf, TOLB(sc)), "gauge") \cup Cl(NormalOk(o.A, B, X, TOLB(sc)), "not-the-projection")
  ELSE IF wc = -1 THEN {}
  ELSE \* directions the state does not feel are not determined; the vector is
       LET T == Tangent(o.A, B) IN
       Cl(\A n \in 1..Len(B) : B[n] = <<>> \/ TMaxN(B[n]) < 64 * ONE, "direction-unbounded")
       \cup Cl(NormalOk(o.A, B, X, 4 * TOLB(sc)), "not-the-projection")
RECURSIVE SumR(_, _)
SumR(s, n) == IF n = 0 THEN 0 ELSE RAdd(SumR(s, n - 1), s[n][1])
Etas(o, B, e) ==
  Cl(\A n \in 1..Len(B) : (e.set = 2 /\ B[n] = <<>>) \/ CloseC(e.etasq[n], IF B[n] = <<>> THEN CZ ELSE CR(VNorm2(PsiWith(o.A, n, B[n])))), "site-norms")
  \cup (IF e.set = 2 THEN {} ELSE Cl(Abs(RMul(e.eta[1], e.eta[1]) - SumR(e.etasq, Len(B))) <= 1024 + (SumR(e.etasq, Len(B)) \div 2048)
          /\ Abs(e.eta[2]) <= 256 /\ e.eta[1] >= -256, "norm"))

\* ---- transitions
NormClause(e, p) == Cl(IF e.norm = 1 THEN Unit(p) ELSE SameNorm(st.psi, p), "norm")
CSubs(A, A2, dtau) ==    \* (A - A2) / dtau, dtau = <<re, im>>
  LET d2 == CAbs2(dtau)  f == <<RDiv(dtau[1], d2), RDiv(-dtau[2], d2)>> IN
  [n \in 1..Len(A) |-> TScale(f, TSub(A[n], A2[n]))]
\* an unchanged tensor is a missing direction if the gauge allows it
Implied(o, o2, dtau, gf) == TLCEval(
  LET B == CSubs(o.A, o2.A, dtau) IN
  [n \in 1..Len(B) |-> IF MayMiss(o, n, gf) /\ TDist(o.A[n], o2.A[n]) = 0 THEN <<>> ELSE B[n]])
StepTo(A, B, c) == [n \in 1..Len(A) |-> IF B[n] = <<>> THEN A[n] ELSE TSub(A[n], TScale(c, B[n]))]
JoinL(A, n) == IF n = 0 THEN <<>> ELSE JoinAll(A, 1, n)
JoinR(A, n) == IF n > Len(A) THEN <<>> ELSE JoinAll(A, n, Len(A))
TangentX(o) == Target(o.A, st.h, st.k, o.q)

\* exp(-dtau H) psi by its Taylor series
RECURSIVE ExpSeries(_, _, _, _, _)
ExpSeries(v, term, c, o, j) ==
  IF j > 24 \/ VMax(term) = 0 THEN v
  ELSE LET t == TLCEval(VScale(<<-c[1] \div j, -c[2] \div j>>, HOf(term, o))) IN
       ExpSeries(TLCEval(VAdd(v, t)), t, c, o, j + 1)
Exact(v, c, o) == ExpSeries(v, v, c, o, 1)
Complete(o) == LET N == Len(o.A) IN \A n \in 1..(N + 1) : o.D[n] = Min2(Prod(o.q, 1, n - 1), Prod(o.q, n, N))
Energy(p, o) == RDiv(VDot(p, HOf(p, o))[1], VNorm2(p))
RealTime(c) == Abs(c[1]) <= 2
ImagTime(c) == Abs(c[2]) <= 2 /\ c[1] > 0

\* ---- growth of bonds: every tensor becomes  [ A - dtau B | P ]  and the products P Q carry
\*                                             [   Q       | 0 ]
\* the part -dtau (H - e) psi that leaves the tangent space through a pair of neighbours
Block(T, r1, r2, c1, c2) == [s \in 1..Len(T) |->
  [a \in 1..(r2 - r1 + 1) |-> [b \in 1..(c2 - c1 + 1) |-> T[s][r1 + a - 1][c1 + b - 1]]]]
Grown(o, o2) == Len(o2.D) = Len(o.D) /\ \A n \in 1..Len(o.D) : o2.D[n] >= o.D[n]
Core(o, o2) == [n \in 1..Len(o.A) |-> Block(o2.A[n], 1, o.D[n], 1, o.D[n + 1])]
\* the two-site tensor at n (<<>> when the bond behind n did not grow)
Pair(o, o2, n, f) ==
  IF o2.D[n + 1] = o.D[n + 1] THEN <<>>
  ELSE TLCEval(TScale(f, TJoin(Block(o2.A[n], 1, o.D[n], o.D[n + 1] + 1, o2.D[n + 1]),
                               Block(o2.A[n + 1], o.D[n + 1] + 1, o2.D[n + 1], 1, o.D[n + 2]))))
CornersZero(o, o2) == \A n \in 1..Len(o.A) : o2.D[n] = o.D[n] \/ o2.D[n + 1] = o.D[n + 1] \/
  \A s \in 1..Len(o.A[n]) : MMax(Block(o2.A[n], o.D[n] + 1, o2.D[n], o.D[n + 1] + 1, o2.D[n + 1])[s]) <= 2
\* vector and gradient with a two-site tensor at n
PairVec(A, n, T) == TLCEval(LET L == JoinL(A, n - 1)  R == JoinR(A, n + 2)
                                U == IF n = 1 THEN T ELSE TJoin(L, T)
                                W == IF n + 1 = Len(A) THEN U ELSE TJoin(U, R) IN [k \in 1..Len(W) |-> W[k][1][1]])
PairGrad(A, v, n) == TLCEval(
  LET L == LeftMat(A, n - 1)  R == RightMat(A, n + 2)  q == Len(A[n]) * Len(A[n + 1])
      dl == Rows(L)  dr == Cols(R)
      V(s) == [a \in 1..dl |-> [b \in 1..dr |-> v[((a - 1) * q + (s - 1)) * dr + b]]] IN
  [s \in 1..q |-> MMul(MAdj(L), MMul(V(s), MAdj(R)))])
PairGauge(A, n, T, t) ==
  LET q1 == Len(A[n])  q2 == Len(A[n + 1])  l == LEnv(A, n - 1)  r == REnv(A, n + 1) IN
  /\ \A u \in 1..q2 : MMax(MSum([s \in 1..q1 |-> MMul(MAdj(A[n][s]), MMul(l, T[(s - 1) * q2 + u]))])) <= t
  /\ \A s \in 1..q1 : MMax(MSum([u \in 1..q2 |-> MMul(T[(s - 1) * q2 + u], MMul(r, MAdj(A[n + 1][u])))])) <= t
RECURSIVE PairSum(_, _, _)
PairSum(A, T, n) == IF n = 0 THEN VZero(Prod([k \in 1..Len(A) |-> Len(A[k])], 1, Len(A)))
  ELSE LET rest == PairSum(A, T, n - 1) IN IF T[n] = <<>> THEN rest ELSE VAdd(rest, PairVec(A, n, T[n]))
Minus1(dtau) == LET d2 == CAbs2(dtau) IN <<RDiv(-dtau[1], d2), RDiv(dtau[2], d2)>>
PairsOf(o, o2, dtau) == TLCEval([n \in 1..(Len(o.A) - 1) |-> Pair(o, o2, n, Minus1(dtau))])
ErrNorms(o, e, T) ==
  LET N == Len(o.A)  nn == [n \in 1..(N - 1) |-> IF T[n] = <<>> THEN 0 ELSE VNorm2(PairVec(o.A, n, T[n]))] IN
  Cl(\A n \in 1..(N - 1) : CDist(e.etaBBsq[n], CR(nn[n])) <= 4096, "pair-norms")
  \cup Cl(Abs(RMul(e.etaBB[1], e.etaBB[1]) - SumR(e.etaBBsq, N - 1)) <= 1024, "pair-norm")
\* the whole part outside the tangent space is captured
GrowFull(e, o2) ==
  LET o == st.o IN
  IF ~Grown(o, o2) THEN {"dimensions"} ELSE
  LET N == Len(o.A)  T == PairsOf(o, o2, e.dtau)
      B == Implied(o, [o2 EXCEPT !.A = Core(o, o2)], e.dtau, e.gf)
      X == TangentX(o)
      res == TLCEval(VSub(VSub(X, Tangent(o.A, B)), PairSum(o.A, T, N - 1))) IN
  Cl(CornersZero(o, o2), "corner-blocks") \cup Direction(o, B, e.gf, X, e.wc, 16)
  \cup (IF e.wc # 1 THEN {} ELSE
    Cl(\A n \in 1..(N - 1) : T[n] = <<>> \/ PairGauge(o.A, n, T[n], 16 * 2048), "pair-gauge")
    \cup Cl(\A n \in 1..(N - 1) : Small(PairGrad(o.A, res, n), 16 * 2048), "pair-not-captured")
    \cup Cl(st.k = 3 \/ VMax(res) <= 16 * 2048, "error-remains")
    \cup ErrNorms(o, e, T))
\* with limits: the largest directions, as many as allowed.  e.sv[n] lists the singular values of
\* the captured part at n; the list is checked against the invariants of the part itself
Limit(e, o, n) == Max2(0, IF e.Dmax = 0 THEN e.dDmax ELSE Min2(e.dDmax, e.Dmax - o.D[n]))
RECURSIVE TopSum(_, _)
TopSum(s, k) == IF k = 0 THEN 0 ELSE RAdd(TopSum(s, k - 1), RMul(s[k], s[k]))
GrowLim(e, o2) ==
  LET o == st.o IN
  IF ~Grown(o, o2) THEN {"dimensions"} ELSE
  LET N == Len(o.A)  T == PairsOf(o, o2, e.dtau)
      B == Implied(o, [o2 EXCEPT !.A = Core(o, o2)], e.dtau, e.gf)
      F == st.pairs
      FV(n) == IF F[n] = <<>> THEN VZero(Len(st.psi)) ELSE PairVec(o.A, n, F[n])
      TV(n) == IF T[n] = <<>> THEN VZero(Len(st.psi)) ELSE PairVec(o.A, n, T[n])
      dD == [n \in 1..(N - 1) |-> o2.D[n + 1] - o.D[n + 1]]
      sq(n) == [k \in 1..Len(e.sv[n]) |-> CR(RMul(e.sv[n][k], e.sv[n][k]))]
      Above(n, t) == Len(SelectSeq(e.sv[n], LAMBDA x : x > t)) IN
  Cl(\A n \in 1..(N - 1) : dD[n] <= Limit(e, o, n + 1), "limit")
  \cup Cl(CornersZero(o, o2), "corner-blocks") \cup Direction(o, B, e.gf, TangentX(o), e.wc, 16)
  \cup (IF e.wc # 1 THEN {} ELSE
    Cl(\A n \in 1..(N - 1) :
         LET rho == CutRho(FV(n), o.q, n)  m == Max2(Rows(rho), Len(e.sv[n]))  ps == PowerSums(rho, rho, m) IN
         \A k \in 1..m : CDist(PowSum(sq(n), k, Len(e.sv[n])), ps[k]) <= 8192, "singular-values")
    \cup Cl(\A n \in 1..(N - 1) : dD[n] <= Min2(Limit(e, o, n + 1), Above(n, e.tol - 4096))
                                /\ dD[n] >= Min2(Limit(e, o, n + 1), Above(n, e.tol + 4096)), "number-of-directions")
    \cup Cl(\A n \in 1..(N - 1) : Abs(VNorm2(TV(n)) - TopSum(e.sv[n], Min2(dD[n], Len(e.sv[n])))) <= 4096, "not-the-largest")
    \cup Cl(\A n \in 1..(N - 1) : CDist(VDot(TV(n), VSub(FV(n), TV(n))), CZ) <= 4096, "not-a-part")
    \cup Cl(\A n \in 1..(N - 1) : CDist(e.etaBBsq[n], CR(VNorm2(FV(n)))) <= 4096, "pair-norms"))

\* ---- sweeps
HamOf(e) == [h |-> IF e.local = 1 THEN st.h ELSE <<>>, k |-> st.k, W |-> e.W, q |-> st.o.q]
RightForm(o) == \A n \in 2..Len(o.A) : IsOne(EpsR(MEye(o.D[n + 1]), o.A[n], o.A[n]))
RightOf(o) == Cl(RightForm(o), "right-orthonormal") \cup (IF Has(o, "r") THEN Cl(\A n \in 1..Len(o.A) : IsOne(o.r[n]), "environments") ELSE {})
SweepStep(e, o, p) ==
  LET H == HamOf(e) IN
  Cl(Unit(p), "norm") \cup Cl(RightForm(o), "right-orthonormal")
  \cup Cl(\A n \in 1..Len(o.D) : o.D[n] <= Max2(e.Dmax, IF Len(o.D) = Len(st.o.D) /\ e.two # 1 THEN st.o.D[n] ELSE 1), "dimension-limit")
  \cup (IF e.stored = 1 THEN Cl(CloseCT(e.H, HEnergy(H, p), 2048), "energy") \cup Cl(EnvR(o), "right-environments") ELSE {})
  \cup (IF e.wc # 1 THEN {} ELSE
       \* with complete bonds the splitting is exact
       Cl(Parallel(IF Complete(st.o) \/ (Len(o.A) = 2 /\ e.two > 0) THEN VecSteps(H, st.psi, e.dtau, e.steps) ELSE Psi(Steps(H, st.o.A, e.dtau, e.two, e.steps)),
                   p, 4 * TOLV), "not-the-split-step")
       \cup (IF RealTime(e.dtau) THEN Cl(Abs(HEnergy(H, p)[1] - HEnergy(H, st.psi)[1]) <= 2048, "energy-not-conserved") ELSE {}))
Optimised(e, o, p) ==
  LET H == HamOf(e)  en == HEnergy(H, p)[1] IN
  Cl(Unit(p), "norm") \cup Cl(RightForm(o), "right-orthonormal")
  \cup Cl(\A n \in 1..Len(o.D) : o.D[n] <= Max2(e.Dmax, IF Len(o.D) = Len(st.o.D) /\ e.two # 1 THEN st.o.D[n] ELSE 1), "dimension-limit")
  \cup (IF e.stored = 1 THEN Cl(CloseCT(e.H, <<en, 0>>, 2048), "energy") \cup Cl(EnvR(o), "right-environments") ELSE {})
  \cup (IF e.cut = 1 THEN {} ELSE
       Cl(en <= HEnergy(H, st.psi)[1] + 512, "energy-rises")
       \cup Cl(Lowest(H, o.A, en), "not-the-lowest")
       \cup Cl(EnergyGrad(H, o.A, p, en, 1) <= 4096, "not-stationary"))
  \cup (IF e.conv = 1 THEN Cl(\A n \in 1..Len(o.A) : EnergyGrad(H, o.A, p, en, n) <= 8192, "not-converged") ELSE {})

\* ---- stochastic steps of an open system: for each jump operator L with noise W the generator
\*   -i h  +  sum ( -L^+ L / 2  +  (<L^+> + W / dt) L )
JumpAt(e, j, p) ==
  LET L == e.L[j]  n == L[1]
      ev == Ev(L[2], p, st.o.q, n, n + st.k - 1) IN
  TLCEval(MAdd(MScale(<<-(ONE \div 2), 0>>, MMul(MAdj(L[2]), L[2])),
               MScale(CAdd(CConj(ev), <<RDiv(e.W[j][1], e.dt), RDiv(e.W[j][2], e.dt)>>), L[2])))
RECURSIVE JumpSum(_, _, _, _)
JumpSum(e, j, p, acc) ==
  IF j = 0 THEN acc
  ELSE LET n == e.L[j][1]  M == JumpAt(e, j, p) IN
       JumpSum(e, j - 1, p, TLCEval([acc EXCEPT ![n] = IF @ = <<>> THEN M ELSE MAdd(@, M)]))
Generator(e, p) == JumpSum(e, Len(e.L), p, TLCEval([n \in 1..Len(st.h) |-> IF st.h[n] = <<>> THEN <<>> ELSE MScale(<<0, -ONE>>, st.h[n])]))
DissStep(e, o) ==
  LET p == st.psi
      gp == HamV(Generator(e, p), st.k, p, st.o.q)
      X == TLCEval(VSub(gp, VScale(VDot(p, gp), p)))
      B == Implied(st.o, o, <<-e.dt, 0>>, e.gf) IN
  Direction(st.o, B, e.gf, X, e.wc, 64) \cup Cl(e.ham = 1, "hamiltonian-changed")
\* independent samples of a complex Wiener process, in units of its standard deviation: w[j] samples of jump j
RECURSIVE MeanOf(_, _, _)
MeanOf(w, f, k) == IF k = 0 THEN CZ
  ELSE CAdd(MeanOf(w, f, k - 1), LET z == w[k] IN
    CASE f = 1 -> z [] f = 2 -> CR(RMul(z[1], z[1])) [] f = 3 -> CR(RMul(z[2], z[2])) [] f = 4 -> CR(RMul(z[1], z[2])))
Wiener(w) ==
  LET n == Len(w)
      A(f) == MeanOf([k \in 1..n |-> <<w[k][1] \div 8, w[k][2] \div 8>>], f, n)
      m == A(1)  x2 == A(2)[1]  y2 == A(3)[1]  xy == A(4)[1]
      u == n * (ONE \div 64) IN     \* n units of variance at this scale
  /\ Abs(m[1]) <= (u \div 3) * 8 /\ Abs(m[2]) <= (u \div 3) * 8
  /\ Abs(x2 - (u \div 2)) <= (u \div 4) /\ Abs(y2 - (u \div 2)) <= (u \div 4) /\ Abs(xy) <= (u \div 4)
\* samples of different jumps are uncorrelated: both real products, relative to one unit of variance
Uncorrelated(v, w) ==
  LET n == Len(w)
      P(a, b) == MeanOf([k \in 1..n |-> CR(RMul(v[k][a] \div 8, w[k][b] \div 8))], 1, n)[1] IN
  \A a \in 1..2 : \A b \in 1..2 : Abs(P(a, b)) <= (n * (ONE \div 64)) \div 4

Change(e, o, p) ==
  CASE e.op = "set" -> Cl(VDist(p, Psi(e.T)) <= TOLV, "state")
    [] e.op \in {"poke", "quench", "gf", "cf"} -> {}
    [] e.op = "stage" -> Cl(SameTensors(o.A, StepTo(e.A0, st.ks[Len(st.ks)], e.c)), "state")
    [] e.op = "update" -> Cl(SameRay(st.psi, p), "state") \cup NormClause(e, p) \cup Fresh(o, p, e)
    [] e.op \in {"noise", "op"} -> Cl(Unit(p), "norm") \cup Fresh(o, p, e)
    [] e.op = "step" ->
         LET B == Implied(st.o, o, e.dtau, e.gf) IN
         Direction(st.o, B, e.gf, TangentX(st.o), e.wc, 16)
         \cup (IF Complete(st.o) /\ ~Parallel(Exact(st.psi, e.dtau, o), p, ONE \div 8) THEN {"far-from-exact"} ELSE {})
    [] e.op = "grow" -> GrowLim(e, o)
    [] e.op = "diss" -> DissStep(e, o)
    [] e.op = "split" -> SweepStep(e, o, p)
    [] e.op = "dmrg" -> Optimised(e, o, p)
    [] e.op = "step_given" ->
         LET A2 == StepTo(st.o.A, e.B, e.dtau) IN
         Cl(Len(o.A) = Len(A2) /\ \A n \in 1..Len(A2) : CloseTT(o.A[n], A2[n], 64), "state") \cup Cl(e.B = e.B2, "given-direction-changed")
    [] e.op = "rk4" ->
         LET g == <<e.dtau[1] \div 6, e.dtau[2] \div 6>>
             two(c) == <<2 * c[1], 2 * c[2]>>
             A2 == StepTo(StepTo(StepTo(StepTo(e.A0, st.ks[1], g), st.ks[2], two(g)), st.ks[3], two(g)), st.ks[4], g)
             p0 == Psi(e.A0) IN
         Cl(e.wc < 1 \/ (Len(o.A) = Len(A2) /\ \A n \in 1..Len(A2) : CloseTT(o.A[n], A2[n], 256)), "state")
         \cup Cl(e.B = e.B2, "given-direction-changed")
         \cup (IF Complete(o) THEN Cl(Parallel(Exact(p0, e.dtau, o), p, 4 * TOLV), "not-exact") ELSE {})
         \cup (IF RealTime(e.dtau)
               THEN Cl(Abs(Energy(p, o) - Energy(p0, o)) <= 4 * TOLV, "energy-not-conserved")
                    \cup Cl(Abs(VNorm2(p) - VNorm2(p0)) <= 4 * TOLV, "norm-not-conserved")
               ELSE IF ImagTime(e.dtau) THEN Cl(Energy(p, o) <= Energy(p0, o) + TOLV, "energy-rises") ELSE {})
    [] OTHER -> {"unknown-event"}

Query(e) ==
  CASE e.op = "flow" ->
         Direction(st.o, e.B, e.gf, TangentX(st.o), e.wc, 1) \cup (IF e.set >= 1 /\ e.wc >= 0 /\ ShapesB(st.o, e.B, e.gf) THEN Etas(st.o, e.B, e) ELSE {})
    [] e.op = "grow_full" -> IF ~Shapes(e.out) THEN {"shapes"} ELSE GrowFull(e, e.out)
    [] e.op = "grow_err" -> IF e.wc # 1 THEN {} ELSE ErrNorms(st.o, e, st.pairs)
    [] e.op = "cg" ->       \* a line search along the gradient plus beta times the previous direction
         Direction(st.o, e.B, e.gf, TangentX(st.o), e.wc, 1)
         \cup (IF e.wc >= 0 /\ ShapesB(st.o, e.B, e.gf) THEN Etas(st.o, e.B, e) ELSE {})
         \cup (IF ~ShapesB(st.o, e.Bcg, e.gf) THEN {"direction-shapes"} ELSE
              LET beta == RDiv(RMul(e.eta[1], e.eta[1]), RMul(e.eta0[1], e.eta0[1]))
                  conj == [n \in 1..Len(e.B) |-> IF e.B[n] = <<>> THEN <<>>
                             ELSE IF e.B0[n] = <<>> THEN e.B[n] ELSE TAdd(e.B[n], TScale(CR(beta), e.B0[n]))]
                  same(b) == \A n \in 1..Len(b) : IF b[n] = <<>> THEN e.Bcg[n] = <<>> ELSE e.Bcg[n] # <<>> /\ CloseT(e.Bcg[n], b[n])
                  p2 == Psi(StepTo(st.o.A, e.Bcg, e.tau)) IN
              Cl(same(e.B) \/ (e.reset = 0 /\ same(conj)), "direction")
              \cup Cl(e.tau[1] >= -4096 /\ e.tau[2] = 0, "step-size")
              \cup Cl(e.low = 1 \/ e.big = 1 \/ Energy(p2, st.o) <= Energy(st.psi, st.o) + 256, "energy-rises"))
    [] e.op = "flow_mpo" ->
         LET hp == MpoAct(e.W, 1, st.psi, st.o.q)
             en == VDot(st.psi, hp)
             n2 == VNorm2(st.psi)
             X == TLCEval(VSub(hp, VScale(<<RDiv(en[1], n2), RDiv(en[2], n2)>>, st.psi))) IN
         Direction(st.o, e.B, "right", X, e.wc, 1)
         \cup (IF e.wc >= 0 /\ ShapesB(st.o, e.B, "right") THEN Etas(st.o, e.B, e) ELSE {}) \cup Cl(CloseC(e.H, en), "energy")
    [] e.op = "calls" -> Cl(e.n = e.steps /\ e.ok = 1, "callbacks")
    [] e.op = "noisestat" -> Cl(\A j \in 1..Len(e.w) : Wiener(e.w[j]), "noise")
         \cup Cl(\A j, k \in 1..Len(e.w) : j = k \/ Uncorrelated(e.w[j], e.w[k]), "noise-correlated")
    [] e.op = "term" -> Cl(CloseC(e.out, Ev(st.h[e.n], st.psi, st.o.q, e.n, e.n + st.k - 1)), "value")
    [] e.op = "jump" -> Cl(CloseC(e.out, Ev(e.M, st.psi, st.o.q, e.n, e.n + st.k - 1)), "value")
    [] e.op = "still" ->
         Cl(SameTensors(e.out.A, st.o.A) /\ e.out.D = st.o.D, "state-changed")
         \cup Cl(\A n \in 1..Len(e.out.l) : MDist(e.out.l[n], st.o.l[n]) <= 2 /\ MDist(e.out.r[n], st.o.r[n]) <= 2, "environments-changed")
    [] OTHER -> {"unknown-event"}

ChangeOps == {"set", "poke", "quench", "gf", "cf", "stage", "update", "noise", "op", "step", "step_given", "rk4", "grow", "split", "dmrg", "diss"}
Verdict(e) ==
  IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op \in ChangeOps
       THEN IF ~Shapes(e.out) THEN {"shapes"} ELSE Change(e, e.out, Psi(e.out.A))
       ELSE Query(e)
After(e) ==
  IF Has(e, "exc") THEN st
  ELSE IF e.op = "flow" THEN (IF Has(e, "stage") THEN [st EXCEPT !.ks = (IF e.stage = 1 THEN <<>> ELSE @) \o <<e.B>>] ELSE st)
  ELSE IF e.op = "grow_full" THEN
       (IF Shapes(e.out) /\ Grown(st.o, e.out) THEN [st EXCEPT !.pairs = PairsOf(st.o, e.out, e.dtau)] ELSE st)
  ELSE IF e.op \notin ChangeOps THEN st
  ELSE TLCEval([o |-> e.out, psi |-> IF Shapes(e.out) THEN Psi(e.out.A) ELSE <<>>,
                h |-> IF Has(e, "h") THEN e.h ELSE st.h, k |-> IF Has(e, "k") THEN e.k ELSE st.k, ks |-> st.ks, pairs |-> st.pairs])

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = [o |-> <<>>, psi |-> <<>>, h |-> <<>>, k |-> 0, ks |-> <<>>, pairs |-> <<>>]
Next ==
  LET e == Traces[tid].ev[i + 1] IN
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(e) : PrintT(<<"FAIL", tid, i + 1, cl>>)
  /\ st' = After(e)
=============================================================================
