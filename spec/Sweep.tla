------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* Sweeping integrators and optimisers for finite chains (P11).  The local *)
(* problem at site n is the exact restriction of the Hamiltonian to the    *)
(* states obtained by varying tensor n, all other tensors orthonormal      *)
(* towards it; a sweep moves the centre through the chain, evolving centre *)
(* tensors forwards and the bond matrices between them backwards in time.  *)
(*                                                                         *)
(*  H = [h |-> local terms or <<>>, k |-> their range,                     *)
(*       W |-> matrix-product operator or <<>>, q |-> site dimensions]     *)
(***************************************************************************)
EXTENDS FiniteState

HV(H, v) == TLCEval(
  IF H.W = <<>> THEN HamV(H.h, H.k, v, H.q)
  ELSE IF H.h = <<>> THEN MpoAct(H.W, 1, v, H.q)
  ELSE VAdd(HamV(H.h, H.k, v, H.q), MpoAct(H.W, 1, v, H.q)))
HEnergy(H, v) == VDot(v, HV(H, v))

\* ---- orthonormalisation (rows of V are the vectors), repeated for accuracy
RECURSIVE Project(_, _, _)
Project(v, Q, j) == IF j = 0 THEN v ELSE LET w == Project(v, Q, j - 1) IN VSub(w, VScale(VDot(Q[j], w), Q[j]))
RECURSIVE GramSchmidt(_, _)
GramSchmidt(V, n) ==
  IF n = 0 THEN <<>>
  ELSE LET Q == GramSchmidt(V, n - 1)
           w == TLCEval(Project(Project(V[n], Q, n - 1), Q, n - 1)) IN
       Append(Q, TLCEval(VScale(CR(RDiv(ONE, RSqrt(VNorm2(w)))), w)))
\* tensor <-> matrix with rows (s, a) resp. columns (s, b)
TallM(T) == LET r == TRows(T) IN [k \in 1..(Len(T) * r) |-> T[((k - 1) \div r) + 1][((k - 1) % r) + 1]]
UnTall(M, q) == LET r == Rows(M) \div q IN [s \in 1..q |-> [a \in 1..r |-> M[(s - 1) * r + a]]]
WideM(T) == LET c == TCols(T) IN [a \in 1..TRows(T) |-> [k \in 1..(Len(T) * c) |-> T[((k - 1) \div c) + 1][a][((k - 1) % c) + 1]]]
UnWide(M, q) == LET c == Cols(M) \div q IN [s \in 1..q |-> [a \in 1..Rows(M) |-> [b \in 1..c |-> M[a][(s - 1) * c + b]]]]
\* T[s] = Q[s] G with Q left-orthonormal;  T[s] = G Q[s] with Q right-orthonormal
LeftQ(T) == TLCEval(LET M == TallM(T)  Q == IF Rows(M) = Cols(M) THEN MEye(Rows(M)) ELSE MTr(GramSchmidt(MTr(M), Cols(M))) IN
  [Q |-> UnTall(Q, Len(T)), G |-> MMul(MAdj(Q), M)])
RightQ(T) == TLCEval(LET M == WideM(T)  Q == IF Rows(M) = Cols(M) THEN MEye(Rows(M)) ELSE GramSchmidt(M, Rows(M)) IN
  [Q |-> UnWide(Q, Len(T)), G |-> MMul(M, MAdj(Q))])

\* ---- local problems; all tensors but the centre are orthonormal towards it
With(A, n, X) == [A EXCEPT ![n] = X]
SiteH(H, A, n, X) == Grad(A, HV(H, PsiWith(A, n, X)), n)
BondH(H, A, n, G) ==    \* bond between n and n+1
  LET Y == SiteH(H, A, n + 1, TMulL(G, A[n + 1])) IN
  TLCEval(MSum([s \in 1..Len(Y) |-> MMul(Y[s], MAdj(A[n + 1][s]))]))
\* two neighbouring sites, as a chain in which they are one site
Fuse(A, n, X) == [j \in 1..(Len(A) - 1) |-> IF j < n THEN A[j] ELSE IF j = n THEN X ELSE A[j + 1]]
PairH(H, A, n, X) == LET F == Fuse(A, n, X) IN Grad(F, HV(H, Psi(F)), n)

Neg(c) == <<-c[1], -c[2]>>
Half(c) == <<c[1] \div 2, c[2] \div 2>>
Over(c, j) == <<c[1] \div j, c[2] \div j>>
TMaxT(T) == MMax([s \in 1..Len(T) |-> <<CR(MMax(T[s]))>>])
\* exp(-c H_eff) X
RECURSIVE SiteSeries(_, _, _, _, _, _, _)
SiteSeries(H, A, n, acc, term, c, j) ==
  IF j > 30 \/ TMaxT(term) <= 1 THEN acc
  ELSE LET t == TLCEval(TScale(Neg(Over(c, j)), SiteH(H, A, n, term))) IN
       SiteSeries(H, A, n, TLCEval(TAdd(acc, t)), t, c, j + 1)
SiteExp(H, A, n, X, c) == SiteSeries(H, A, n, X, X, c, 1)
RECURSIVE BondSeries(_, _, _, _, _, _, _)
BondSeries(H, A, n, acc, term, c, j) ==
  IF j > 30 \/ MMax(term) <= 1 THEN acc
  ELSE LET t == TLCEval(MScale(Neg(Over(c, j)), BondH(H, A, n, term))) IN
       BondSeries(H, A, n, TLCEval(MAdd(acc, t)), t, c, j + 1)
BondExp(H, A, n, G, c) == BondSeries(H, A, n, G, G, c, 1)
RECURSIVE PairSeries(_, _, _, _, _, _, _)
PairSeries(H, A, n, acc, term, c, j) ==
  IF j > 30 \/ TMaxT(term) <= 1 THEN acc
  ELSE LET t == TLCEval(TScale(Neg(Over(c, j)), PairH(H, A, n, term))) IN
       PairSeries(H, A, n, TLCEval(TAdd(acc, t)), t, c, j + 1)
PairExp(H, A, n, X, c) == PairSeries(H, A, n, X, X, c, 1)

\* ---- two-site sweeps when every bond has the largest dimension a state can need:
\* the two-site tensor X splits without loss
EyeTall(q, d) == UnTall(MEye(q * d), q)
EyeWide(q, d) == UnWide(MEye(q * d), q)
\* rows (s1, a), columns (s2, b) of the two-site tensor
PairM(X, q1, q2) == TLCEval(LET dl == TRows(X)  dr == TCols(X) IN
  [i \in 1..(q1 * dl) |-> [j \in 1..(q2 * dr) |->
     X[((i - 1) \div dl) * q2 + ((j - 1) \div dr) + 1][((i - 1) % dl) + 1][((j - 1) % dr) + 1]]])
SplitPair(X, q1, q2, right) == TLCEval(
  LET M == PairM(X, q1, q2)  m == Rows(M)  n == Cols(M) IN
  IF right        \* the centre goes to the second site
  THEN LET Q == IF m <= n THEN MEye(m) ELSE MTr(GramSchmidt(MTr(M), n)) IN
       <<UnTall(Q, q1), UnWide(MMul(MAdj(Q), M), q2)>>
  ELSE LET Q == IF n <= m THEN MEye(n) ELSE GramSchmidt(M, m) IN
       <<UnTall(MMul(M, MAdj(Q)), q1), UnWide(Q, q2)>>)
SetPair(A, n, P) == [A EXCEPT ![n] = P[1], ![n + 1] = P[2]]

\* ---- sweeps with time c each, starting with the centre at the first resp. last site.
\* two = 0: site by site;  1: pair by pair;  2: by pairs where the bond can still grow
CanGrow(A, n) ==
  LET D(k) == IF k = 0 THEN 1 ELSE TCols(A[k]) IN
  D(n) < D(n - 1) * Len(A[n]) /\ D(n) < D(n + 1) * Len(A[n + 1])
Pairs(A, n, two) == two = 1 \/ (two = 2 /\ CanGrow(A, n))
RECURSIVE SweepR(_, _, _, _, _)
SweepR(H, A, n, c, two) ==
  IF n = Len(A) THEN With(A, n, SiteExp(H, A, n, A[n], c))
  ELSE IF Pairs(A, n, two)
  THEN LET X == PairExp(H, A, n, TJoin(A[n], A[n + 1]), c)
           A2 == TLCEval(SetPair(A, n, SplitPair(X, Len(A[n]), Len(A[n + 1]), TRUE))) IN
       IF n = Len(A) - 1 THEN A2
       ELSE SweepR(H, TLCEval(With(A2, n + 1, SiteExp(H, A2, n + 1, A2[n + 1], Neg(c)))), n + 1, c, two)
  ELSE LET S == LeftQ(SiteExp(H, A, n, A[n], c))
           A2 == With(A, n, S.Q)
           G == BondExp(H, A2, n, S.G, Neg(c)) IN
       SweepR(H, TLCEval(With(A2, n + 1, TMulL(G, A[n + 1]))), n + 1, c, two)
RECURSIVE SweepL(_, _, _, _, _)
SweepL(H, A, n, c, two) ==
  IF n = 1 THEN With(A, n, SiteExp(H, A, n, A[n], c))
  ELSE IF Pairs(A, n - 1, two)
  THEN LET X == PairExp(H, A, n - 1, TJoin(A[n - 1], A[n]), c)
           A2 == TLCEval(SetPair(A, n - 1, SplitPair(X, Len(A[n - 1]), Len(A[n]), FALSE))) IN
       IF n = 2 THEN A2
       ELSE SweepL(H, TLCEval(With(A2, n - 1, SiteExp(H, A2, n - 1, A2[n - 1], Neg(c)))), n - 1, c, two)
  ELSE LET S == RightQ(SiteExp(H, A, n, A[n], c))
           A2 == With(A, n, S.Q)
           G == BondExp(H, A2, n - 1, S.G, Neg(c)) IN
       SweepL(H, TLCEval(With(A2, n - 1, TMulR(A[n - 1], G))), n - 1, c, two)
\* the symmetric step of length c from tensors right-orthonormal but for the first
\* the exact step
RECURSIVE VecSeries(_, _, _, _, _)
VecSeries(H, v, term, c, j) ==
  IF j > 30 \/ VMax(term) <= 1 THEN v
  ELSE LET t == TLCEval(VScale(Neg(Over(c, j)), HV(H, term))) IN VecSeries(H, TLCEval(VAdd(v, t)), t, c, j + 1)
VecExp(H, v, c) == VecSeries(H, v, v, c, 1)
RECURSIVE VecSteps(_, _, _, _)
VecSteps(H, v, c, j) == IF j = 0 THEN v ELSE VecExp(H, VecSteps(H, v, c, j - 1), c)
RECURSIVE Steps(_, _, _, _, _)
Steps(H, A, c, two, j) == IF j = 0 THEN A
  ELSE TLCEval(SweepL(H, SweepR(H, Steps(H, A, c, two, j - 1), 1, Half(c), two), Len(A), Half(c), two))

\* ---- optimisation
\* M - x positive definite, by elimination
RECURSIVE PosDef(_)
PosDef(M) ==
  LET n == Rows(M)  p == M[1][1][1] IN
  IF p <= 0 THEN FALSE
  ELSE IF n = 1 THEN TRUE
  ELSE PosDef(TLCEval([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
         CSub(M[i + 1][j + 1], LET z == CMul(M[i + 1][1], M[1][j + 1]) IN <<RDiv(z[1], p), RDiv(z[2], p)>>)]]))
\* the local problem at the first site as a matrix, less x
FirstH(H, A, x) == TLCEval(
  LET q == Len(A[1])  d == TCols(A[1])
      E(k) == [s \in 1..q |-> <<[b \in 1..d |-> IF (s - 1) * d + b = k THEN C1 ELSE CZ]>>]
      R == TLCEval([k \in 1..(q * d) |-> SiteH(H, A, 1, TLCEval(E(k)))]) IN
  [i \in 1..(q * d) |-> [k \in 1..(q * d) |->
     LET v == R[k][((i - 1) \div d) + 1][1][((i - 1) % d) + 1] IN IF i = k THEN CSub(v, CR(x)) ELSE v]])
Lowest(H, A, en) == PosDef(FirstH(H, A, en - (ONE \div 512)))
\* the gradient of the energy with respect to tensor n
EnergyGrad(H, A, v, en, n) == TMaxT(Grad(A, VSub(HV(H, v), VScale(CR(en), v)), n))
=============================================================================
