------------------------------ MODULE UTangent -------------------------------
(***************************************************************************)
(* Tangent vectors of a uniform chain with a momentum, and the Hamiltonian *)
(* between them (P20).                                                     *)
(*                                                                         *)
(*   |B,p>  =  sum_n exp(ipn) ... A A B A_ A_ ...   (B on site n)          *)
(*                                                                         *)
(* with the chain o to the left of B and the chain d to the right of it:   *)
(* the same chain, or another one of the same energy (a kink).             *)
(* Infinite sums over the distance are given as witnesses and verified     *)
(* through the linear equations that determine them.                       *)
(***************************************************************************)
EXTENDS UConv

RECURSIVE PhPow(_, _)
PhPow(ph, n) == IF n = 0 THEN C1 ELSE IF n < 0 THEN CMul(CConj(ph), PhPow(ph, n + 1)) ELSE CMul(ph, PhPow(ph, n - 1))

\* ---- one site per cell
\* x = c (y + E x)
Series(x, y, A, Abra, c) == MDist(x, MScale(c, MAdd(y, EpsL(x, Abra, A)))) <= 1024 + (MMax(x) \div 4096)
\* energy environments on either side
KRightW(d, K, h, m, e) ==
  CloseM(K, MSub(MAdd(EpsR(K, d.A[1], d.A[1]), HRr(d, h, m, 1)), MScale(e, d.r[1])))
  /\ CDist(MDot(d.l[1], K), CZ) <= 1024 + (MMax(K) \div 4096)
KLeftW(o, K, h, m, e) ==
  CloseM(K, MSub(MAdd(EpsL(K, o.A[1], o.A[1]), HLl(o, h, m, 1)), MScale(e, o.l[1])))
  /\ CDist(MTrace(MMul(K, o.r[1])), CZ) <= 1024 + (MMax(K) \div 4096)

\* tensors of a row with B on site n (or none: everything from d), on sites a..b
RECURSIVE Row(_, _, _, _, _, _)
Row(A, A2, B, n, a, b) ==
  LET T(x) == IF x < n THEN A ELSE IF x = n THEN B ELSE A2 IN
  IF a = b THEN T(a) ELSE TJoin(Row(A, A2, B, n, a, b - 1), T(b))
\* the term on sites j..j+m-1 between two rows
Between(x, h, m, ket, bra, r) == MTrace(MMul(x, EpsR(r, TOp(h, ket), bra)))
RECURSIVE SumC(_, _)
SumC(s, n) == IF n = 0 THEN CZ ELSE CAdd(SumC(s, n - 1), s[n])
CSum(s) == SumC(s, Len(s))

\* <C,p| H |B,p> per site; w: the witnesses
Element(o, d, h, m, ph, B, C, w) == TLCEval(
  LET A == o.A[1]  A2 == d.A[1]  l == o.l[1]  r == d.r[1]
      e == o.he
      hh == TLCEval(MSub(h, MScale(<<e[1], 0>>, MEye(Rows(h)))))
      NO == -100
      Bk(n, j) == Row(A, A2, B, n, j, j + m - 1)
      Ck(n, j) == Row(A, A2, C, n, j, j + m - 1)
      Left(j) == \* the term covers site 0, the right one of the two perturbed sites; the other one is further left
        CSum(<<CMul(PhPow(ph, j), Between(w.X, hh, m, Bk(NO, j), Ck(0, j), r)),
               CMul(PhPow(ph, -j), Between(w.Z, hh, m, Bk(0, j), Ck(NO, j), r)),
               Between(l, hh, m, Bk(0, j), Ck(0, j), r)>>
             \o [n \in 1..(-j) |-> CMul(PhPow(ph, -n), Between(l, hh, m, Bk(-n, j), Ck(0, j), r))]
             \o [n \in 1..(-j) |-> CMul(PhPow(ph, n), Between(l, hh, m, Bk(0, j), Ck(-n, j), r))]) IN
  CSum(<<MTrace(MMul(l, EpsR(w.K, B, C))), MTrace(MMul(w.KL, EpsR(r, B, C))),
         MTrace(MMul(w.X, EpsR(w.K, A2, C))), MTrace(MMul(w.Z, EpsR(w.K, B, A2)))>>
       \o [j \in 1..m |-> Left(1 - j)]))
\* the sums over B (C) left of the other one
SeriesOk(o, d, ph, B, C, w) ==
  LET A == o.A[1]  A2 == d.A[1]  l == o.l[1] IN
  /\ Series(w.X, EpsL(l, A, B), A2, A, CConj(ph))
  /\ Series(w.Z, EpsL(l, C, A), A, A2, ph)
GaugeT(d, B, t) == MMax(EpsR(d.r[1], B, d.A[1])) <= t
Metric(o, d, B, C) == MTrace(MMul(o.l[1], EpsR(d.r[1], B, C)))

\* ---- cells of L sites: overlap of two tangent vectors, without the part along the chain itself
Along1(o, B, k) == MTrace(MMul(At(o.l, k - 1), EpsR(o.r[k], B[k], o.A[k])))
\* X[k]: B on site k or further left, relative to the momentum of site k
CellX(o, B, X, ph) == \A k \in 1..o.L :
  /\ MDist(X[k], MAdd(MScale(CConj(ph), EpsL(At(X, k - 1), o.A[k], o.A[k])),
        MSub(EpsL(At(o.l, k - 1), o.A[k], B[k]), MScale(Along1(o, B, k), o.l[k])))) <= 1024 + (MMax(X[k]) \div 4096)
  /\ CDist(MTrace(MMul(X[k], o.r[k])), CZ) <= 2048
CellZ(o, C, Z, ph) == \A k \in 1..o.L :
  /\ MDist(Z[k], MAdd(MScale(ph, EpsL(At(Z, k - 1), o.A[k], o.A[k])),
        MSub(EpsL(At(o.l, k - 1), C[k], o.A[k]), MScale(CConj(Along1(o, C, k)), o.l[k])))) <= 1024 + (MMax(Z[k]) \div 4096)
  /\ CDist(MTrace(MMul(Z[k], o.r[k])), CZ) <= 2048
Overlap(o, B, C, ph, X, Z) == TLCEval(CSum([k \in 1..o.L |->
  CSum(<<MTrace(MMul(At(o.l, k - 1), EpsR(o.r[k], B[k], C[k]))),
         CNeg(CMul(Along1(o, B, k), CConj(Along1(o, C, k)))),
         CMul(CConj(ph), MTrace(MMul(At(X, k - 1), EpsR(o.r[k], o.A[k], C[k])))),
         CMul(ph, MTrace(MMul(At(Z, k - 1), EpsR(o.r[k], B[k], o.A[k]))))>>)]))
OnSite(o, B, C) == CSum([k \in 1..o.L |-> MTrace(MMul(At(o.l, k - 1), EpsR(o.r[k], B[k], C[k])))])

\* ---- a finite window of the state with B on site n: expectation values on sites 1..N
WinTen(A, A2, B, n, N) == [x \in 1..N |-> IF x < n THEN A ELSE IF x = n THEN B ELSE A2]
\* ops: <<site, operator>> for single-site operators, in the order of the sites
RECURSIVE WinVal(_, _, _, _)
WinVal(x, T, ops, k) == IF k > Len(T) THEN x
  ELSE WinVal(EpsL(x, T[k], IF \E j \in 1..Len(ops) : ops[j][1] = k
                            THEN TOp(ops[CHOOSE j \in 1..Len(ops) : ops[j][1] = k][2], T[k]) ELSE T[k]), T, ops, k + 1)
WinEx(l, r, T, ops) == MTrace(MMul(WinVal(l, T, ops, 1), r))
RECURSIVE WinPair(_, _, _, _, _)
WinPair(x, T, op, n, k) == IF k > Len(T) THEN x
  ELSE IF k = n THEN LET U == TJoin(T[k], T[k + 1]) IN WinPair(EpsL(x, U, TOp(op, U)), T, op, n, k + 2)
  ELSE WinPair(EpsL(x, T[k], T[k]), T, op, n, k + 1)

\* ---- spectra: H V = V diag(w), V unitary, and the n eigenvalues of smallest (or another) rank
Unitary(V, t) == CloseMT(MMul(MAdj(V), V), MEye(Cols(V)), t)
EigenOf(H, w, V, t) == CloseMT(MMul(H, V), [a \in 1..Rows(V) |-> [b \in 1..Cols(V) |-> CMul(<<w[b], 0>>, V[a][b])]], t)
Ascending(w, t) == \A j \in 1..(Len(w) - 1) : w[j] <= w[j + 1] + t
RECURSIVE Ranked(_, _, _)
\* the values of W in the order of key: <<key, value>> pairs
InsertK(s, x) == LET n == Len(SelectSeq(s, LAMBDA y : y[1] <= x[1])) IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Ranked(W, kind, j) == IF j = 0 THEN <<>>
  ELSE InsertK(Ranked(W, kind, j - 1),
    <<CASE kind = "SM" -> Abs(W[j]) [] kind = "LM" -> -Abs(W[j]) [] kind = "SA" -> W[j] [] OTHER -> -W[j], W[j]>>)
\* the keys of the chosen eigenvalues are the first ones
Chosen(W, w, kind, t) ==
  LET all == Ranked(W, kind, Len(W))  got == Ranked(w, kind, Len(w)) IN
  /\ \A j \in 1..Len(w) : Abs(all[j][1] - got[j][1]) <= t
  /\ \A j \in 1..Len(w) : \E i \in 1..Len(W) : Abs(w[j] - W[i]) <= t
=============================================================================
