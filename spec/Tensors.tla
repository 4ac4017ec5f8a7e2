------------------------------ MODULE Tensors -------------------------------
(***************************************************************************)
(* Matrix-product tensors and the transfer maps built from them.           *)
(*                                                                         *)
(*  tensor     <<T[1], ..., T[q]>>, one matrix per physical index; tensors *)
(*             of several sites have their physical indices joined, the    *)
(*             last site varying fastest                                   *)
(*  operator   matrix op[s][u] = <s|op|u> on (joined) physical indices     *)
(***************************************************************************)
EXTENDS CLin, TLC

RECURSIVE MSumAcc(_, _)
MSumAcc(S, k) == IF k = 1 THEN S[1] ELSE MAdd(MSumAcc(S, k - 1), S[k])
\* sum of a non-empty sequence of matrices
MSum(S) == LET T == TLCEval(S) IN MSumAcc(T, Len(T))

TRows(T) == Rows(T[1])
TCols(T) == Cols(T[1])

TAdd(T, U) == [s \in 1..Len(T) |-> MAdd(T[s], U[s])]
TSub(T, U) == [s \in 1..Len(T) |-> MSub(T[s], U[s])]
TScale(c, T) == [s \in 1..Len(T) |-> MScale(c, T[s])]
TMulR(T, m) == [s \in 1..Len(T) |-> MMul(T[s], m)]
TMulL(m, T) == [s \in 1..Len(T) |-> MMul(m, T[s])]
TConj(T) == [s \in 1..Len(T) |-> MConj(T[s])]

RECURSIVE TDistAcc(_, _, _)
TDistAcc(T, U, k) == IF k = 0 THEN 0 ELSE Max2(TDistAcc(T, U, k - 1), MDist(T[k], U[k]))
TDist(T, U) == IF Len(T) = Len(U) THEN TDistAcc(T, U, Len(T)) ELSE MAXI

RECURSIVE TNorm2Acc(_, _)
TNorm2Acc(T, k) == IF k = 0 THEN 0 ELSE RAdd(TNorm2Acc(T, k - 1), MNorm2(T[k]))
TNorm2(T) == TNorm2Acc(T, Len(T))

\* neighbouring sites joined into one tensor
TJoin(T, U) == TLCEval(
  LET q == Len(U) IN
  [k \in 1..(Len(T) * q) |-> MMul(T[((k - 1) \div q) + 1], U[((k - 1) % q) + 1])])

\* (op T)[s] = sum_u op[s][u] T[u], computed on T laid out as a matrix
Flat(m) == LET c == Cols(m) IN [k \in 1..(Rows(m) * c) |-> m[((k - 1) \div c) + 1][((k - 1) % c) + 1]]
UnFlat(v, n, c) == [i \in 1..n |-> [j \in 1..c |-> v[(i - 1) * c + j]]]
TOp(op, T) == TLCEval(
  LET M == MMul(op, [s \in 1..Len(T) |-> Flat(T[s])]) n == TRows(T) c == TCols(T) IN
  [s \in 1..Rows(op) |-> UnFlat(M[s], n, c)])

\* transfer maps: <x| from the left and |x> from the right
EpsL(x, A1, A2) == TLCEval(MSum([s \in 1..Len(A1) |-> MMul(MAdj(A1[s]), MMul(x, A2[s]))]))
EpsR(x, A1, A2) == TLCEval(MSum([s \in 1..Len(A1) |-> MMul(A1[s], MMul(x, MAdj(A2[s])))]))

\* matrix-product operators: W[m1][m2] is an operator on the site
\* (MpoT)  W applied to a tensor, virtual index order (tensor bond, operator bond)
MpoT(W, A) ==
  LET m1 == Len(W)  m2 == Len(W[1])  n == TRows(A)  c == TCols(A)
      R == [a \in 1..m1 |-> [b \in 1..m2 |-> TOp(W[a][b], A)]] IN
  TLCEval([s \in 1..Rows(W[1][1]) |->
    [i \in 1..(n * m1) |-> [j \in 1..(c * m2) |->
       R[((i - 1) % m1) + 1][((j - 1) % m2) + 1][s][((i - 1) \div m1) + 1][((j - 1) \div m2) + 1]]]])

\* largest modulus-like size of the entries
RECURSIVE RowMax(_, _)
RowMax(u, k) == IF k = 0 THEN 0 ELSE Max2(RowMax(u, k - 1), Max2(Abs(u[k][1]), Abs(u[k][2])))
RECURSIVE MMaxAcc(_, _)
MMaxAcc(A, k) == IF k = 0 THEN 0 ELSE Max2(MMaxAcc(A, k - 1), RowMax(A[k], Len(A[k])))
MMax(A) == MMaxAcc(A, Len(A))

\* agreement up to the resolution of the fixed-point numbers
CloseM(a, b) == MDist(a, b) <= 512 + (MMax(b) \div 4096)
CloseMT(a, b, tol) == MDist(a, b) <= tol
CloseT(a, b) == Len(a) = Len(b) /\ \A s \in 1..Len(a) : CloseM(a[s], b[s])
CloseTT(a, b, tol) == Len(a) = Len(b) /\ \A s \in 1..Len(a) : CloseMT(a[s], b[s], tol)
CloseC(a, b) == CDist(a, b) <= 512 + (Max2(Abs(b[1]), Abs(b[2])) \div 4096)
CloseCT(a, b, tol) == CDist(a, b) <= tol

\* the usual shape of every trace specification's verdicts
Has(e, f) == f \in DOMAIN e
Cl(ok, name) == IF ok THEN {} ELSE {name}
=============================================================================
