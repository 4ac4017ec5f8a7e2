-------------------------------- MODULE CLin --------------------------------
(***************************************************************************)
(* Complex linear algebra on fixed-point numbers: the number system every  *)
(* other specification module is written in.                               *)
(*                                                                         *)
(*  real     an integer r standing for r / 2^24                            *)
(*  complex  <<re, im>>                                                    *)
(*  matrix   sequence of rows, a row being a sequence of complex numbers   *)
(*  tensor   sequence (over the physical index) of matrices                *)
(*                                                                         *)
(* All numbers saturate at +-MAXI, so that evaluating a clause on the      *)
(* output of a broken implementation still gives a verdict instead of an   *)
(* evaluation error.                                                       *)
(*                                                                         *)
(* TLC evaluates the definitions below through java/CLinOverrides.java,    *)
(* which computes the same functions on Java longs; CLinSelfTest.tla       *)
(* checks the two against each other (the pure definitions are re-stated   *)
(* there without overrides).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

MAXI == 2147483647
ONE  == 16777216        \* 1.0
SH   == 4096            \* 2^12

Sat(x) == IF x > MAXI THEN MAXI ELSE IF x < -MAXI THEN -MAXI ELSE x

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

\* ---- reals
RAdd(a, b) == Sat(a + b)
RSub(a, b) == Sat(a - b)
\* product rounded to nearest: limb form of (a*b + 2^23) \div 2^24
RMul(a, b) ==
  LET a1 == a \div SH  a0 == a % SH  b1 == b \div SH  b0 == b % SH
      low == a0 * b0 + ONE \div 2
      mid == a1 * b0 + a0 * b1 + (low \div SH)
  IN Sat(a1 * b1 + (mid \div SH))
\* quotient a/b rounded towards minus infinity (b # 0): 24 steps of long division
RECURSIVE RDivFrac(_, _, _, _)
RDivFrac(rem, b, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET r2 == 2 * rem IN
       IF r2 >= b THEN RDivFrac(r2 - b, b, k - 1, 2 * acc + 1)
       ELSE RDivFrac(r2, b, k - 1, 2 * acc)
RDiv(a, b) ==
  LET aa == IF b < 0 THEN -a ELSE a  bb == Abs(b)
  IN IF bb = 0 THEN MAXI
     ELSE Sat((aa \div bb) * ONE + RDivFrac(aa % bb, bb, 24, 0))
\* square root of a >= 0, by bisection on the result
RECURSIVE RSqrtB(_, _, _)
RSqrtB(a, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF RMul(m, m) <= a THEN RSqrtB(a, m, hi) ELSE RSqrtB(a, lo, m)
RSqrt(a) == IF a <= 0 THEN 0 ELSE RSqrtB(a, 0, 12 * ONE)

\* ---- complex numbers
CZ == <<0, 0>>
C1 == <<ONE, 0>>
CI == <<0, ONE>>
CR(r) == <<r, 0>>
CAdd(x, y) == <<RAdd(x[1], y[1]), RAdd(x[2], y[2])>>
CSub(x, y) == <<RSub(x[1], y[1]), RSub(x[2], y[2])>>
CNeg(x) == <<-x[1], -x[2]>>
CConj(x) == <<x[1], -x[2]>>
CMul(x, y) == <<RSub(RMul(x[1], y[1]), RMul(x[2], y[2])),
                RAdd(RMul(x[1], y[2]), RMul(x[2], y[1]))>>
CAbs2(x) == RAdd(RMul(x[1], x[1]), RMul(x[2], x[2]))
CDist(x, y) == Max2(Abs(RSub(x[1], y[1])), Abs(RSub(x[2], y[2])))

\* ---- matrices
Rows(A) == Len(A)
Cols(A) == Len(A[1])
MZero(n, m) == [i \in 1..n |-> [j \in 1..m |-> CZ]]
MEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN C1 ELSE CZ]]
MAdd(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CSub(A[i][j], B[i][j])]]
MScale(c, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CMul(c, A[i][j])]]
MConj(A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CConj(A[i][j])]]
MTr(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
MAdj(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> CConj(A[i][j])]]

RECURSIVE MDotAcc(_, _, _, _, _)
MDotAcc(A, B, i, j, k) ==
  IF k = 0 THEN CZ ELSE CAdd(MDotAcc(A, B, i, j, k - 1), CMul(A[i][k], B[k][j]))
MMul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> MDotAcc(A, B, i, j, Rows(B))]]

MKron(A, B) ==
  [i \in 1..(Rows(A) * Rows(B)) |-> [j \in 1..(Cols(A) * Cols(B)) |->
     CMul(A[((i - 1) \div Rows(B)) + 1][((j - 1) \div Cols(B)) + 1],
          B[((i - 1) % Rows(B)) + 1][((j - 1) % Cols(B)) + 1])]]

RECURSIVE MTraceAcc(_, _)
MTraceAcc(A, k) == IF k = 0 THEN CZ ELSE CAdd(MTraceAcc(A, k - 1), A[k][k])
MTrace(A) == MTraceAcc(A, Min2(Rows(A), Cols(A)))

SameShape(A, B) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B)

\* largest entry-wise distance (MAXI when the shapes differ)
RECURSIVE RowDist(_, _, _)
RowDist(u, v, k) == IF k = 0 THEN 0 ELSE Max2(RowDist(u, v, k - 1), CDist(u[k], v[k]))
RECURSIVE MDistAcc(_, _, _)
MDistAcc(A, B, k) == IF k = 0 THEN 0 ELSE Max2(MDistAcc(A, B, k - 1), RowDist(A[k], B[k], Cols(A)))
MDist(A, B) == IF SameShape(A, B) THEN MDistAcc(A, B, Rows(A)) ELSE MAXI

\* sum of |entries|^2
RECURSIVE RowNorm2(_, _)
RowNorm2(u, k) == IF k = 0 THEN 0 ELSE RAdd(RowNorm2(u, k - 1), CAbs2(u[k]))
RECURSIVE MNorm2Acc(_, _)
MNorm2Acc(A, k) == IF k = 0 THEN 0 ELSE RAdd(MNorm2Acc(A, k - 1), RowNorm2(A[k], Cols(A)))
MNorm2(A) == MNorm2Acc(A, Rows(A))

\* <A, B> = tr(A^dagger B)
RECURSIVE RowDot(_, _, _)
RowDot(u, v, k) == IF k = 0 THEN CZ ELSE CAdd(RowDot(u, v, k - 1), CMul(CConj(u[k]), v[k]))
RECURSIVE MDotA(_, _, _)
MDotA(A, B, k) == IF k = 0 THEN CZ ELSE CAdd(MDotA(A, B, k - 1), RowDot(A[k], B[k], Cols(A)))
MDot(A, B) == MDotA(A, B, Rows(A))
=============================================================================
