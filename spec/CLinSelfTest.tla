---------------------------- MODULE CLinSelfTest ----------------------------
(***************************************************************************)
(* Evaluates CLin (run once with and once without the Java overrides on    *)
(* the class path, see run.py) on pseudo-random small matrices and prints  *)
(* the results; the runner requires the two outputs to be identical.       *)
(***************************************************************************)
EXTENDS CLin, TLC

VARIABLE n
Rnd(a, b, c) == (((a * 7919 + b * 104729 + c * 15485 + a * b * 331 + b * c * 71) % 33554432) - 16777216)
Mat(k, r, c) == [i \in 1..r |-> [j \in 1..c |-> <<Rnd(i + k, j, k), Rnd(j, i + 2 * k, k + 5)>>]]
Results(k) ==
  LET A == Mat(k, 2, 3)  B == Mat(k + 17, 3, 2)  C == Mat(k + 31, 2, 3)
      a == Rnd(k, 3, 5)  b == Rnd(7, k, 2)
  IN << MMul(A, B), MAdd(A, C), MSub(A, C), MScale(<<a, b>>, A), MConj(A), MTr(A), MAdj(A),
        MKron(A, B), MDist(A, C), MNorm2(A), MDot(A, C), RMul(a, b), RDiv(a, b), RAdd(a, b),
        RSub(a, b), CMul(<<a, b>>, <<b, a>>), MDist(A, B), RDiv(b, 3 - a), RSqrt(Abs(a)),
        RMul(-a, b), RMul(a, -1), RMul(-3, 5592405) >>
Init == n = 1
Next == n < 12 /\ n' = n + 1
Show == PrintT(<<"SELF", n, Results(n)>>)
=============================================================================
