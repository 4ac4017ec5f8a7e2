-------------------------------- MODULE UConv --------------------------------
(***************************************************************************)
(* Conversions of a uniform chain: several sites taken together as one,    *)
(* another bond or site dimension, and the way through another object, an  *)
(* exported record or a file (P19).                                        *)
(***************************************************************************)
EXTENDS UFlow

ZeroT(q, n) == [s \in 1..q |-> MZero(n, n)]
SameMat(x, y) == Rows(x) = Rows(y) /\ Cols(x) = Cols(y) /\ MDist(x, y) <= 2
SameEnv(a, b) == \A k \in 1..Len(a) : SameMat(a[k], b[k])

\* ---- L sites as one: the terms that start within a block, as one term on two blocks
RECURSIVE BlockTerm(_, _, _, _, _)
BlockTerm(h, m, q, L, k) ==     \* terms starting at the first k sites
  IF k = 0 THEN MZero(PowI(q, 2 * L), PowI(q, 2 * L))
  ELSE TLCEval(MAdd(BlockTerm(h, m, q, L, k - 1),
                    MKron(MKron(MEye(PowI(q, k - 1)), h), MEye(PowI(q, 2 * L - (k - 1) - m)))))
Blocked(e, o2, o, h, m, fr) ==
  LET T == JoinN(o.A, 1, o.L) IN
  IF o2.L # 1 \/ o2.q # PowI(o.q, o.L) \/ o2.D # o.D THEN {"dimensions"}
  ELSE IF o.L = 1 THEN Cl(CloseTT(o2.A[1], o.A[1], 2), "state") \cup Cl(e.hm = h /\ m = e.m, "hamiltonian")
  ELSE Cl(IF e.upd = 0 THEN CloseTT(o2.A[1], T, 64) ELSE SameU(<<T>>, o2.A), "state")
       \cup Cl(e.m = 2 /\ Rows(e.hm) = o2.q * o2.q /\ CloseMT(e.hm, BlockTerm(h, m, o.q, o.L, o.L), 64), "hamiltonian")
       \cup (IF e.upd = 0 THEN {} ELSE StoredU(o2) \cup EnergyU(o2, e.hm, 2)
             \cup (IF fr THEN Cl(CloseC(o2.he, <<o.L * o.he[1], o.L * o.he[2]>>), "energy-per-site") ELSE {}))

\* ---- a larger bond: the old tensors in the first rows and columns, nothing in the last
Core(A, D) == [k \in 1..Len(A) |-> BlockU(A[k], 1, D, 1, D)]
CoreM(M, D) == [a \in 1..D |-> [b \in 1..D |-> M[a][b]]]
PartMax(T, part) == TLCEval(LET S == {0} \cup UNION {{Abs(T[s][a][b][part]) : a \in 1..Rows(T[s]), b \in 1..Cols(T[s])} : s \in 1..Len(T)} IN
  CHOOSE x \in S : \A y \in S : y <= x)
Sides(T, D, D2) == <<BlockU(T, 1, D, D + 1, D2), BlockU(T, D + 1, D2, 1, D)>>
Padded(o2, A, D, D2, re, im) ==   \* re[k], im[k]: how large the noise may be
  IF o2.D # D2 THEN {"dimensions"} ELSE
  Cl(\A k \in 1..o2.L : CloseTT(BlockU(o2.A[k], 1, D, 1, D), A[k], 2), "old-tensors")
  \cup (IF D2 = D THEN {} ELSE
        Cl(\A k \in 1..o2.L : \A s \in 1..o2.q : MMax(BlockU(o2.A[k], D + 1, D2, D + 1, D2)[s]) <= 2, "corner-blocks")
        \cup Cl(\A k \in 1..o2.L : \A x \in 1..2 : LET T == Sides(o2.A[k], D, D2)[x] IN
                  PartMax(T, 1) <= re[k] + 8 /\ PartMax(T, 2) <= im[k] + 8, "noise"))

\* ---- another site dimension: state s becomes state s + off
Requed(o2, A, q2, off) ==
  IF o2.q # q2 THEN {"dimensions"} ELSE
  Cl(\A k \in 1..o2.L : \A s \in 1..q2 :
       IF s - off \in 1..Len(A[k]) THEN SameMat(o2.A[k][s], A[k][s - off]) ELSE MMax(o2.A[k][s]) = 0, "state")

\* ---- what was exported (sv), in another object
Imported(e, o2, sv) ==
  CASE e.how = "same" -> Cl(o2.D = Len(sv.A[1][1]), "dimensions") \cup Cl(o2.L = Len(sv.A) /\ \A k \in 1..o2.L : CloseTT(o2.A[k], sv.A[k], 2), "state")
    [] e.how = "expand" -> Padded(o2, sv.A, Len(sv.A[1][1]), e.D2, e.re, e.im)
    [] e.how = "q" -> Requed(o2, sv.A, e.q2, 0)
    [] e.how = "truncate" -> Cl(o2.D = e.D2, "dimensions") \cup StoredU(o2) \cup CanonU(o2, e.symm)
                             \cup (IF e.rank <= e.D2 THEN Cl(SameU(sv.A, o2.A), "state") ELSE {})
    [] OTHER -> {"unknown-event"}
=============================================================================
