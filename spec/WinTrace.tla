------------------------------ MODULE WinTrace ------------------------------
(***************************************************************************)
(* The window as a transition system on the infinite state it stands for   *)
(* (P21).  st.o is what the object stored last, st.sv what was saved.      *)
(***************************************************************************)
EXTENDS Window
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i, st

SameTen(A, B) == Len(A) = Len(B) /\ \A n \in 1..Len(A) : CloseTT(A[n], B[n], 2)
UnitW(o) == CloseC(NormW(o), C1)
\* whatever else happens, the chains on both sides stay the states they were
Chains(p, o) == Cl(SameU(p.ul.A, o.ul.A) /\ SameU(p.ur.A, o.ur.A), "bulk-state")
UpdatedW(p, o, restore, norm) ==
  Cl(SameW(p, o, 0), "state") \cup Chains(p, o) \cup EnvW(o) \cup BulksW(o)
  \cup (IF restore = 1 \/ norm = 1 THEN Cl(UnitW(o), "norm") ELSE Cl(CloseC(NormW(o), NormW(p)), "norm-changed"))
  \cup (IF restore = 1 THEN CanonW(o) ELSE {})

Change(e, o) ==
  LET p == st.o IN
  CASE e.op = "construct" ->      \* the window repeats the left block
         Cl(o.N = e.N /\ \A n \in 1..e.N : SameTen(<<o.A[n]>>, <<o.ul.A[((n - 1) % o.ul.L) + 1]>>), "tensors")
         \cup Cl(SameU(e.AL, o.ul.A) /\ SameU(e.AR, o.ur.A), "bulk-state")
    [] e.op = "from" ->
         Cl(SameTen(e.A, o.A), "tensors") \cup Cl(SameU(e.AL, o.ul.A) /\ SameU(e.AR, o.ur.A), "bulk-state") \cup EnvW(o) \cup BulksW(o)
    [] e.op \in {"poke", "centre"} -> {}
    [] e.op = "update" -> UpdatedW(p, o, e.restore, e.norm)
    [] e.op = "renorm" -> Cl(SameW(p, o, 0), "state") \cup Chains(p, o) \cup EnvW(o) \cup Cl(UnitW(o), "norm")
    [] e.op = "op" ->
         LET p2 == [p EXCEPT !.A[e.n] = TOp(e.o, p.A[e.n])] IN
         IF e.upd = 1 THEN UpdatedW(p2, o, 1, 1) ELSE Cl(CloseT(o.A[e.n], p2.A[e.n]), "tensor") \cup Cl(SameW(p2, o, 0), "state")
    [] e.op = "grow" ->           \* m blocks: the left ones shift the sites
         LET m == e.m * (IF e.left = 1 THEN p.ul.L ELSE p.ur.L) IN
         Cl(o.N = p.N + m, "length") \cup Chains(p, o)
         \cup Cl(SameW(p, o, IF e.left = 1 THEN m ELSE 0), "state")
         \cup Cl(o.grown = (IF e.left = 1 THEN <<p.grown[1] + m, p.grown[2]>> ELSE <<p.grown[1], p.grown[2] + m>>), "grown-count")
    [] e.op = "load" ->
         LET s == st.sv IN
         Cl(o.N = s.N /\ SameW(s, o, 0), "state") \cup Cl(SameU(s.ul.A, o.ul.A) /\ SameU(s.ur.A, o.ur.A), "bulk-state") \cup EnvW(o) \cup BulksW(o)
         \cup (IF e.upd = 1 THEN Cl(UnitW(o), "norm") \cup CanonW(o) ELSE {})
         \cup (IF e.counts = 1 THEN Cl(o.grown = s.grown, "grown-count") ELSE {})
    [] e.op = "still" ->
         Cl(SameTen(p.A, o.A) /\ SameTen(p.ul.A, o.ul.A) /\ SameTen(p.ur.A, o.ur.A) /\ o.D = p.D, "state-changed")
         \cup Cl(\A n \in 1..(o.N + 2) : MDist(o.l[n], p.l[n]) <= 2 /\ MDist(o.r[n], p.r[n]) <= 2, "environments-changed")
    [] OTHER -> {"unknown-event"}

\* Schmidt coefficients of the cut behind site n
SchmidtW(o, n, lam) ==
  LET m == MMul(LeftW(o, n), RightW(o, n))  d == Max2(Rows(m), Len(lam))  ps == PowerSums(m, m, d) IN
  Cl(Len(lam) = Rows(m), "count")
  \cup Cl(\A j \in 1..d : CDist(PowSum(lam, j, Len(lam)), ps[j]) <= TOLV, "spectrum")
  \cup Cl(\A j \in 1..Len(lam) : lam[j][1] >= -256 /\ Abs(lam[j][2]) <= 1024, "not-a-weight")
Query(e) ==
  LET o == st.o IN
  CASE e.op = "ev" -> Cl(CloseC(e.out, ExW(o, e.o, e.n, e.m)), "value")
    [] e.op = "pair" -> Cl(CloseC(e.out, PairW(o, e.o, e.p, e.n, e.d)), "value")
    [] e.op = "pairs" -> Cl(Len(e.out) = e.d + 1 /\ \A j \in 0..e.d : CloseC(e.out[j + 1], PairW(o, e.o, e.p, e.n, j)), "value")
    [] e.op = "corr" ->
         Cl(Len(e.out) = e.d + 1 /\ \A j \in 0..e.d :
              CloseC(e.out[j + 1], CSub(PairW(o, e.o, e.p, e.n, j), CMul(ExW(o, e.o, e.n, 1), ExW(o, e.p, e.n + j, 1)))), "value")
    [] e.op = "string" -> Cl(Len(e.out) = e.d /\ \A j \in 1..e.d : CloseC(e.out[j], StringW(o, e.o, e.n, j)), "value")
    [] e.op = "mpo" -> Cl(CloseC(e.out, ExMpoW(o, e.W, e.n)), "value")
    [] e.op = "rho1" -> Cl(CloseM(e.out, RhoW(o, e.n, 1)), "value")
    [] e.op = "rho2" -> Cl(CloseM(e.out, IF e.m = e.n + 1 THEN RhoW(o, e.n, 2) ELSE RhoPairW(o, e.n, e.m)), "value")
    [] e.op = "schmidt" -> SchmidtW(o, e.n, e.out)
    [] e.op = "entropy" -> Cl(e.out.S[1] >= -256 /\ Abs(e.out.S[2]) <= 256 /\ Abs(e.out.S[1] - Entropy(e.out.lam)) <= 8192, "value") \cup SchmidtW(o, e.n, e.out.lam)
    [] e.op = "overlap" -> Cl(OverlapOk(o, e.other, e.out), "value")
    [] e.op = "overlap0" -> Cl(CAbs2(e.out) <= 512, "value")
    [] e.op = "get" -> Cl(CloseT(e.out.A, SiteW(o, e.n)), "tensor") \cup Cl(CloseM(e.out.l, LeftW(o, e.n)), "left-environment")
         \cup Cl(CloseM(e.out.r, RightW(o, e.n)), "right-environment")
         \cup Cl(e.out.D = TCols(SiteW(o, e.n)) /\ e.out.q = Len(SiteW(o, e.n)), "dimensions")
    [] OTHER -> {"unknown-event"}

ChangeOps == {"construct","from","poke","centre","update","renorm","op","grow","load","still"}
Verdict(e) ==
  IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op = "save" THEN {}
  ELSE IF e.op \in ChangeOps THEN (IF ~ShapesW(e.out) THEN {"shapes"} ELSE Change(e, e.out))
  ELSE Query(e)
After(e) ==
  IF Has(e, "exc") THEN st
  ELSE IF e.op = "save" THEN [st EXCEPT !.sv = st.o]
  ELSE IF e.op \notin (ChangeOps \ {"still"}) THEN st
  ELSE [st EXCEPT !.o = e.out]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = [o |-> <<>>, sv |-> <<>>]
Next ==
  LET e == Traces[tid].ev[i + 1] IN
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(e) : PrintT(<<"FAIL", tid, i + 1, cl>>)
  /\ st' = After(e)
=============================================================================
