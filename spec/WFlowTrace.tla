----------------------------- MODULE WFlowTrace ------------------------------
(***************************************************************************)
(* A window that evolves (P22).                                            *)
(*   st.o  what the object stored last       st.H, hl, hr, m  the terms    *)
(*   st.fr the stored environments are promised to be those of the tensors *)
(*   st.ks directions of a Runge-Kutta step so far                         *)
(*   st.pairs the whole two-site parts of a growing step                   *)
(***************************************************************************)
EXTENDS WFlow
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i, st

SameTen(A, B) == Len(A) = Len(B) /\ \A n \in 1..Len(A) : CloseTT(A[n], B[n], 2)
UnitW(o) == CloseC(NormW(o), C1)
Chains(p, o) == Cl(SameU(p.ul.A, o.ul.A) /\ SameU(p.ur.A, o.ur.A), "bulk-state")
Env2(o) == EnvW(o) \cup {"left-" \o x : x \in StoredU(o.ul)} \cup {"right-" \o x : x \in StoredU(o.ur)}
UpdatedW(e, p, o) ==
  Cl(SameW(p, o, 0), "state") \cup Chains(p, o)
  \cup LET v == Env2(o) IN v \cup (IF v # {} THEN {} ELSE EnergyW(o, st.H, st.hl, st.hr, st.m))
  \cup (IF e.restore = 1 \/ e.norm = 1 THEN Cl(UnitW(o), "norm") ELSE {})
  \cup (IF e.restore = 1 THEN CanonW(o) ELSE {})

CInv(z) == LET d2 == CAbs2(z) IN <<RDiv(z[1], d2), RDiv(-z[2], d2)>>
ImpliedA(A, A2, dtau) == TLCEval([k \in 1..Len(A) |-> TScale(CInv(dtau), TSub(A[k], A2[k]))])
StepTo(A, B, c) == TLCEval([k \in 1..Len(A) |-> IF B[k] = <<>> THEN A[k] ELSE TSub(A[k], TScale(c, B[k]))])
TOLB == 16 * 2048
RealTime(c) == Abs(c[1]) <= 2
TopSum(s, n) == IF n = 0 THEN 0 ELSE SumRe([j \in 1..n |-> CR(RMul(s[j], s[j]))], n)

\* the growing step without limits
GrowFull(e, o2) ==
  LET o == st.o  N == WN(o) IN
  IF ~ShapesW(o2) \/ \E n \in 1..(N + 2) : o2.D[n] < o.D[n] THEN {"dimensions"} ELSE
  LET B == ImpliedA(o.A, CoreW(o, o2), e.dtau)  g == CNeg(CInv(e.dtau)) IN
  Cl(CornersW(o, o2), "corner-blocks") \cup DirectionW(o, B, st.H, st.m, e.NL, e.NR, 1, TOLB)
  \cup UNION {LET T == PairTen(o, o2, k, g) IN
       (IF T = <<>> THEN {} ELSE Cl(PairGaugeW(o, T, k, TOLB), "pair-gauge"))
       \cup Cl((NullL(o, k) = 0 \/ NLok(o, e.NL[k], k)) /\ (NullR(o, k + 1) = 0 \/ NRok(o, e.NR[k + 1], k + 1)), "witness")
       \cup Cl(PairWhole(o, T, st.H, st.m, k, e.NL, e.NR, TOLB), "pair-not-captured")
       \cup Cl(CDist(e.perr[k], IF T = <<>> THEN CZ ELSE PairDotW(o, T, T, k)) <= 4096, "projection-error") : k \in 1..(N - 1)}
GrowLim(e, o2) ==
  LET o == st.o  N == WN(o) IN
  IF ~ShapesW(o2) \/ \E n \in 1..(N + 2) : o2.D[n] < o.D[n] THEN {"dimensions"} ELSE
  LET B == ImpliedA(o.A, CoreW(o, o2), e.dtau)  g == CNeg(CInv(e.dtau))
      whole(k) == Min2(NullL(o, k), NullR(o, k + 1))
      some(k) == Len(SelectSeq(e.sv[k], LAMBDA x : x > 64))
      lim(k) == Max2(0, Min2(e.dDmax, e.Dmax - o.D[k + 1])) IN
  Cl(\A k \in 1..(N - 1) : LET d == o2.D[k + 1] - o.D[k + 1] IN d <= Min2(lim(k), whole(k)) /\ d >= Min2(lim(k), some(k)), "limit")
  \cup Cl(CornersW(o, o2), "corner-blocks") \cup DirectionW(o, B, st.H, st.m, e.NL, e.NR, 1, TOLB)
  \cup UNION {LET T == PairTen(o, o2, k, g)  F == st.pairs[k]
                  n == Len(e.sv[k])  sq == [j \in 1..n |-> CR(RMul(e.sv[k][j], e.sv[k][j]))] IN
       IF T = <<>> \/ F = <<>> THEN {}
       ELSE Cl(LET rho == PairRhoW(o, F, k)  ps == PowerSums(rho, rho, n) IN
               \A j \in 1..n : CDist(PowSum(sq, j, n), ps[j]) <= 8192, "singular-values")
            \cup Cl(Abs(PairDotW(o, T, T, k)[1] - TopSum(e.sv[k], Min2(o2.D[k + 1] - o.D[k + 1], n))) <= 4096, "not-the-largest")
            \cup Cl(CDist(PairDotW(o, T, TSub(F, T), k), CZ) <= 4096, "not-a-part") : k \in 1..(N - 1)}

Change(e, o) ==
  LET A == st.o.A IN
  CASE e.op \in {"start", "poke", "ham", "centre"} -> IF e.op # "ham" THEN {} ELSE Cl(SameTen(A, o.A), "state-changed")
    [] e.op = "flat" -> Cl(CDist(o.dH, CZ) <= 1024, "undisturbed-energy")
    \* the chain is an eigenstate of the Hamiltonian
    [] e.op = "rest" -> Cl(SameTen(A, o.A) /\ SameTen(st.o.ul.A, o.ul.A) /\ SameTen(st.o.ur.A, o.ur.A), "not-at-rest")
    [] e.op \in {"update", "staged"} -> UpdatedW(e, st.o, o)
    [] e.op = "grown" ->      \* the window takes in blocks of a chain
         LET mm == e.m * (IF e.left = 1 THEN st.o.ul.L ELSE st.o.ur.L) IN
         Cl(o.N = st.o.N + mm, "length") \cup Chains(st.o, o) \cup Cl(SameW(st.o, o, IF e.left = 1 THEN mm ELSE 0), "state")
    [] e.op = "stage" -> Cl(LET A1 == StepTo(e.A0, st.ks[Len(st.ks)], e.c) IN \A k \in 1..o.N : CloseTT(A1[k], o.A[k], 64), "stage")
    [] e.op = "step" -> DirectionW(st.o, ImpliedA(A, o.A, e.dtau), st.H, st.m, e.NL, e.NR, 1, TOLB) \cup Cl(o.D = st.o.D, "dimensions")
    [] e.op = "step_given" -> Cl(LET A1 == StepTo(A, e.B, e.dtau) IN \A k \in 1..o.N : CloseT(o.A[k], A1[k]), "state")
    [] e.op = "rk4" ->
         LET g == <<e.dtau[1] \div 6, e.dtau[2] \div 6>>  two == <<2 * g[1], 2 * g[2]>>
             A2 == StepTo(StepTo(StepTo(StepTo(e.A0, st.ks[1], g), st.ks[2], two), st.ks[3], two), st.ks[4], g) IN
         Cl(\A k \in 1..o.N : CloseTT(o.A[k], A2[k], 512), "state")
    [] e.op = "grow" -> GrowLim(e, o)
    [] e.op = "after" -> UpdatedW(e, st.o, o)
         \cup (IF e.kind = "rk4" THEN Cl(IF RealTime(e.dtau) THEN Abs(o.dH[1] - e.dH0[1]) <= 4096 ELSE o.dH[1] <= e.dH0[1] + 256,
                                         IF RealTime(e.dtau) THEN "energy-not-conserved" ELSE "energy-rises") ELSE {})
    [] e.op = "still" ->
         Cl(SameTen(A, o.A) /\ SameTen(st.o.ul.A, o.ul.A) /\ SameTen(st.o.ur.A, o.ur.A) /\ o.D = st.o.D, "state-changed")
         \cup Cl(\A n \in 1..(o.N + 2) : MDist(o.l[n], st.o.l[n]) <= 2 /\ MDist(o.r[n], st.o.r[n]) <= 2, "environments-changed")
    [] OTHER -> {"unknown-event"}
Query(e) ==
  CASE e.op = "flow" -> LET w == DirectionW(st.o, e.out.B, st.H, st.m, e.NL, e.NR, e.exact, TOLB) IN
         w \cup Cl(~Has(e, "rest") \/ \A k \in 1..st.o.N : e.out.B[k] = <<>> \/ TMaxN(e.out.B[k]) <= 64, "not-at-rest")
         \cup (IF "direction-shapes" \in w THEN {} ELSE EtasW(st.o, e.out.B, e.out.sq, e.out.eta))
    [] e.op = "grow_full" -> GrowFull(e, e.out)
    [] OTHER -> {"unknown-event"}

ChangeOps == {"start","poke","centre","ham","flat","rest","update","staged","grown","stage","step","step_given","rk4","grow","after","still"}
Verdict(e) ==
  IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op \in ChangeOps THEN (IF ~ShapesW(e.out) THEN {"shapes"} ELSE Change(e, e.out))
  ELSE Query(e)
Rep(x, n) == [j \in 1..n |-> x]
After(e) ==
  IF Has(e, "exc") THEN st
  ELSE IF e.op = "flow" THEN (IF e.stage > 0 THEN [st EXCEPT !.ks = (IF e.stage = 1 THEN <<>> ELSE @) \o <<e.out.B>>] ELSE st)
  ELSE IF e.op = "grow_full" THEN
    (IF ShapesW(e.out) THEN [st EXCEPT !.pairs = [k \in 1..(st.o.N - 1) |-> PairTen(st.o, e.out, k, CNeg(CInv(e.dtau)))]] ELSE st)
  ELSE IF e.op \notin (ChangeOps \ {"still", "flat", "rest"}) THEN st
  ELSE IF e.op = "start" THEN [st EXCEPT !.o = e.out, !.H = e.H, !.hl = e.hl, !.hr = e.hr, !.m = e.m]
  ELSE IF e.op = "ham" THEN [st EXCEPT !.o = e.out, !.H = e.H]
  ELSE IF e.op = "grown" THEN [st EXCEPT !.o = e.out, !.H = IF e.left = 1 THEN Rep(st.hl, e.m * st.o.ul.L) \o @ ELSE @ \o Rep(st.hr, e.m * st.o.ur.L)]
  ELSE [st EXCEPT !.o = e.out]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = [o |-> <<>>, H |-> <<>>, hl |-> <<>>, hr |-> <<>>, m |-> 0, ks |-> <<>>, pairs |-> <<>>]
Next ==
  LET e == Traces[tid].ev[i + 1] IN
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(e) : PrintT(<<"FAIL", tid, i + 1, cl>>)
  /\ st' = After(e)
=============================================================================
