---------------------------- MODULE FiniteTrace -----------------------------
(***************************************************************************)
(* The finite chain as a transition system on the state vector it stands   *)
(* for (P04 - P08).  st holds the vector, the tensors and which stored     *)
(* environments are promised to be those of the tensors; every recorded    *)
(* call must be a transition of this system.                               *)
(***************************************************************************)
EXTENDS FiniteState
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i, st

\* result of a canonicalising update of the vector v
Updated(o, p, v, cf, D) ==
  Cl(SameRay(v, p), "state") \cup Cl(Unit(p), "norm") \cup Canon(o, cf, 1) \cup Stored(o, TRUE, TRUE)
  \cup (IF D = <<>> THEN {} ELSE Cl(DLess(o, D), "dimensions-grew"))
\* an update was requested (u = 1), or the tensors simply change so that the state is v
Maybe(e, o, p, v, D) ==
  IF e.upd = 1 THEN Updated(o, p, v, e.cf, D) ELSE Cl(VDist(p, v) <= TOLV, "state")

\* ---- truncation: keep the d largest entries of the diagonal weight matrix w
Weight(w, a) == w[a][a][1]
Rank(w, a) == Len(SelectSeq([b \in 1..Rows(w) |-> b],
                LAMBDA b : Weight(w, b) > Weight(w, a) \/ (Weight(w, b) = Weight(w, a) /\ b > a)))
Kept(w, d) == SelectSeq([a \in 1..Rows(w) |-> a], LAMBDA a : Rank(w, a) < d)
Slice(T, ra, ca) == [s \in 1..Len(T) |-> [x \in 1..Len(ra) |-> [y \in 1..Len(ca) |-> T[s][ra[x]][ca[y]]]]]
Truncated(o, cf, newD) == TLCEval(
  LET W(n) == IF cf = "right" THEN o.l[n] ELSE o.r[n]
      K == [n \in 1..Len(o.D) |-> IF newD[n] >= o.D[n] THEN [a \in 1..o.D[n] |-> a] ELSE Kept(W(n), newD[n])] IN
  Psi([n \in 1..Len(o.A) |-> Slice(o.A[n], K[n], K[n + 1])]))
CountAbove(w, t) == Len(SelectSeq([a \in 1..Rows(w) |-> a], LAMBDA a : Weight(w, a) > t))

\* ---- transitions
Qs(o) == o.q
Change(e, o, p) ==
  LET A == st.o.A  qs == Qs(st.o) IN
  CASE e.op = "update" ->
         IF e.restore = 1
         THEN Cl(SameRay(st.psi, p), "state") \cup Cl(IF e.norm = 1 THEN Unit(p) ELSE SameNorm(st.psi, p), "norm")
              \cup Canon(o, e.cf, 1) \cup Cl(DLess(o, st.o.D), "dimensions-grew") \cup Stored(o, TRUE, TRUE)
         ELSE Cl(SameRay(st.psi, p), "state") \cup Cl(IF e.norm = 1 THEN Unit(p) ELSE SameNorm(st.psi, p), "norm")
              \cup Stored(o, TRUE, TRUE)
    [] e.op = "rcf" ->
         Cl(SameRay(st.psi, p), "state") \cup Cl(IF e.norm = 1 THEN Unit(p) ELSE SameNorm(st.psi, p), "norm")
         \cup (IF e.qr = 1 THEN Canon(o, "right", e.diag)
               ELSE Cl(OrthoR0(o), "right-orthonormal") \cup (IF e.diag = 1 THEN Cl(DiagL(o), "left-diagonal") ELSE {})) \cup Stored(o, e.diag = 1 \/ e.upd = 1, TRUE) \cup Cl(DLess(o, st.o.D), "dimensions-grew")
    [] e.op = "lcf" ->
         Cl(SameRay(st.psi, p), "state") \cup Cl(IF e.norm = 1 THEN Unit(p) ELSE SameNorm(st.psi, p), "norm")
         \cup (IF e.qr = 1 THEN Canon(o, "left", e.diag)
               ELSE Cl(OrthoL0(o), "left-orthonormal") \cup (IF e.diag = 1 THEN Cl(DiagR(o), "right-diagonal") ELSE {})) \cup Stored(o, TRUE, e.diag = 1 \/ e.upd = 1) \cup Cl(DLess(o, st.o.D), "dimensions-grew")
    [] e.op = "calc_l" -> Cl(SameTensors(o.A, A), "state") \cup Stored(o, TRUE, st.fr)
    [] e.op = "calc_r" -> Cl(SameTensors(o.A, A), "state") \cup Stored(o, st.fl, TRUE)
    [] e.op = "renorm" -> Cl(SameRay(st.psi, p), "state") \cup Cl(Unit(p), "norm") \cup Stored(o, TRUE, e.updr = 1)
    [] e.op = "noise" ->
         IF e.upd = 1 THEN Cl(Unit(p), "norm") \cup Canon(o, e.cf, 1) \cup Stored(o, TRUE, TRUE)
              \cup (IF Abs(VNorm2(st.psi) - ONE) > ONE \div 4 THEN {}
                    ELSE Cl(CAbs2(VDot(st.psi, p)) >= RMul(VNorm2(st.psi), ONE - (ONE \div 50)), "too-noisy"))
         ELSE Cl(Len(o.A) = Len(A) /\ \A n \in 1..Len(A) : CloseTT(o.A[n], A[n], e.fac + 4), "too-noisy")
              \cup Cl(~SameTensors(o.A, A), "no-noise")
    [] e.op = "randomize" ->
         IF e.upd = 1 THEN Cl(Unit(p), "norm") \cup Canon(o, e.cf, 1) \cup Stored(o, TRUE, TRUE)
         ELSE Cl(o.D = st.o.D, "dimensions") \cup Cl(\A n \in 1..Len(A) : Abs(TNorm2(o.A[n]) - ONE) <= 1024, "norm")
    [] e.op = "set" -> Maybe(e, o, p, Psi(e.T), <<>>)
    [] e.op = "op" -> Maybe(e, o, p, Act(e.o, st.psi, qs, e.n, e.n), st.o.D)
    [] e.op = "mpo" -> Maybe(e, o, p, MpoAct(e.W, e.n, st.psi, qs), <<>>)
    [] e.op = "trunc" ->
         LET ref == Truncated(st.o, e.cf, e.newD) IN
         Cl(DLess(o, e.newD), "dimensions") \cup Cl(SameRay(ref, p), "state")
         \cup (IF e.upd = 1 THEN Cl(Unit(p), "norm") \cup Canon(o, e.cf, 1) \cup Stored(o, TRUE, TRUE)
               ELSE Cl(o.D = e.newD, "dimensions") \cup Cl(SameNorm(ref, p), "norm"))
    [] e.op = "auto" ->
         LET W(n) == IF e.cf = "right" THEN st.o.l[n] ELSE st.o.r[n]
             lo == [n \in 1..Len(st.o.D) |-> IF n = 1 THEN 1 ELSE CountAbove(W(n), e.tol + 2)]
             hi == [n \in 1..Len(st.o.D) |-> IF n = 1 THEN 1 ELSE CountAbove(W(n), e.tol - 3)]
             sure == lo = hi
             ref == Truncated(st.o, e.cf, hi) IN
         Cl(DLess(o, hi), "dimensions")
         \cup (IF sure THEN Cl(o.did = (IF hi = st.o.D THEN 0 ELSE 1), "reported") ELSE {})
         \cup Cl(Parallel(ref, p, IF sure THEN TOLV ELSE 16 * TOLV), "state")
         \cup (IF o.did = 0 THEN Cl(SameTensors(o.A, A), "changed-without-truncation") \cup Stored(o, TRUE, TRUE)
               ELSE IF e.upd = 1 THEN Cl(Unit(p), "norm") \cup Canon(o, e.cf, 1) \cup Stored(o, TRUE, TRUE)
               ELSE Cl(\A n \in 1..Len(lo) : o.D[n] >= lo[n], "dimensions"))
    [] e.op = "update_trunc" ->
         Cl(Parallel(st.psi, p, 2 * TOLV), "state") \cup Cl(Unit(p), "norm") \cup Canon(o, e.cf, 1)
         \cup Stored(o, TRUE, TRUE) \cup Cl(DLess(o, st.o.D), "dimensions-grew")
    [] e.op = "load" ->
         IF e.upd = 1 THEN Updated(o, p, st.psi, e.cf, st.o.D)
         ELSE Cl(SameTensors(o.A, A), "state") \cup Cl(o.D = st.o.D, "dimensions")
    [] e.op = "construct" ->
         Cl(o.D = CapD(o.Dreq, o.q), "dimensions") \cup Cl(VMax(p) > 0, "zero-state") \cup Cl(EnvShapes(o), "environment-shapes")
    [] e.op = "poke" -> {}
    [] e.op \in {"still", "after_bad"} ->
         Cl(SameTensors(o.A, A) /\ o.D = st.o.D, "state-changed")
         \cup Cl(\A n \in 1..Len(o.l) : MDist(o.l[n], st.o.l[n]) <= 2 /\ MDist(o.r[n], st.o.r[n]) <= 2, "environments-changed")
    [] OTHER -> {"unknown-event"}

\* ---- queries
RevL(lam, S) == CDist(S, CR(Entropy(lam))) <= 8192
Spectrum(lam, n) ==
  LET qs == Qs(st.o)  N == Len(qs)
      rho == IF n = 0 \/ n = N THEN <<<<CR(VNorm2(st.psi))>>>> ELSE CutRho(st.psi, qs, n)
      m == Max2(Rows(rho), Len(lam))
      ps == PowerSums(rho, rho, m) IN
  Cl(Len(lam) = st.o.D[n + 1], "count")
  \cup Cl(\A k \in 1..m : CDist(PowSum(lam, k, Len(lam)), ps[k]) <= TOLV, "spectrum")
  \cup Cl(\A k \in 1..Len(lam) : lam[k][1] >= -256 /\ Abs(lam[k][2]) <= 1024, "not-a-weight")
Query(e) ==
  LET v == st.psi  qs == Qs(st.o) IN
  CASE e.op = "ev" -> Cl(CloseC(e.out, Ev(e.o, v, qs, e.n, e.m)), "value")
    [] e.op = "pair" -> Cl(CloseC(e.out, VDot(v, ActAll(<<<<e.n, e.o>>, <<e.m, e.p>>>>, 2, v, qs))), "value")
    [] e.op = "pairs" ->
         Cl(Len(e.out) = e.d + 1 /\ \A j \in 0..e.d :
              CloseC(e.out[j + 1], VDot(v, ActAll(<<<<e.n, e.o>>, <<e.n + j, e.p>>>>, 2, v, qs))), "value")
    [] e.op \in {"corr", "corr_ex"} ->
         LET e1 == [j \in 0..e.d |-> Ev(e.o, v, qs, e.n + j, e.n + j)]
             e2 == [j \in 0..e.d |-> Ev(e.p, v, qs, e.n + j, e.n + j)]
             cc == IF e.op = "corr" THEN e.out ELSE e.out.c IN
         Cl(Len(cc) = e.d + 1 /\ \A j \in 0..e.d :
              CloseC(cc[j + 1], CSub(VDot(v, ActAll(<<<<e.n, e.o>>, <<e.n + j, e.p>>>>, 2, v, qs)), CMul(e1[0], e2[j]))), "value")
         \cup (IF e.op = "corr" THEN {}
               ELSE Cl(Len(e.out.e1) = e.d + 1 /\ \A j \in 0..e.d : CloseC(e.out.e1[j + 1], e1[j]), "first-values")
                    \cup Cl(Len(e.out.e2) = e.d + 1 /\ \A j \in 0..e.d : CloseC(e.out.e2[j + 1], e2[j]), "second-values"))
    [] e.op = "string" ->
         Cl(Len(e.out) = e.d /\ \A j \in 1..e.d :
              CloseC(e.out[j], VDot(v, ActAll([x \in 1..j |-> <<e.n + x - 1, e.o>>], j, v, qs))), "value")
    [] e.op = "ev_mpo" -> Cl(CloseC(e.out, VDot(v, MpoAct(e.W, e.n, v, qs))), "value")
    [] e.op = "rho1" -> Cl(CloseM(e.out, Rho1(v, qs, e.n)), "value")
    [] e.op = "rho2" -> Cl(CloseM(e.out, Rho2(v, qs, e.n, e.m)), "value")
    [] e.op = "schmidt" -> Spectrum(e.out, e.n)
    [] e.op = "entropy" ->
         LET rho == IF e.n = 0 \/ e.n = Len(qs) THEN <<<<CR(VNorm2(v))>>>> ELSE CutRho(v, qs, e.n) IN
         IF ~Unit(v) THEN {} ELSE     \* an entropy is only defined for a normalised state
         Cl(e.out[1] >= -256 /\ Abs(e.out[2]) <= 256, "not-an-entropy")
         \* at most log2 of the rank, at least minus log2 of the purity
         \cup Cl(e.out[1] >= -Log2(Max2(MTrace(MMul(rho, rho))[1], 1)) - 8192, "below-purity-bound")
         \cup Cl(e.out[1] <= Log2(ONE * Rows(rho)) + 8192, "above-maximum")
    [] e.op = "entropy_l" -> Spectrum(e.out.lam, e.n) \cup Cl(RevL(e.out.lam, e.out.S), "entropy")
    [] e.op = "inner" -> Cl(CloseC(e.out, VDot(Psi(e.T), v)), "value")
    [] e.op = "maxd" ->
         Cl(e.out = (IF \E n \in 1..Len(st.o.D) : st.o.D[n] < CapD([x \in 1..Len(st.o.D) |-> e.Dmax], qs)[n] THEN 1 ELSE 0), "value")
    [] e.op = "getters" -> Cl(\A j \in 1..Len(e.out) : e.out[j] = 1, "value")
    [] OTHER -> {"unknown-event"}

ChangeOps == {"update","rcf","lcf","calc_l","calc_r","renorm","noise","randomize","set","op","mpo","trunc","auto",
  "update_trunc","load","construct","poke","still","after_bad"}
FreshL(e) ==
  CASE e.op \in {"update","lcf","calc_l","renorm","update_trunc"} -> TRUE
    [] e.op = "rcf" -> e.diag = 1 \/ e.upd = 1
    [] e.op \in {"noise","randomize","set","op","mpo","trunc","auto","load"} -> e.upd = 1
    [] e.op = "calc_r" -> st.fl
    [] OTHER -> FALSE
FreshR(e) ==
  CASE e.op \in {"update","rcf","calc_r","update_trunc"} -> TRUE
    [] e.op = "lcf" -> e.diag = 1 \/ e.upd = 1
    [] e.op = "renorm" -> e.updr = 1
    [] e.op \in {"noise","randomize","set","op","mpo","trunc","auto","load"} -> e.upd = 1
    [] e.op = "calc_l" -> st.fr
    [] OTHER -> FALSE

Verdict(e) ==
  IF e.op = "bad" THEN Cl(Has(e, "exc"), "accepted")
  ELSE IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op \in ChangeOps
       THEN IF ~Shapes(e.out) THEN {"shapes"} ELSE Change(e, e.out, Psi(e.out.A))
       ELSE Query(e)
After(e) ==
  IF Has(e, "exc") \/ e.op \notin (ChangeOps \ {"still", "after_bad"}) \/ (e.op = "load" /\ e.adopt = 0) THEN st
  ELSE TLCEval([o |-> e.out, psi |-> IF Shapes(e.out) THEN Psi(e.out.A) ELSE <<>>, fl |-> FreshL(e), fr |-> FreshR(e)])

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = [o |-> <<>>, psi |-> <<>>, fl |-> FALSE, fr |-> FALSE]
Next ==
  LET e == Traces[tid].ev[i + 1] IN
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(e) : PrintT(<<"FAIL", tid, i + 1, cl>>)
  /\ st' = After(e)
=============================================================================
