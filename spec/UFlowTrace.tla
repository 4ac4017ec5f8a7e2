----------------------------- MODULE UFlowTrace ------------------------------
(***************************************************************************)
(* A uniform chain evolving under a translated local term (P17-P20).       *)
(*   st.o   what the object stored last                                    *)
(*   st.h   the term, an operator on st.m sites                            *)
(*   st.fr  the stored environments are promised to be those of the tensors*)
(*   st.ks  directions of a Runge-Kutta step so far, st.pairs the full     *)
(*          two-site parts of a growing step                               *)
(*   st.sv  what was exported or saved last                                *)
(***************************************************************************)
EXTENDS UTangent
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i, st

SameTen(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : CloseTT(A[k], B[k], 2)
UpdatedU(e, o, A) ==
  Cl(SameU(A, o.A), "state") \cup StoredU(o)
  \cup (IF st.fr THEN Cl(SameRho(st.o, o), "density-matrices") ELSE {}) \cup (IF e.restore = 1 THEN CanonU(o, e.symm) ELSE {})
  \cup (IF KShapes(o) THEN EnergyU(o, st.h, st.m) ELSE {"energy-environment-shapes"})

\* ---- steps
CInv(z) == LET d2 == CAbs2(z) IN <<RDiv(z[1], d2), RDiv(-z[2], d2)>>
Implied(o, A2, dtau) == TLCEval([k \in 1..o.L |-> TScale(CInv(dtau), TSub(o.A[k], A2[k]))])
StepTo(A, B, c) == TLCEval([k \in 1..Len(A) |-> TSub(A[k], TScale(c, B[k]))])
TOLB == 16 * 2048
EvEnergy(o) == Density(o, st.h, st.m)[1]
\* a term a x 1 + 1 x b generates independent rotations of the sites: a matrix product state stays one, exactly
RECURSIVE ExpM(_, _, _, _)
ExpM(acc, term, M, j) ==
  IF j > 24 THEN acc
  ELSE LET t == TLCEval(MScale(<<ONE \div j, 0>>, MMul(term, M))) IN ExpM(TLCEval(MAdd(acc, t)), t, M, j + 1)
Evolved(A, one, dtau) == LET U == ExpM(MEye(Rows(one)), MEye(Rows(one)), MScale(CNeg(dtau), one), 1) IN
  TLCEval([k \in 1..Len(A) |-> TOp(U, A[k])])
RealTime(c) == Abs(c[1]) <= 2
ImagTime(c) == Abs(c[2]) <= 2 /\ c[1] > 0

GrowFull(e, o2) ==
  LET o == st.o IN
  IF o2.D < o.D \/ ~UShapes(o2) THEN {"dimensions"} ELSE
  LET B == Implied(o, CoreU(o, o2), e.dtau)
      \* (nothing to add only where the force has no part outside of the tangent space)
      T == TLCEval([k \in 1..o.L |-> IF o2.D = o.D THEN [x \in 1..(o.q * o.q) |-> MZero(o.D, o.D)]
                                      ELSE PairU2(o, o2, k, CNeg(CInv(e.dtau)))]) IN
  Cl(CornersU(o, o2), "corner-blocks") \cup DirectionU(o, B, st.h, st.m, e.X, TOLB)
  \cup Cl(\A k \in 1..o.L : PairGaugeU(o, T[k], k, TOLB), "pair-gauge")
  \cup (IF e.Y = <<>> THEN {} ELSE Cl(\A k \in 1..o.L : PairNormal(o, T[k], st.h, st.m, k, e.Y[k], e.Z[k], TOLB), "pair-not-captured"))
  \cup Cl(\A k \in 1..o.L : CDist(e.etaBBsq[k], PairDot(o, T[k], T[k], k)) <= 4096, "pair-norms")
  \cup Cl(Abs(RMul(e.etaBB[1], e.etaBB[1]) - SumRe(e.etaBBsq, o.L)) <= 1024, "pair-norm")
TopSum(s, n) == IF n = 0 THEN 0 ELSE SumRe([j \in 1..n |-> CR(RMul(s[j], s[j]))], n)
GrowLim(e, o2) ==
  LET o == st.o  lim == Max2(0, IF e.Dmax = 0 THEN e.dDmax ELSE Min2(e.dDmax, e.Dmax - o.D)) IN
  IF o2.D < o.D \/ ~UShapes(o2) THEN {"dimensions"} ELSE
  LET B == Implied(o, CoreU(o, o2), e.dtau)
      dD == o2.D - o.D
      T == TLCEval([k \in 1..o.L |-> PairU2(o, o2, k, CNeg(CInv(e.dtau)))])
      F == st.pairs
      sq(k) == [j \in 1..Len(e.sv[k]) |-> CR(RMul(e.sv[k][j], e.sv[k][j]))] IN
  Cl(dD = Min2(lim, o.D * (o.q - 1)), "limit")
  \cup Cl(CornersU(o, o2), "corner-blocks") \cup DirectionU(o, B, st.h, st.m, e.X, TOLB)
  \cup (IF dD = 0 \/ F = <<>> THEN {} ELSE
     Cl(\A k \in 1..o.L :
          LET rho == PairRho(o, F[k], k)  n == Len(e.sv[k])  ps == PowerSums(rho, rho, n) IN
          \A j \in 1..n : CDist(PowSum(sq(k), j, n), ps[j]) <= 8192, "singular-values")
     \cup Cl(\A k \in 1..o.L : Abs(PairDot(o, T[k], T[k], k)[1] - TopSum(e.sv[k], Min2(dD, Len(e.sv[k])))) <= 4096, "not-the-largest")
     \cup Cl(\A k \in 1..o.L : CDist(PairDot(o, T[k], TSub(F[k], T[k]), k), CZ) <= 4096, "not-a-part")
     \cup Cl(\A k \in 1..o.L : CDist(e.etaBBsq[k], PairDot(o, F[k], F[k], k)) <= 4096, "pair-norms"))

SameUpToPhase(T, U) ==
  LET T1 == Col(Flat([s \in 1..Len(T) |-> Flat(T[s])]))  U1 == Col(Flat([s \in 1..Len(U) |-> Flat(U[s])]))
      z == MDot(U1, T1)  n2 == MDot(U1, U1)  n1 == MDot(T1, T1) IN
  /\ CDist(n1, n2) <= 1024 /\ CDist(CMul(z, CConj(z)), CMul(n1, n2)) <= 8192

Change(e, o) ==
  LET A == st.o.A IN
  CASE e.op \in {"start", "poke"} -> {}
    [] e.op = "from" -> Cl(SameU(e.T, o.A), "state")
         \cup (IF e.upd = 1 THEN StoredU(o) \cup (IF KShapes(o) THEN EnergyU(o, e.h, e.m) ELSE {"energy-environment-shapes"}) ELSE {})
    [] e.op = "update" -> UpdatedU(e, o, A) \cup (IF e.trunc = 0 THEN Cl(o.D = st.o.D, "dimensions") ELSE {})
    [] e.op = "ham" -> Cl(SameTen(A, o.A), "state-changed")
    [] e.op = "stage" -> Cl(LET A1 == StepTo(e.A0, st.ks[Len(st.ks)], e.c) IN \A k \in 1..o.L : CloseTT(A1[k], o.A[k], 64), "stage")
    [] e.op = "staged" -> UpdatedU(e, o, A)
    [] e.op = "step" ->
         LET B == Implied(st.o, o.A, e.dtau) IN
         DirectionU(st.o, B, st.h, st.m, e.X, TOLB)
         \cup Cl(o.D = st.o.D, "dimensions")
    [] e.op = "step_given" -> Cl(\A k \in 1..o.L : CloseT(o.A[k], StepTo(A, e.B, e.dtau)[k]), "state")
                              \cup Cl(e.B = e.B2, "given-direction-changed")
    [] e.op = "rk4" ->
         LET g == <<e.dtau[1] \div 6, e.dtau[2] \div 6>>
             two == <<2 * g[1], 2 * g[2]>>
             A2 == StepTo(StepTo(StepTo(StepTo(e.A0, st.ks[1], g), st.ks[2], two), st.ks[3], two), st.ks[4], g) IN
         Cl(\A k \in 1..o.L : CloseTT(o.A[k], A2[k], 512), "state")
         \cup Cl(e.B = e.B2, "given-direction-changed")
         \cup (IF e.one = <<>> THEN {} ELSE Cl(SameU(Evolved(e.A0, e.one, e.dtau), o.A), "not-exact"))
    [] e.op = "grow" -> GrowLim(e, o)
    [] e.op = "after" ->     \* the step's result, brought up to date
         UpdatedU(e, o, A)
         \cup (IF e.kind = "rk4" /\ RealTime(e.dtau) THEN Cl(Abs(o.he[1] - e.he0[1]) <= 4096, "energy-not-conserved") ELSE {})
         \cup (IF e.kind = "rk4" /\ ImagTime(e.dtau) THEN Cl(o.he[1] <= e.he0[1] + 256, "energy-rises") ELSE {})
         \cup (IF e.kind = "cg" THEN Cl(o.he[1] <= e.he0[1] + 256, "energy-rises") ELSE {})
    [] e.op = "aligned" -> \* at most a common phase
         Cl(\A k \in 1..o.L : SameUpToPhase(A[k], o.A[k]), "state-changed")
    \* -- conversions
    [] e.op = "block" -> Blocked(e, o, st.o, st.h, st.m, st.fr)
    [] e.op = "from_mps" -> Cl(SameTen(A, o.A), "state") \cup Cl(SameEnv(st.o.l, o.l) /\ SameEnv(st.o.r, o.r), "environments")
         \cup Cl(e.set = e.set2, "settings")
    [] e.op = "other" -> {}
    [] e.op = "expand" -> IF e.D2 >= st.o.D THEN Padded(o, A, st.o.D, e.D2, e.re, e.im)
                          ELSE Cl(SameTen(A, o.A) /\ o.D = st.o.D, "state-changed")
    [] e.op = "setq" -> Requed(o, A, e.q2, e.off) \cup Cl(SameEnv(st.o.l, o.l) /\ SameEnv(st.o.r, o.r), "environments")
    [] e.op = "import" -> Cl(e.ret, "returned") \cup Imported(e, o, st.sv) \cup Cl(e.ud = st.sv.ud, "userdata")
    [] e.op = "load" -> Cl(e.ret, "returned") \cup Cl(e.ud = st.sv.ud, "userdata")
         \cup Cl(o.L = Len(st.sv.A) /\ o.D = Len(st.sv.A[1][1]) /\ o.q = Len(st.sv.A[1]), "dimensions")
         \cup Cl(SameU(st.sv.A, o.A), "state") \cup StoredU(o) \cup CanonU(o, e.symm)
         \cup (IF KShapes(o) THEN EnergyU(o, st.h, st.m) ELSE {"energy-environment-shapes"})
    [] e.op = "refused" -> Cl(~e.ret, "returned") \cup Cl(SameTen(A, o.A) /\ o.D = st.o.D, "state-changed")
    [] e.op = "still" ->
         Cl(SameTen(A, o.A) /\ o.D = st.o.D, "state-changed")
         \cup Cl(\A n \in 1..o.L : MDist(o.l[n], st.o.l[n]) <= 2 /\ MDist(o.r[n], st.o.r[n]) <= 2, "environments-changed")
         \cup Cl(\A n \in 1..o.L : MDist(o.K[n], st.o.K[n]) <= 2, "energy-environments-changed")
    [] OTHER -> {"unknown-event"}

\* -- the other chain of a kink, or the same one
Donor(e) == IF e.d = <<>> THEN st.o ELSE e.d[1]
DonorOk(o, d) == Cl(EnvU(d) /\ UnitU(d), "witness") \cup Cl(CloseC(Density(d, st.h, st.m), o.he), "witness")
IsHerm(H) == CloseMT(MAdj(H), H, 8192)
\* y^+ H x is what the Hamiltonian does between the tangent vectors of x and y, in an orthonormal system
Matrix(o, d, e, p) ==
  Cl(GaugeT(d, p.B, TOLB) /\ GaugeT(d, p.C, TOLB), "tangent-gauge")
  \cup Cl(CloseCT(Metric(o, d, p.B, p.C), MDot(Col(p.y), Col(p.x)), 4096) /\ CloseCT(Metric(o, d, p.B, p.B), MDot(Col(p.x), Col(p.x)), 4096), "tangent-metric")
  \cup Cl(SeriesOk(o, d, e.ph, p.B, p.C, [X |-> p.X, Z |-> p.Z]), "witness")
  \cup Cl(CloseCT(p.v, Element(o, d, st.h, st.m, e.ph, p.B, p.C, [X |-> p.X, Z |-> p.Z, K |-> e.K, KL |-> e.KL]), 8192), "matrix-element")

Query(e) ==
  LET o == st.o IN
  CASE e.op = "ev" -> Cl(CloseC(e.out, ExU(o, e.o, e.k, e.m)), "value")
    [] e.op = "kl" -> Cl(CloseC(e.out.h, Density(o, st.h, st.m)), "density")
         \cup (IF Len(e.out.K) = o.L /\ (\A k \in 1..o.L : Rows(e.out.K[k]) = o.D /\ Cols(e.out.K[k]) = o.D)
               THEN Cl(KLeftU(o, e.out.K, st.h, st.m), "left-energy-environments") ELSE {"shapes"})
    [] e.op = "ppinv" -> Cl(PinvOk(o, o.A, IF e.B = <<>> THEN o.A ELSE e.B, e.x, e.out, e.ph, e.left, e.pseudo), "value")
    [] e.op = "pinvmat" -> Cl(PinvMat(o, o.A, IF e.B = <<>> THEN o.A ELSE e.B, e.out, e.ph, e.pseudo), "value")
    [] e.op = "flow" -> DirectionU(o, e.out.B, st.h, st.m, e.X, TOLB)
         \cup (IF ShapesBU(o, e.out.B) /\ e.set = 1 THEN EtasU(o, e.out.B, e.out.sq, e.out.eta) ELSE {})
    [] e.op = "grow_full" -> GrowFull(e, e.out)
    [] e.op = "export" -> Cl(SameTen(o.A, e.A), "state") \cup Cl(SameMat(e.l, o.l[o.L]) /\ SameMat(e.r, o.r[o.L]), "environments")
    \* -- tangent vectors
    [] e.op = "overlap" -> Cl(CellX(o, e.B, e.X, e.ph) /\ CellZ(o, e.C, e.Z, e.ph), "witness")
         \cup Cl(CloseCT(e.out, Overlap(o, e.B, e.C, e.ph, e.X, e.Z), 4096), "value")
    [] e.op = "gaugefix" -> Cl(CellZ(o, e.C, e.Z, e.ph), "witness")
         \cup (IF ~ShapesBU(o, e.out.B) \/ ~ShapesBU(o, e.C) THEN {"direction-shapes"} ELSE
               Cl(GaugeB(o, e.out.B, TOLB), "gauge") \cup Cl(GaugeB(o, e.C, TOLB), "probe")
               \cup Cl(CloseCT(OnSite(o, e.out.B, e.C), Overlap(o, e.B, e.C, e.ph, [k \in 1..o.L |-> MZero(o.D, o.D)], e.Z), 8192), "value"))
    [] e.op = "excited" -> LET d == Donor(e) IN
         DonorOk(o, d)
         \cup Cl(IsHerm(e.out.H), "not-hermitian")
         \cup Cl(KRightW(d, e.K, st.h, st.m, o.he) /\ KLeftW(o, e.KL, st.h, st.m, o.he), "witness")
         \cup UNION {Matrix(o, d, e, e.pairs[j]) : j \in 1..Len(e.pairs)}
         \cup Cl(Unitary(e.V, 4096) /\ EigenOf(e.out.H, e.out.w, e.V, 16384), "eigenvalues")
         \cup (IF e.out.V = <<>> THEN {} ELSE Cl(Unitary(e.out.V, 4096) /\ EigenOf(e.out.H, e.out.w, e.out.V, 16384), "eigenvectors"))
         \cup Cl(Ascending(e.out.w, 256), "order")
    [] e.op = "excite" -> Cl(Chosen(e.W, e.out.w, e.which, 8192), "eigenvalues")
         \cup (IF e.out.V = <<>> THEN {} ELSE Cl(Unitary(e.out.V, 4096), "eigenvectors"))
         \cup (IF e.pairs = <<>> THEN {} ELSE LET d == Donor(e) IN
               DonorOk(o, d)
               \cup Cl(KRightW(d, e.K, st.h, st.m, o.he) /\ KLeftW(o, e.KL, st.h, st.m, o.he), "witness")
               \cup UNION {Matrix(o, d, e, e.pairs[j]) : j \in 1..Len(e.pairs)})
    [] e.op = "tangent1" -> LET T == WinTen(o.A[1], Donor(e).A[1], e.B, e.nb, 2 * e.dn + 1) IN
         Cl(Len(e.out) = 2 * e.dn + 1 /\ \A n \in 1..Len(e.out) : CloseC(e.out[n], WinEx(o.l[1], Donor(e).r[1], T, <<<<n, e.o1>>>>)), "value")
    [] e.op = "tangent2" -> LET T == WinTen(o.A[1], o.A[1], e.B, e.dn + 1, 2 * e.dn + 1) IN
         Cl(Len(e.out) = 2 * e.dn /\ \A n \in 1..Len(e.out) : CloseC(e.out[n], MTrace(MMul(WinPair(o.l[1], T, e.o1, n, 1), o.r[1]))), "value")
    [] e.op = "tangentc" -> LET T == WinTen(o.A[1], Donor(e).A[1], e.B, e.nb, 2 * e.dn + 1) IN
         Cl(Len(e.out) = 2 * e.dn + 1
            /\ CloseC(e.out[1], WinEx(o.l[1], Donor(e).r[1], T, <<<<1, MMul(e.o1, e.o2)>>>>))
            /\ \A n \in 2..Len(e.out) : CloseC(e.out[n], WinEx(o.l[1], Donor(e).r[1], T, <<<<1, e.o1>>, <<n, e.o2>>>>)), "value")
    [] e.op = "cg" -> Cl(SameU(o.A, e.out.A), "state") \cup Cl(e.out.tau >= 0, "step")
    [] OTHER -> {"unknown-event"}

ChangeOps == {"aligned","start","poke","from","update","ham","stage","staged","step","step_given","rk4","grow","after","still",
              "block","from_mps","other","expand","setq","import","load","refused"}
Fresh(e) ==
  CASE e.op \in {"update","staged","after"} -> TRUE
    [] e.op = "start" -> FALSE
    [] e.op = "from" -> e.upd = 1
    [] e.op \in {"still","refused"} -> st.fr
    [] e.op = "block" -> IF e.upd = 1 THEN TRUE ELSE st.fr /\ st.o.L = 1
    [] e.op \in {"load"} -> TRUE
    [] OTHER -> FALSE
Verdict(e) ==
  IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op \in ChangeOps THEN (IF ~UShapes(e.out) THEN {"shapes"} ELSE Change(e, e.out))
  ELSE Query(e)
After(e) ==
  IF Has(e, "exc") THEN st
  ELSE IF e.op = "export" THEN [st EXCEPT !.sv = [A |-> e.A, ud |-> e.ud]]
  ELSE IF e.op = "flow" THEN (IF Has(e, "stage") THEN [st EXCEPT !.ks = (IF e.stage = 1 THEN <<>> ELSE @) \o <<e.out.B>>] ELSE st)
  ELSE IF e.op = "grow_full" THEN
    (IF UShapes(e.out) /\ e.out.D > st.o.D
     THEN [st EXCEPT !.pairs = [k \in 1..st.o.L |-> PairU2(st.o, e.out, k, CNeg(CInv(e.dtau)))]] ELSE [st EXCEPT !.pairs = <<>>])
  ELSE IF e.op \notin (ChangeOps \ {"still"}) THEN st
  ELSE [st EXCEPT !.o = e.out, !.fr = Fresh(e), !.h = IF Has(e, "h") THEN e.h ELSE IF Has(e, "hm") THEN e.hm ELSE @, !.m = IF Has(e, "m") THEN e.m ELSE @]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = [o |-> <<>>, h |-> <<>>, m |-> 0, fr |-> FALSE, ks |-> <<>>, pairs |-> <<>>, sv |-> <<>>]
Next ==
  LET e == Traces[tid].ev[i + 1] IN
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(e) : PrintT(<<"FAIL", tid, i + 1, cl>>)
  /\ st' = After(e)
=============================================================================
