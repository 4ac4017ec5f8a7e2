"""Registry: which generator specification, driver and trace specification decide each property."""
CHECKS = {}

CHECKS["P01"] = dict(
    parts=[dict(
        gen=[dict(module="ContractGen", quick=dict(QS="{1,2,3}", DS="{1,2,3}", EXT=0), thorough=dict(QS="{1,2,3}", DS="{1,2,3,4}", EXT=0),
                  simulate=dict(quick=(250, 30), thorough=(2500, 30)))],
        driver="drv_contract", trace="ContractTrace")],
)


def matgen(fam, nq, nt, quick, thorough):
    return dict(module="MatGen", quick=dict(FAM='"%s"' % fam, NMAX=nq), thorough=dict(FAM='"%s"' % fam, NMAX=nt),
                simulate=dict(quick=(quick, 16), thorough=(thorough, 16)))


CHECKS["P02"] = dict(parts=[dict(gen=[matgen("special", 4, 6, 250, 4000)], driver="drv_mat", trace="MatTrace")])
CHECKS["P03"] = dict(parts=[dict(gen=[matgen("factor", 5, 7, 250, 3000), matgen("root", 5, 7, 150, 3000),
                                      matgen("null", 6, 8, 200, 4000), matgen("vsh", 5, 6, 300, 4000)],
                                 driver="drv_mat", trace="MatTrace")])
CHECKS["P14"] = dict(parts=[dict(gen=[matgen("expm", 5, 8, 300, 4000)], driver="drv_mat", trace="MatTrace")])


def fingen(fam, nq, nt, hq, ht, quick, thorough):
    lo = 2 if fam == "trunc" else 1
    return dict(module="FiniteGen", quick=dict(FAM='"%s"' % fam, NMIN=lo, NMAX=nq, HLEN=hq, DIM=32),
                thorough=dict(FAM='"%s"' % fam, NMIN=lo, NMAX=nt, HLEN=ht, DIM=54),
                simulate=dict(quick=(quick, 40), thorough=(thorough, 60)))


def longer(mod, fam, hq, ht, quick, thorough, dim=(128, 256), n=(6, 7, 8)):
    """longer chains and larger bonds than the bulk of the cases has"""
    return dict(module=mod, quick=dict(FAM='"%s"' % fam, NMIN=n[0], NMAX=n[1], HLEN=hq, DIM=dim[0]),
                thorough=dict(FAM='"%s"' % fam, NMIN=n[0], NMAX=n[2], HLEN=ht, DIM=dim[1]),
                simulate=dict(quick=(quick, 30 + hq), thorough=(thorough, 30 + ht)))


FT = dict(driver="drv_finite", trace="FiniteTrace")
CHECKS["P04"] = dict(parts=[dict(gen=[fingen("canon", 5, 5, 8, 16, 350, 4000), longer("FiniteGen", "canon", 4, 6, 50, 400)], **FT)])
CHECKS["P05"] = dict(parts=[dict(gen=[fingen("trunc", 5, 5, 6, 10, 350, 4000), longer("FiniteGen", "trunc", 4, 6, 50, 400)], **FT)])
CHECKS["P06"] = dict(parts=[dict(gen=[fingen("obs", 5, 5, 5, 8, 300, 3000), longer("FiniteGen", "obs", 4, 6, 50, 400)], **FT)])
CHECKS["P07"] = dict(parts=[dict(gen=[fingen("apply", 5, 5, 6, 10, 300, 4000), longer("FiniteGen", "apply", 4, 6, 50, 400)], **FT)])
CHECKS["P08"] = dict(parts=[dict(gen=[fingen("io", 5, 5, 4, 8, 200, 1000), longer("FiniteGen", "io", 4, 6, 50, 400)], **FT)])


def flowgen(fam, nq, nt, hq, ht, quick, thorough):
    return dict(module="FlowGen", quick=dict(FAM='"%s"' % fam, NMIN=2, NMAX=nq, HLEN=hq, DIM=32),
                thorough=dict(FAM='"%s"' % fam, NMIN=2, NMAX=nt, HLEN=ht, DIM=54),
                simulate=dict(quick=(quick, 22 + hq), thorough=(thorough, 22 + ht)))


FLT = dict(driver="drv_flow", trace="FlowTrace")
CHECKS["P09"] = dict(parts=[dict(gen=[flowgen("flow", 5, 5, 5, 9, 250, 3000), longer("FlowGen", "flow", 3, 5, 30, 250)], **FLT)])
CHECKS["P10"] = dict(parts=[dict(gen=[flowgen("step", 5, 5, 4, 8, 250, 3000), longer("FlowGen", "step", 3, 5, 30, 250)], **FLT)])
CHECKS["P12"] = dict(parts=[dict(gen=[flowgen("grow", 4, 5, 4, 8, 350, 3000), longer("FlowGen", "grow", 3, 5, 30, 250)], **FLT)])
CHECKS["P11"] = dict(parts=[dict(gen=[flowgen("split", 4, 5, 4, 8, 200, 2000), longer("FlowGen", "split", 2, 3, 6, 40, dim=(64, 64), n=(6, 6, 6))], **FLT)])
CHECKS["P13"] = dict(parts=[dict(gen=[flowgen("diss", 4, 5, 4, 8, 250, 2000), longer("FlowGen", "diss", 3, 5, 30, 250)], **FLT)])


def unigen(fam, dq, dt, hq, ht, quick, thorough, ls="{1, 2, 3}", d0=1):
    return dict(module="UniGen", quick=dict(FAM='"%s"' % fam, LS=ls, DMIN=d0, DMAX=dq, HLEN=hq),
                thorough=dict(FAM='"%s"' % fam, LS=ls, DMIN=d0, DMAX=dt, HLEN=ht),
                simulate=dict(quick=(quick, 17 + hq), thorough=(thorough, 17 + ht)))


UT = dict(driver="drv_uni", trace="UniTrace")
CHECKS["P15"] = dict(parts=[dict(gen=[unigen("ucanon", 5, 6, 8, 14, 300, 3000), unigen("ucanon", 3, 4, 4, 6, 30, 300, ls="{4, 5}"), unigen("ucanon", 8, 8, 5, 8, 20, 200, ls="{1, 2}", d0=6)], **UT)])
CHECKS["P16"] = dict(parts=[dict(gen=[unigen("uobs", 4, 5, 6, 10, 300, 3000), unigen("uobs", 3, 4, 4, 6, 30, 300, ls="{4, 5}"), unigen("uobs", 6, 6, 4, 6, 15, 150, ls="{1, 2}", d0=5)], **UT)])
UF = dict(driver="drv_uflow", trace="UFlowTrace")
CHECKS["P17"] = dict(parts=[dict(gen=[unigen("uenergy", 4, 5, 6, 10, 300, 3000), unigen("uenergy", 3, 4, 4, 6, 30, 300, ls="{4, 5}"), unigen("uenergy", 6, 6, 4, 6, 15, 150, ls="{1, 2}", d0=5)], **UF)])
CHECKS["P19"] = dict(parts=[dict(gen=[unigen("uconv", 3, 4, 6, 9, 300, 3000), unigen("uconv", 3, 4, 4, 6, 30, 300, ls="{4, 5}")], driver="drv_uconv", trace="UFlowTrace")])
CHECKS["P18"] = dict(parts=[dict(gen=[unigen("uflow", 3, 4, 3, 6, 250, 2500), unigen("uflow", 3, 4, 4, 6, 30, 300, ls="{4, 5}"), unigen("uflow", 5, 6, 4, 6, 15, 150, ls="{1, 2}", d0=4)], **UF)])
CHECKS["P20"] = dict(parts=[dict(gen=[unigen("utang", 3, 3, 3, 5, 200, 2500), unigen("utang", 4, 4, 2, 3, 15, 150, d0=4), unigen("uover", 3, 4, 3, 6, 60, 600)], driver="drv_utang", trace="UFlowTrace")])


def dyngen(fam, dq, dt, nq, nt, quick, thorough):
    return dict(module="DynGen", quick=dict(FAM='"%s"' % fam, DMAX=dq, NMAX=nq), thorough=dict(FAM='"%s"' % fam, DMAX=dt, NMAX=nt),
                simulate=dict(quick=(quick, 34), thorough=(thorough, 34)))


CHECKS["P23"] = dict(parts=[dict(gen=[dyngen("time", 3, 4, 14, 40, 120, 1500), dyngen("min", 3, 4, 14, 40, 250, 3000), dyngen("ode", 3, 4, 14, 40, 50, 500)],
                                 driver="drv_dyn", trace="DynTrace")],
    model=[dict(module="DynModel", run=[dict(DRV="im"), dict(DRV="cg"), dict(DRV="evolve")], quick=dict(MAXI_=5), thorough=dict(MAXI_=8),
                cfg=["SPECIFICATION Spec", "INVARIANT Accepted Limits", "PROPERTY Ends", "CHECK_DEADLOCK FALSE"],
                bugs=dict(im=["stop-early", "no-wait", "over-limit", "ignores-rise", "no-update", "cb-index", "cb-time", "skip-cb"],
                          cg=["cf-within-run", "never-reset", "old-gradient", "ignores-tol"], evolve=["never-grows", "full-step", "skip-cb"]))])


def wingen(fam, dq, dt, nq, nt, hq, ht, quick, thorough):
    return dict(module="WinGen", quick=dict(FAM='"%s"' % fam, DMAX=dq, NMAX=nq, HLEN=hq), thorough=dict(FAM='"%s"' % fam, DMAX=dt, NMAX=nt, HLEN=ht),
                simulate=dict(quick=(quick, 16 + hq), thorough=(thorough, 16 + ht)))


CHECKS["P21"] = dict(parts=[dict(gen=[wingen("win", 3, 3, 4, 5, 9, 14, 280, 3000)], driver="drv_win", trace="WinTrace")])
CHECKS["P22"] = dict(parts=[dict(gen=[wingen("wflow", 3, 3, 4, 5, 5, 8, 220, 2200)], driver="drv_wflow", trace="WFlowTrace")])

# the compiled modules: on their own, and underneath the classes
def cplx(c):
    return c["dt"] == "c"


CHECKS["P24"] = dict(ext=True, parts=[
    dict(gen=[dict(module="ContractGen", quick=dict(QS="{1,2,3,4}", DS="{1,2,3}", EXT=1), thorough=dict(QS="{1,2,3,4,5}", DS="{1,2,3,4}", EXT=1),
                   simulate=dict(quick=(200, 34), thorough=(2500, 34)))], driver="drv_ext", trace="ContractTrace"),
    dict(gen=[fingen("canon", 5, 5, 6, 12, 50, 600), fingen("obs", 5, 5, 4, 8, 50, 600)], where=cplx, pkg="made", **FT),
    dict(gen=[flowgen("flow", 5, 5, 4, 8, 60, 600), flowgen("step", 5, 5, 3, 6, 50, 600)], where=cplx, pkg="dist", **FLT),
    dict(gen=[unigen("ucanon", 4, 5, 6, 10, 140, 1200)], where=cplx, pkg="made", **UT),
    dict(gen=[unigen("uflow", 3, 4, 3, 6, 90, 800)], where=cplx, pkg="dist", **UF),
    dict(gen=[wingen("wflow", 3, 3, 4, 5, 4, 7, 50, 500)], where=cplx, pkg="made", driver="drv_wflow", trace="WFlowTrace")])
