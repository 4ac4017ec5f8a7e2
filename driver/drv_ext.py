"""Replays scenes of ContractGen.tla with the compiled modules (eps_maps_c, core_common, tdvp_calc_C, allclose):
the same calls as drv_contract, on modules built by run.py from the sources (v=made) or from the C files that are
distributed (v=dist)."""
import os, sys, ctypes, importlib.machinery, importlib.util
import numpy as np
import vt
import drv_contract as dc
from vt import mat, ten

gomp = ctypes.CDLL("libgomp.so.1")
MODS = {}


def load(v):
    if v not in MODS:
        d = os.path.join(os.environ["VT_EXT"], v, "evoMPS")
        ns = {}
        for name in ("eps_maps_c", "core_common", "tdvp_calc_C", "allclose"):
            f = [x for x in os.listdir(d) if x.startswith(name + ".") and x.endswith(".so")]
            full = "evoMPS." + name
            keep = sys.modules.get(full)
            spec = importlib.util.spec_from_file_location(full, os.path.join(d, f[0]),
                                                          loader=importlib.machinery.ExtensionFileLoader(full, os.path.join(d, f[0])))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            if keep is not None:
                sys.modules[full] = keep
            else:
                sys.modules.pop(full, None)
            ns[name] = m
        MODS[v] = ns
    return MODS[v]


PY = dict(vars(dc.tc))
PYCC = dc.cc


def capsule():
    if "cap" not in MODS:
        d = os.environ["VT_EXT"]
        f = [x for x in os.listdir(d) if x.startswith("vt_capsule.")][0]
        spec = importlib.util.spec_from_file_location("vt_capsule", os.path.join(d, f))
        MODS["cap"] = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(MODS["cap"])
    return MODS["cap"]


def handler(rec, c, rs):
    m = load(c["v"])
    gomp.omp_set_num_threads(c["th"])
    dc.cc = m["core_common"]
    for name in dir(m["core_common"]):
        if name in PY and hasattr(PYCC, name) and PY[name] is getattr(PYCC, name) and callable(PY[name]) and not name.startswith("_"):
            setattr(dc.tc, name, getattr(m["core_common"], name))
    for name in ("eps_l_noop", "eps_r_noop", "eps_l_noop_inplace", "eps_r_noop_inplace"):
        setattr(dc.tc, name, getattr(m["eps_maps_c"], name))
    do, o = dc.handler(rec, c, rs)
    A, B, x, AA, o2 = o["A"], o["B"], o["x"], o["AA"], o["o2"]
    # the transfer maps of the other compiled module
    do("l_noop", lambda: dc.cc.eps_l_noop(x[0], A[0], B[0]), mat)
    do("r_noop", lambda: dc.cc.eps_r_noop(x[1], A[0], B[0]), mat)
    # operators behind a C function
    cap = capsule().make(AA.shape[0], AA.shape[1], np.ascontiguousarray(o2, dtype=complex).tobytes())
    do("C2_cptr", lambda: m["tdvp_calc_C"].calc_C(AA, cap, None), ten)
    do("C2_cptr", lambda: m["tdvp_calc_C"].calc_C(AA, cap, vt.rnd(rs, AA.shape)), ten)
    # entrywise comparison
    a = vt.rnd(rs, (3, 2))
    for k in range(4):
        b = a + vt.rnd(rs, a.shape) * (0.01 if k < 2 else 0.0)
        if k == 2:
            b[rs.randint(3), rs.randint(2)] += 0.03j
        rt, at = [(0.01, 0.01), (0.0, 0.012), (0.02, 0.0), (0.05, 0.001)][k]
        rec.call("allclose", lambda: int(m["allclose"].allclose_mat(a, b, rt, at)), lambda r: r, a=mat(a), b=mat(b), rtol=vt.fx(rt), atol=vt.fx(at))
    gomp.omp_set_num_threads(1)


if __name__ == "__main__":
    vt.main(handler)
