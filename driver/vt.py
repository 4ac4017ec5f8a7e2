"""Shared part of the drivers: encodes values as the fixed-point numbers of spec/CLin.tla,
records one event per call, isolates exceptions and timeouts of the code under test."""
import sys, json, signal, time, traceback, warnings, zlib, io, os
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")

_so = sys.stdout
sys.stdout = io.StringIO()          # the import prints a notice
import evoMPS.tdvp_common           # noqa: E402,F401
sys.stdout = _so
import logging
logging.disable(logging.CRITICAL)

MAXI = 2147483647
SC = float(1 << 24)


def fx(v):
    v = float(v)
    if v != v:
        return MAXI
    v = v * SC
    if v >= MAXI:
        return MAXI
    if v <= -MAXI:
        return -MAXI
    return int(round(v))


def cx(v):
    v = complex(v)
    return [fx(v.real), fx(v.imag)]


def dense(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.asarray(x)


def mat(x):
    """matrix (2D), tuple of index groups already flattened"""
    x = dense(x)
    if x.ndim != 2:
        raise ValueError("expected a matrix, got shape %r" % (x.shape,))
    return [[cx(v) for v in row] for row in x]


def ten(x):
    """tensor: all leading indices joined, the last two are the matrix"""
    x = np.asarray(x)
    if x.ndim < 3:
        raise ValueError("expected a tensor, got shape %r" % (x.shape,))
    return [mat(m) for m in x.reshape((-1,) + x.shape[-2:])]


def opm(o):
    """operator with n bra and n ket indices as a matrix"""
    o = np.asarray(o)
    h = o.ndim // 2
    return mat(o.reshape((int(np.prod(o.shape[:h])), -1)))


def mpo(w):
    return [[mat(w[a, b]) for b in range(w.shape[1])] for a in range(w.shape[0])]


class Abandon(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    Rec.timeouts += 1
    raise Timeout("call did not return in time")


class Rec(object):
    timeouts = 0

    def __init__(self):
        self.ev = []
        self.cfg = {}
        self.limit = int(os.environ.get("VT_CALL_LIMIT", "120"))

    def call(self, op, fn, enc=None, stop=False, **fields):
        """run fn(); record its (encoded) result; returns the raw result (None if it raised)"""
        e = dict(op=op)
        e.update(fields)
        res = None
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.limit)
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            try:
                res = fn()
                if enc is not None:
                    e["out"] = enc(res)
            finally:
                signal.alarm(0)
                sys.stdout = so
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as ex:      # evoMPS raises bare BaseException in places
            e["exc"] = (type(ex).__name__ + ": " + str(ex))[:200].replace('"', "'").replace("\\", "/")
            if os.environ.get("VT_TB"):
                e["tb"] = traceback.format_exc()
            res = None
        self.ev.append(e)
        if "exc" in e and stop:
            raise Abandon()
        return res

    def note(self, op, **fields):
        e = dict(op=op)
        e.update(fields)
        self.ev.append(e)
        return e


def main(handler):
    inp, out, k, n, seed = sys.argv[1:6]
    k, n, seed = int(k), int(n), int(seed)
    f = open(out, "w")
    for line in open(inp):
        d = json.loads(line)
        if d["id"] % n != k:
            continue
        if Rec.timeouts >= 2:       # calls that hang are reported; more of them add nothing
            f.write(json.dumps(dict(id=d["id"], tag="not-run", cfg=dict(kind="none"), ev=[dict(op="not-run", exc="two calls did not return")], t=0)) + "\n")
            continue
        case = d["case"]
        key = json.dumps(case, sort_keys=True)
        rs = np.random.RandomState((zlib.crc32(key.encode()) + 7919 * seed) % (2 ** 32))
        np.random.seed(rs.randint(2 ** 31 - 1))
        rec = Rec()
        t0 = time.time()
        try:
            handler(rec, case, rs)
        except Abandon:
            pass
        except Exception:
            print("DRIVER-BUG case", key)
            traceback.print_exc(file=sys.stdout)
        f.write(json.dumps(dict(id=d["id"], tag=tag(case), cfg=rec.cfg, ev=rec.ev, t=round(time.time() - t0, 2))) + "\n")
        f.flush()
    f.close()


def tag(case):
    return " ".join("%s=%s" % (k, case[k] if not isinstance(case[k], (list, dict)) else json.dumps(case[k], separators=(",", ":")))
                    for k in sorted(case) if k not in ("gen",))[:400]


def rnd(rs, shape, dt="c", scale=1.0):
    x = rs.uniform(-0.7, 0.7, size=shape)
    if dt == "c":
        x = x + 1j * rs.uniform(-0.7, 0.7, size=shape)
    return np.ascontiguousarray(x * scale)


def rop(rs, shape, dt="c", scale=1.0):
    """operator elements: a mixture of generic, zero, real and purely imaginary values"""
    x = rnd(rs, shape, dt, scale)
    k = rs.uniform(size=x.shape)
    x[k < 0.15] = 0
    if dt == "c":
        x = np.where((k > 0.15) & (k < 0.3), x.real, x)
        x = np.where((k > 0.3) & (k < 0.5), 1j * x.imag, x)
    return np.ascontiguousarray(x)


def herm(rs, n, dt="c", scale=1.0):
    x = rop(rs, (n, n), dt, scale)
    return (x + x.conj().T) / 2


def unitary(rs, n):
    q, r = np.linalg.qr(rs.normal(size=(n, n)) + 1j * rs.normal(size=(n, n)))
    return q
