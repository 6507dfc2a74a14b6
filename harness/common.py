"""Shared machinery of the drivers: projections onto the specification's value
domain, and the recorder that logs every public call of the code under test."""
import json, os, random, signal, sys, math
from fractions import Fraction

OVERSIZE = 3_000_000
BAD = [0, 0, -1]          # never equal to a canonical dyadic value
_SC = 2 ** 20


def _dyadic(x):
    """float -> integer multiple of 2^-20, or None when it is not one."""
    x = float(x)
    if not math.isfinite(x) or abs(x) > 1000:
        return None
    y = x * _SC
    n = round(y)
    if abs(y - n) > 1e-3 * (1 + abs(x)):
        return None
    return n


def dy(z):
    """complex/float/int -> canonical [re, im, e] meaning (re + i im)/2^e."""
    try:
        z = complex(z)
    except Exception:
        return BAD
    r, i = _dyadic(z.real), _dyadic(z.imag)
    if r is None or i is None:
        return BAD
    e = 20
    while e > 0 and r % 2 == 0 and i % 2 == 0:
        r //= 2
        i //= 2
        e -= 1
    if abs(r) >= 2 ** 30 or abs(i) >= 2 ** 30:
        return BAD
    return [r, i, e]


def _exact(x):
    """float -> (m, e) with x = m / 2^e exactly, or None when it takes too many bits"""
    x = float(x)
    if not math.isfinite(x):
        return None
    f = Fraction(x)
    e = f.denominator.bit_length() - 1
    return (f.numerator, e) if e <= 400 and abs(f.numerator) < 2 ** 29 else None


def verbosity(rng):
    """how much the library logs does not matter"""
    import logging
    lg = logging.getLogger("HamiltonianPy")
    lg.propagate = False
    if not lg.handlers:
        lg.addHandler(logging.NullHandler())
    lg.setLevel(rng.choice([logging.WARNING, logging.ERROR, logging.INFO, 1]))


def dyx(z):
    """like dy, for values computed without rounding: every magnitude is told exactly"""
    try:
        z = complex(z)
    except Exception:
        return BAD
    r, i = _exact(z.real), _exact(z.imag)
    if r is not None and i is not None:
        e = max(r[1], i[1])
        a, b = r[0] << (e - r[1]), i[0] << (e - i[1])
        if abs(a) < 2 ** 29 and abs(b) < 2 ** 29:
            return [a, b, e]
    return dy(z)


def undy(v):
    return complex(v[0], v[1]) / 2 ** v[2]


def matrix(m, dy=dy):
    """csr / dense / tuple matrix -> {"sh": [r,c], "en": [[r,c,dy]...], "nz": bool}"""
    import numpy as np
    out = {}
    nz = True
    if isinstance(m, tuple):
        ent, (rows, cols) = m
        sh = [-1, -1]
        it = zip(rows, cols, ent)
        n = len(ent)
        nz = all(complex(x) != 0 for x in ent)
        if not (len(rows) == len(cols) == n):
            return {"sh": [-2, -2], "en": [], "nz": False}
    elif hasattr(m, "tocoo"):
        c = m.tocoo()
        sh = [int(x) for x in m.shape]
        it = zip(c.row, c.col, c.data)
        nz = all(complex(x) != 0 for x in c.data)
    else:
        a = np.asarray(m)
        if a.ndim != 2:
            return {"sh": [-3, -3], "en": [], "nz": False}
        sh = [int(x) for x in a.shape]
        it = ((r, c, a[r, c]) for r, c in zip(*np.nonzero(a)))
    for r, c, v in it:
        k = (int(r), int(c))
        out[k] = out.get(k, 0) + complex(v)
    en = [[r, c, dy(v)] for (r, c), v in sorted(out.items()) if dy(v) != [0, 0, 0]]
    return {"sh": sh, "en": en, "nz": bool(nz)}


def bits(n):
    n = int(n)
    return [i for i in range(n.bit_length()) if n >> i & 1]


class CallTimeout(BaseException):
    pass


def _alarm(*a):
    raise CallTimeout()


class Ctx:
    """One driver run. session() runs a scripted interaction with the code and
    records it; each recorded event is one linearised public call."""

    def __init__(self, out, seed, tier, start, gen, limit_s):
        self.dir, self.seed, self.tier = out, seed, tier
        self.start, self.gen, self.limit_s = start, gen, limit_s
        self.i = 0
        self.timeouts = 0
        self.files = {}
        self.pend = open(os.path.join(out, "pending.json"), "w")
        signal.signal(signal.SIGALRM, _alarm)

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def rng(self, *key):
        return random.Random("%d|%s" % (self.seed, "|".join(map(str, key))))

    def session(self, module, header, fn):
        if self.timeouts >= 3:        # enough to reject; do not wait for more
            return
        i = self.i
        self.i += 1
        if i < self.start:
            return
        s = Session(self, i, module, header)
        try:
            fn(s)
        except StopSession:
            pass
        except Exception as ex:       # a conforming library never gets here
            if os.environ.get("HPY_DEBUG"):
                raise
            s.rec["ev"].append({"a": "Abort", "r": {
                "t": "err", "e": type(ex).__name__, "msg": str(ex)[:200]}})
        f = self.files.get(module)
        if f is None:
            f = self.files[module] = open(
                os.path.join(self.dir, "trace_%s.ndjson" % module), "a")
        f.write(json.dumps(s.rec, separators=(",", ":")) + "\n")
        f.flush()
        self.pend.seek(0)
        self.pend.truncate()
        self.pend.write(json.dumps({"done": i}))
        self.pend.flush()


class StopSession(Exception):
    pass


class Session:
    def __init__(self, ctx, i, module, header):
        self.ctx, self.i, self.module = ctx, i, module
        self.rec = dict(header)
        self.rec["sid"] = i
        self.rec["ev"] = []

    def call(self, action, params, thunk, project):
        """Run thunk(), project its value; record the event. Returns the raw
        value, or None when the call failed."""
        ev = {"a": action}
        ev.update(params)
        ctx = self.ctx
        ev["r"] = {"t": "err", "e": "Crash"}
        ctx.pend.seek(0)
        ctx.pend.truncate()
        ctx.pend.write(json.dumps({"i": self.i, "module": self.module,
                                   "rec": dict(self.rec, ev=self.rec["ev"] + [ev])}))
        ctx.pend.flush()
        val = None
        signal.alarm(ctx.limit_s)
        try:
            val = thunk()
            r = project(val)
            r["t"] = "val"
        except CallTimeout:
            r = {"t": "err", "e": "Timeout"}
            ctx.timeouts += 1
        except MemoryError:
            r = {"t": "err", "e": "MemoryError"}
        except Exception as ex:
            r = {"t": "err", "e": type(ex).__name__, "msg": str(ex)[:120]}
            val = None
        finally:
            signal.alarm(0)
        if len(repr(r)) > OVERSIZE:   # no conforming answer is this long
            r = {"t": "err", "e": "Oversize"}
        ev["r"] = r
        self.rec["ev"].append(ev)
        return val


def _coverage(path):
    """Development aid: the lines of the library the drivers executed."""
    import atexit
    want = os.path.realpath(os.environ.get("HPY_REPO", "/repo")) + os.sep
    hit, m = set(), sys.monitoring

    def line(code, n):
        if code.co_filename.startswith(want):
            hit.add((code.co_filename[len(want):], n))
        return m.DISABLE
    m.use_tool_id(m.COVERAGE_ID, "hpy")
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)

    def dump():
        with open(path, "a") as f:
            for x in sorted(hit):
                f.write("%s:%d\n" % x)
    atexit.register(dump)


def main(build):
    """Entry point of a driver script."""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--gen", default="")
    a = ap.parse_args()
    if os.environ.get("HPY_COV"):
        _coverage(os.environ["HPY_COV"])
    try:
        import HamiltonianPy
    except BaseException as ex:
        print("IMPORT-FAIL", type(ex).__name__, ex)
        sys.exit(7)
    here = os.path.realpath(os.path.dirname(HamiltonianPy.__file__))
    want = os.path.realpath(os.environ.get("HPY_REPO", "/repo"))
    if not here.startswith(want):
        print("WRONG-IMPORT", here)
        sys.exit(8)
    gen = []
    if a.gen and os.path.exists(a.gen):
        with open(a.gen) as f:
            gen = [json.loads(x) for x in f if x.strip()]
    ctx = Ctx(a.out, a.seed, a.tier, a.start, gen, 30)
    try:
        build(ctx, a.prop)
    except Exception as ex:
        # raised by the code under test outside every recorded call (importing one of its modules, say)?
        tb, inner = ex.__traceback__, ""
        while tb:
            inner, tb = tb.tb_frame.f_code.co_filename, tb.tb_next
        named = isinstance(ex, ImportError) and str(getattr(ex, "name", "") or "").startswith("HamiltonianPy")
        if os.path.realpath(inner).startswith(here + os.sep) or named:
            print("CODE-FAIL " + json.dumps({"e": type(ex).__name__, "msg": str(ex)[:200], "file": os.path.basename(inner)}))
            sys.exit(9)
        raise
    for f in ctx.files.values():
        f.close()
    print("DRIVER-DONE", ctx.i)
