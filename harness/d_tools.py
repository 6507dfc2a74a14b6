"""Counts (C25), run-time environments (C26), coloured text (C27)."""
from common import *
import glob, io, re, shutil, tempfile


def digits(n):
    out = []
    while n:
        n, r = divmod(n, 1000)
        out.append(r)
    return out


def c25(ctx):
    from HamiltonianPy.tools import PandC
    fns = {"P": PandC.Permutation, "C": PandC.Combination}

    def count(s, rng, fn, n, k, rep, ty="int", vals=None):
        a = vals if vals else (n, k)
        form = rng.randrange(3)
        truthy = rng.choice([True, 1]) if rep else rng.choice([False, 0])

        def go():
            f = fns[fn]
            if form == 0:
                return f(*a) if not rep else f(*a, truthy)
            if form == 1:
                return f(*a, repeat=truthy)
            return f(n=a[0], k=a[1], repeat=truthy)
        s.call("Count", {"fn": fn, "n": n, "k": k, "rep": rep, "ty": ty}, go,
               lambda v: {"int": type(v) is int, "v": digits(int(v)) if v >= 0 else [-1]})
    gen = [g for g in ctx.gen if g["g"] == "count"]
    for i in range(0, len(gen), 37):
        def go(s):
            rng = ctx.rng("cg", i)
            for g in gen[i:i + 37]:
                for fn in "PC":
                    for rep in (False, True):
                        count(s, rng, fn, g["n"], g["k"], rep)
        ctx.session("TCount", {}, go)
    for i in range(ctx.n(40, 400)):
        def go(s):
            rng = ctx.rng("cr", i)
            for _ in range(6):
                n = rng.choice([rng.randrange(0, 8), rng.randrange(0, 60), rng.randrange(40, 160), rng.randrange(100, 2000)])
                k = rng.choice([0, 1, 2, n, max(n - 1, 0), n // 2, rng.randrange(0, n + 1)])
                if n > 200:
                    k = min(k, rng.choice([3, 10, 40]))
                if n > 1 and k <= n:
                    count(s, rng, rng.choice("PC"), n, k, rng.random() < 0.5)
                for n2, k2 in ((n, n + 1), (-1, 0), (n, -1), (n, n + 7), (-3, -3)):
                    if rng.random() < 0.2:
                        count(s, rng, rng.choice("PC"), n2, k2, rng.random() < 0.5)
                if rng.random() < 0.3:
                    v = rng.choice([(float(n), 1), (n, 0.0), ("3", 1), (3, None), (3.5, 1), (n, 0.5)])
                    count(s, rng, rng.choice("PC"), 0, 0, rng.random() < 0.5, "other", v)
        ctx.session("TCount", {}, go)


# ----------------------------------------------------------------- C26
class Boom(Exception):
    def __str__(self):
        raise RuntimeError("no text")


class Quiet(BaseException):
    pass


def raised(kind, marker):
    v = "why-%d" % marker
    return {"ValueError": ValueError(v), "KeyboardInterrupt": KeyboardInterrupt(v), "SystemExit": SystemExit(v),
            "SystemExit0": SystemExit(0), "SystemExitNone": SystemExit(), "SystemExit3": SystemExit(3), "GeneratorExit": GeneratorExit(v),
            "OSError": BrokenPipeError(32, v), "StopAsyncIteration": StopAsyncIteration(v),
            "Boom": Boom(), "Quiet": Quiet(v), "KeyError": KeyError(v), "StopIteration": StopIteration(v),
            "AssertionError": AssertionError()}[kind]


NAMED = ["ValueError", "KeyboardInterrupt", "SystemExit", "Boom", "Quiet", "KeyError", "StopIteration", "AssertionError",
         "GeneratorExit", "BrokenPipeError", "StopAsyncIteration"]
MARK = re.compile(r"<<(\d+)>>")


class Prog:
    """runs one program against the real environments; every operation is recorded as it happens"""

    def __init__(self, s, rng, scratch, objs):
        import mkl
        from HamiltonianPy.tools.runtimeenv import RunTimeEnv
        self.s, self.rng, self.mkl, self.cls = s, rng, mkl, RunTimeEnv
        self.scratch = scratch
        self.base = io.StringIO()
        self.own, self.logs, self.objs, self.dirs = [], [], [], []
        self.marker = 0
        self.mute = False           # an exit without a text was raised
        self.stack = []
        sys.stdout = self.base

    def look(self):
        o = sys.stdout
        if o is self.base:
            n = 0
        elif any(o is x for x in self.own):
            n = -1 - [o is x for x in self.own].index(True)
        elif any(o is x for x in self.logs):
            n = 1 + [o is x for x in self.logs].index(True)
        else:
            n = 999
        return {"out": n, "thr": int(self.mkl.get_max_threads())}

    def note(self, a, params, r):
        ev = {"a": a}
        ev.update(params)
        ev["r"] = r
        self.s.rec["ev"].append(ev)

    def val(self, **kw):
        d = self.look()
        d.update(kw)
        d["t"] = "val"
        return d

    def err(self, ex):
        d = self.look()
        d.update({"t": "err", "e": type(ex).__name__})
        return d

    def new(self, rd, n, gone=False, bad=None):
        rng = self.rng
        path = os.path.join(self.scratch, rng.choice(["", "a", os.path.join("b", "c"), "d%d" % len(self.objs)]))
        if gone:
            path = os.path.join(self.scratch, "gone%d" % len(self.objs))
        kw = {}
        if rd or rng.random() < 0.5:
            kw["rd"] = rd
        if bad is not None:
            kw["threads_num"] = bad
        elif n or rng.random() < 0.3:
            kw["threads_num"] = n or None
        if path == self.scratch and rng.random() < 0.5:
            pass                                     # the working directory
        else:
            kw["path"] = path
        if gone:
            kw["path"] = path
        p = {"rd": rd, "n": n, "gone": gone, "bad": bad is not None}
        try:
            o = self.cls(**kw)
        except Exception as ex:
            self.note("New", p, self.err(ex))
            if bad is None:
                raise StopSession()
            return
        if bad is None:
            self.objs.append(o)
        if gone:
            shutil.rmtree(path, ignore_errors=True)
        self.note("New", p, self.val())

    def say(self):
        self.marker += 1
        x = self.marker
        t = "<<%d>>" % x
        w = self.rng.randrange(5)
        try:
            if w == 0:
                print("text", t, "more", end="")
            elif w == 1:
                sys.stdout.write(t + "\n" + "x" * 50)
            elif w == 2:
                print("line one\n" + t + "\nline three", flush=True)
            elif w == 3:
                print(t, file=sys.stdout)
            else:
                print(t)
            self.note("Print", {"x": x}, self.val())
        except Exception as ex:
            self.note("Print", {"x": x}, self.err(ex))

    def swap(self):
        self.own.append(io.StringIO())
        sys.stdout = self.own[-1]
        self.note("Swap", {}, self.val())

    def threads(self, n):
        self.mkl.set_num_threads(n)
        self.note("Threads", {"n": n}, self.val())

    def block(self, ops, i, expected):
        """the operations after i up to the matching leave; returns (next i, exception still travelling, levels)"""
        while i < len(ops):
            op = ops[i]
            i += 1
            o = op["o"]
            if o == "print":
                self.say()
            elif o == "swap":
                self.swap()
            elif o == "threads":
                self.threads(op["i"])
            elif o == "leave":
                return i, None, 0
            elif o == "raise":
                self.marker += 1
                kind = op.get("kind", "ValueError")
                ex = raised(kind, self.marker)
                self.mute |= kind.startswith("SystemExit") and kind != "SystemExit"
                return i, ex, op["i"]
            elif o == "enter":
                obj = self.objs[op["i"] - 1]
                res = {}
                entered = False
                got = None
                nfp = len(self.logs)
                try:
                    with obj as value:
                        entered = True
                        fp = sys.stdout
                        if obj_rd(self, op["i"]):
                            self.logs.append(fp)
                        self.note("Enter", {"obj": op["i"]}, self.val(ret=value is obj))
                        i, ex, lv = self.block(ops, i, None)
                        res["ex"], res["lv"] = ex, lv
                        if ex is not None:
                            raise ex
                except BaseException as e:
                    got = e
                if not entered:
                    self.note("Enter", {"obj": op["i"]}, self.err(got))
                    continue
                ex, lv = res.get("ex"), res.get("lv", 0)
                closed = True
                if obj_rd(self, op["i"]):
                    closed = bool(getattr(self.logs[nfp], "closed", True))
                name = type(ex).__name__ if ex is not None else ""
                self.note("Leave", {"exc": name}, self.val(closed=closed, same=got is ex))
                if ex is not None and lv > 1:
                    return i, ex, lv - 1
        return i, None, 0

    def end(self):
        files = []
        for root, _, fs in os.walk(self.scratch):
            for f in fs:
                with open(os.path.join(root, f), errors="replace") as fp:
                    t = fp.read()
                marks = [int(x) for x in MARK.findall(t)]
                lines = t.splitlines()
                tail = t[t.rfind(">>") + 2:] if marks else t
                exc = ""
                for k in NAMED:
                    m = [ln for ln in tail.splitlines() if "type" in ln.lower() and re.search(r"\b%s\b" % k, ln)]
                    if m:
                        exc = k
                whole = bool(lines) and lines[0].startswith("Entering") and lines[-1].startswith("Exit") and t.endswith("\n")
                if exc not in ("", "Boom", "AssertionError") and not (exc == "SystemExit" and self.mute):
                    whole = whole and "why-" in tail
                files.append({"text": marks, "exc": exc, "whole": whole})
        mk = lambda x: [int(y) for y in MARK.findall(x.getvalue())]
        self.note("End", {}, {"t": "val", "base": mk(self.base), "own": [mk(x) for x in self.own], "logs": files})


def obj_rd(prog, i):
    evs = [e for e in prog.s.rec["ev"] if e["a"] == "New" and not e["bad"]]
    return evs[i - 1]["rd"]


def env_session(ctx, key, mk_ops):
    import mkl
    real, cwd = sys.stdout, os.getcwd()
    scratch = tempfile.mkdtemp(dir=cwd, prefix="env")
    thr0 = mkl.get_max_threads()
    mkl.set_num_threads(4096)
    top = int(mkl.get_max_threads())
    rng = ctx.rng("env", key)
    lim = lambda n: max(1, min(n, top))
    start = lim(rng.choice([1, 2, 3, 4, 8]))
    mkl.set_num_threads(start)

    def go(s):
        os.chdir(scratch)
        signal.alarm(60)
        prog = Prog(s, rng, scratch, None)
        try:
            ops = mk_ops(prog, rng, lim)
            i, n = 0, 0
            while i < len(ops):
                i, ex, lv = prog.block(ops, i, None)
            prog.end()
        except CallTimeout:
            s.rec["ev"].append({"a": "Abort", "r": {"t": "err", "e": "Timeout"}})
        finally:
            signal.alarm(0)
            sys.stdout = real
            os.chdir(cwd)
            mkl.set_num_threads(thr0)
            shutil.rmtree(scratch, ignore_errors=True)
    try:
        ctx.session("TEnv", {"thr": start, "max": top}, go)
    finally:
        sys.stdout = real
        shutil.rmtree(scratch, ignore_errors=True)


KINDS = ["ValueError", "ValueError", "KeyboardInterrupt", "SystemExit", "Boom", "Quiet", "KeyError", "StopIteration", "AssertionError",
         "SystemExit0", "SystemExitNone", "SystemExit3", "GeneratorExit", "OSError", "StopAsyncIteration"]


def c26(ctx):
    gen = [g for g in ctx.gen if g["g"] == "env"]
    pick = ctx.rng("eg").sample(range(len(gen)), min(len(gen), ctx.n(700, 20000)))
    for i in sorted(pick):
        def mk(prog, rng, lim):
            prog.new(True, 0)
            prog.new(True, lim(2))
            prog.new(False, lim(1))
            ops = []
            for op in gen[i]["ops"]:
                op = dict(op)
                if op["o"] == "threads":
                    op["i"] = lim(3)
                if op["o"] == "raise":
                    op["kind"] = rng.choice(KINDS)
                ops.append(op)
            return ops
        env_session(ctx, ("g", i), mk)
    for i in range(ctx.n(250, 5000)):
        def mk(prog, rng, lim):
            n = rng.randrange(1, 6)
            if rng.random() < 0.3:
                prog.threads(lim(rng.choice([1, 2, 5])))
            for _ in range(n):
                if rng.random() < 0.15:
                    prog.new(rng.random() < 0.5, 0, bad=rng.choice([0, -1, 1.5, "2", -7, 2.0, [1]]))
                prog.new(rng.random() < 0.75, rng.choice([0, lim(1), lim(2), lim(4), lim(7)]), gone=rng.random() < 0.1)
                if rng.random() < 0.2:
                    prog.threads(lim(rng.choice([1, 3, 6])))
            gone = [e["gone"] and e["rd"] for e in prog.s.rec["ev"] if e["a"] == "New" and not e["bad"]]
            ops, depth = [], 0
            for _ in range(rng.choice([6, 12, 25])):
                w = rng.random()
                if w < 0.35:
                    o = rng.randrange(1, n + 1)
                    ops.append({"o": "enter", "i": o})
                    depth += 0 if gone[o - 1] else 1
                elif w < 0.6:
                    ops.append({"o": "print", "i": 0})
                elif w < 0.65:
                    ops.append({"o": "swap", "i": 0})
                elif w < 0.72:
                    ops.append({"o": "threads", "i": lim(rng.randrange(1, 9))})
                elif depth and w < 0.88:
                    ops.append({"o": "leave", "i": 0})
                    depth -= 1
                elif depth:
                    d = rng.randrange(1, depth + 1)
                    ops.append({"o": "raise", "i": d, "kind": rng.choice(KINDS)})
                    depth -= d
            return ops
        env_session(ctx, ("r", i), mk)


# ----------------------------------------------------------------- C27
NAMES = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "k", "r", "g", "y", "b", "m", "c", "w"]
TEXTS = ["", " ", "text", "a b  c", "line\nline", "tab\tend", "~[31mred~[0m", "100%", "{0} {x}", "\\n", "0", "ünï→", "x" * 300,
         " lead", "trail ", "\n", "38;5;1m", "#ff0000", "{{x}}", "{}", "}}{{", "%s %(a)d", "e\u0301 A\u030a", "\r\n", "\ufb01\u00a0", "~[0m"]
LONG = ["line\n" * 1000, "ab " * 2000, "x\ty\r\n" * 1500, "{}%s" * 5000]


def rcase(rng, x):
    return "".join(rng.choice([c.upper(), c.lower()]) for c in x)


class Col:
    def __init__(self, rng, j):
        self.j = j
        k = j["k"]
        if k == "none":
            self.v = None
        elif k == "name":
            self.v = rcase(rng, j["n"]) if rng.random() < 0.5 else j["n"]
        elif k == "int":
            self.v = j["v"]
        elif k == "rgb":
            self.v = rng.choice([list, tuple])(j["v"])
        else:
            self.v = j["_s"] if "_s" in j else "#" + "".join(rng.choice("0123456789abcdef"[d:d + 1] + "0123456789ABCDEF"[d:d + 1]) for d in j["d"])
            j.pop("_s", None)


def rcol(rng, sch, fg):
    w = rng.random()
    if w < 0.1:
        return {"k": "none"}
    if w < 0.35:
        return {"k": "name", "n": rng.choice(NAMES)}
    if w < 0.42:
        return {"k": "name", "n": rng.choice(["grey", "", "bl", "redd", "ff0000", "none", "x", "reset", "lightred", "re d"])}
    if sch in ("4", "8"):
        hi = 256
        if sch == "4":
            v = rng.choice(list(range(25, 112)) + [0, 1, 255, -30])
        else:
            v = rng.choice([rng.randrange(-2, 259), 0, 255, 256, -1, 7, 8, 15, 16])
        return {"k": "int", "v": v}
    if w < 0.7:
        v = [rng.choice([rng.randrange(256), 0, 255]) for _ in range(3)]
        if rng.random() < 0.2:
            v[rng.randrange(3)] = rng.choice([-1, 256, 300])
        return {"k": "rgb", "v": v}
    d = [rng.randrange(16) for _ in range(6)]
    u = rng.random()
    if u < 0.75:
        return {"k": "hex", "d": d}
    if u < 0.85:
        d = d[:rng.choice([0, 1, 3, 4, 5])]
        return {"k": "hex", "d": d}
    t = "".join("%x" % x for x in d)
    i = rng.randrange(6)
    t = t[:i] + rng.choice("g +-_xzO.") + t[i + 1:]
    return {"k": "hex", "d": [int(x, 16) if x in "0123456789abcdef" else -1 for x in t], "_s": "#" + t}


def c27(ctx):
    from HamiltonianPy.tools import colorprint as CP
    show = lambda x: x.replace("\x1b", "~")

    class Obj:
        def __init__(self, t):
            self.t = t

        def __str__(self):
            return self.t

        def __repr__(self):
            return "wrong"

    def kwargs(rng, fg, bg, bold, sch):
        kw = {}
        if fg.v is not None or rng.random() < 0.5:
            kw["fg"] = fg.v
        if bg.v is not None or rng.random() < 0.5:
            kw["bg"] = bg.v
        if bold or rng.random() < 0.5:
            kw["bold"] = rng.choice([True, 1]) if bold else rng.choice([False, 0])
        if sch != "8" or rng.random() < 0.5:
            kw["color_scheme"] = {"4": 4, "8": 8, "24": 24, "rgb": "rgb"}.get(sch, sch)
        return kw

    def color(s, rng, fgj, bgj, bold, sch):
        fg, bg = Col(rng, dict(fgj)), Col(rng, dict(bgj))
        t = rng.choice(LONG if rng.random() < 0.015 else TEXTS)
        kw = kwargs(rng, fg, bg, bold, sch)
        s.call("Color", {"fg": fg.j, "bg": bg.j, "bold": bold, "sch": sch, "text": t},
               lambda: CP.coloring(t.replace("~", "\x1b"), **kw), lambda r: {"out": show(r) if isinstance(r, str) else "?"})

    def pr(s, rng, fgj, bgj, bold, sch):
        fg, bg = Col(rng, dict(fgj)), Col(rng, dict(bgj))
        objs = [rng.choice(LONG if rng.random() < 0.006 else TEXTS) for _ in range(rng.randrange(0, 4))]
        kinds = [rng.choice([str, Obj]) for _ in objs]
        raw = [k(o.replace("~", "\x1b")) for k, o in zip(kinds, objs)]
        if rng.random() < 0.2:
            objs, raw = objs + ["17", "None", "(1, 'a')"], raw + [17, None, (1, "a")]
        sep, end = rng.choice([" ", " ", "", ", ", "\n"]), rng.choice(["\n", "\n", "", "END"])
        kw = kwargs(rng, fg, bg, bold, sch)
        if sep != " " or rng.random() < 0.3:
            kw["sep"] = sep
        if end != "\n" or rng.random() < 0.3:
            kw["end"] = end
        w = rng.random()
        if rng.random() < 0.3:
            kw["flush"] = rng.choice([True, False])

        def go():
            buf, keep = io.StringIO(), sys.stdout
            try:
                if w < 0.5:
                    sys.stdout = buf
                    if w < 0.1:
                        kw["file"] = None
                else:
                    kw["file"] = buf
                CP.color_print(*raw, **kw)
            finally:
                sys.stdout = keep
            return buf.getvalue()
        s.call("Print", {"fg": fg.j, "bg": bg.j, "bold": bold, "sch": sch, "objs": objs, "sep": sep, "end": end}, go,
               lambda r: {"out": show(r)})
    gen = [g for g in ctx.gen if g["g"] == "col"]
    for i in range(0, len(gen), 60):
        def go(s):
            rng = ctx.rng("colg", i)
            for g in gen[i:i + 60]:
                sch = {4: "4", 8: "8", 24: rng.choice(["24", "rgb"])}[g["sch"]]
                (color if rng.random() < 0.7 else pr)(s, rng, g["fg"], g["bg"], g["bold"], sch)
        ctx.session("TColor", {}, go)
    for i in range(ctx.n(80, 2000)):
        def go(s):
            rng = ctx.rng("colr", i)
            for _ in range(40):
                sch = rng.choice(["4", "8", "24", "rgb"])
                if rng.random() < 0.03:
                    sch = rng.choice(["16", "RGB", "", "256", "none"])
                fg, bg = rcol(rng, sch, True), rcol(rng, sch, False)
                (color if rng.random() < 0.6 else pr)(s, rng, fg, bg, rng.random() < 0.5, sch)
        ctx.session("TColor", {}, go)

    def every(s):
        rng = ctx.rng("every")
        for sch in ("4", "8"):
            for v in range(-3, 260):
                color(s, rng, {"k": "int", "v": v}, {"k": "none"}, False, sch)
                color(s, rng, {"k": "none"}, {"k": "int", "v": v}, True, sch)
        for sch in ("4", "8", "24", "rgb"):
            for n in NAMES:
                color(s, rng, {"k": "name", "n": n}, {"k": "none"}, False, sch)
                color(s, rng, {"k": "none"}, {"k": "name", "n": n}, False, sch)
    ctx.session("TColor", {}, every)

    def demo(s):
        for n in (0, 3):
            def go():
                buf, keep = io.StringIO(), sys.stdout
                try:
                    sys.stdout = buf
                    CP.color_demo(space_num=n) if n else CP.color_demo()
                finally:
                    sys.stdout = keep
                return show(buf.getvalue())
            s.call("Demo", {"prefix": " " * n}, go, lambda r: {"lines": r.split("\n")[:-1]})
    ctx.session("TColor", {}, demo)


def build(ctx, prop):
    {"C25": c25, "C26": c26, "C27": c27}[prop](ctx)


if __name__ == "__main__":
    main(build)
