"""Verification of one function body against its contract.

gen(prog, name)  -> list of obligations (generated from the current source)
"""
import json, os, sys, time, traceback
import z3
import interp as ip
import specs
import pgmlib
import prover
from interp import (Interp, State, Unsupported, Vec, Rec, Loc, Ptr, TRUE,
                    FALSE, simp, is_true)
from frontend import Program, qt, func_name, has_body


class Result:
    def __init__(self, fn):
        self.fn = fn
        self.obs = []            # (kind, desc, line, [asm], goal)
        self.unsupported = None
        self.called = set()
        self.inlined = set()
        self.trusted = set()
        self.loops = {}
        self.axioms = set()
        self.secs = 0.0
        self.file = ""
        self.houdini = 0


def find_functions(prog, name, contract=None):
    out = []
    for fn in prog.funcs.values():
        if func_name(fn) == name and has_body(fn):
            if contract is None or contract.covers(fn, None):
                out.append(fn)
    return out


def frame(I, old, new, mods, cx):
    """everything that existed before and is not in `mods` is unchanged"""
    out = []
    allowed = [m.key() for m in mods]

    def go(key, a, b):
        for m in allowed:
            if key[:len(m)] == m:
                return
        if a is b:
            return
        if isinstance(a, Rec):
            for f in a.f:
                go(key + (f,), a.f[f], b.f[f])
        elif isinstance(a, Vec):
            go(key + ("arr",), a.arr, b.arr)
            go(key + ("size",), a.size, b.size)
        elif isinstance(a, z3.ExprRef):
            if not a.eq(b):
                out.append(("frame: %s is unchanged" % ".".join(
                    str(k) for k in key), a == b))
        elif isinstance(a, Ptr):
            if a.loc is not None and b.loc is not None and \
                    a.loc.key() == b.loc.key():
                if not a.null.eq(b.null):
                    out.append(("frame: pointer %s" % str(key),
                                a.null == b.null))
            elif a.loc is None and b.loc is None:
                pass
            else:
                out.append(("frame: pointer %s is unchanged" % str(key),
                            FALSE))
    for r in old:
        if r in new and not r.startswith("$"):
            go((r,), old[r], new[r])
    return out


def gen(prog, name, case=None, contracts=None, verbose=False, hints=None):
    C = contracts or specs.CONTRACTS
    c = C[name]
    res = Result(name)
    t0 = time.time()
    specs.GV._n.clear()
    specs.LV._n.clear()
    pgmlib.SV._n.clear()
    specs.contracts_pgm.Reading._n.clear()
    ax = specs.Axioms()
    I = Interp(prog, C, ax)
    I.curfn = c
    I.axioms.skip = frozenset(getattr(c, "skip_axioms", ()))
    I.hints = hints
    I.wfkeys = set()
    fns = find_functions(prog, name, c)
    if not fns:
        res.unsupported = "no function %s with the expected parameters" % name
        return res
    fn = fns[0]
    res.file = fn["_tu"].name
    try:
        run(I, c, fn, case, res)
    except Unsupported as e:
        res.unsupported = "%s (line %s)" % (e, I.line)
        if verbose:
            traceback.print_exc()
    except specs_error() as e:
        res.unsupported = "contract does not fit the code: %s %s (line %s)" % (
            type(e).__name__, e, I.line)
        if verbose:
            traceback.print_exc()
    res.called, res.inlined = I.called, I.inlined
    res.trusted, res.loops = I.trusted, I.loops
    res.secs = time.time() - t0
    res.I = I
    res.hints = I.found
    return res


def specs_error():
    return (KeyError, IndexError, AttributeError, TypeError, ValueError,
            AssertionError, z3.Z3Exception, RecursionError, ZeroDivisionError)


def is_static(fn):
    d = fn
    while d is not None:
        if d.get("storageClass") == "static":
            return True
        d = fn["_tu"].byid.get(d.get("previousDecl"))
    return False


def run(I, c, fn, case, res):
    st = State()
    W = specs.World(I, st)
    I.world = W
    args = c.setup(W, fn, case)
    this = None
    if fn["kind"] == "CXXConstructorDecl":
        rec = c.name.split("::")[-1]
        st.mem["THIS"] = I.default_rec(rec, st)
        this = Loc("THIS")
    elif fn["kind"] == "CXXMethodDecl" and not is_static(fn):
        this = c.this_setup(W, fn, case)
    cx = specs.Ctx(I, c, fn, args, this, st, dict(st.mem), body=True)
    cx.case = case
    I.curctx = cx
    I.exact = c.exact
    pre = []
    for n, f in c.pre(cx):
        st.fact(f)
        pre.append(f)
    for f in c.assume(cx, case):
        st.fact(f)
    entry = st.copy()
    # ghost: the arbitrary closed set
    if "K" in I.ghost and "CG" in W.made:
        lv, t, av, _ = cx.cgl(Loc("CG"))
        K = I.ghost["K"]
        st.fact(lv.avwf(K))
    for n, f in c.hints(cx):
        I.line = 0
        I.obs.append(ip.Obl(c.name, "hint", n, 0, st.formulas(), f))
        st.fact(f)
    cx.old = dict(st.mem)
    # vacuity: the precondition must be satisfiable
    res.entry = entry
    env0 = st.env
    st.env = {"$fn": fn}
    if this is not None:
        st.env["$this"] = this
    I.bind(fn, args, st)
    rets = I.run_body(fn, st)
    exc = I.exc[0]
    thr = c.throws(cx) or {}
    I.line = 0
    res.returns = len(rets)
    for n, (s, v) in enumerate(rets):
        tag = "" if len(rets) == 1 else " [return %d of %d]" % (
            n + 1, len(rets))
        cx.new = dict(s.mem)
        cx.ret = conv_ret(I, fn, s, v)
        cx.st = s
        for ty, cond in thr.items():
            I.obs.append(Ob(c, "no-throw", "returns normally only if "
                            "%s is not due%s" % (ty, tag), s, z3.Not(cond)))
        mods = c.modifies(cx)
        for nm, f in frame(I, cx.old, cx.new, mods, cx):
            I.obs.append(Ob(c, "frame", nm + tag, s, f))
        for nm, f in c.post(cx):
            I.obs.append(Ob(c, "post", nm + tag, s, f))
            if getattr(c, "cut", False):
                s.fact(f)        # (proved just before)
    for n, (s, (k, ty)) in enumerate(exc):
        cond = [f for t, f in thr.items() if ip.catches(t, ty)]
        g = z3.Or(*cond) if cond else FALSE
        I.obs.append(Ob(c, "throw", "%s is thrown only when due [throw %d]" % (
            ty, n + 1), s, g))
    # non-vacuity of the path that reaches the normal return
    res.smoke = [s.formulas() for s, _ in rets]
    for o in I.obs:
        res.obs.append(o)


def Ob(c, kind, desc, s, goal):
    return ip.Obl(c.name, kind, desc, 0, s.formulas(), goal)


def conv_ret(I, fn, s, v):
    if isinstance(v, (Loc, ip.BitRef)):
        v = I.rv(s, v)
    t = (fn.get("type") or {}).get("qualType", "void").split("(")[0]
    ct = ip.ctype(t)
    if ct[0] == "bool" and v is not None:
        v = I.tobool(v)
    if ct[0] == "rec" and isinstance(v, Loc):
        v = I.read(s, v)
    return v


def smt(I, o, axioms=True):
    """obligation -> list of formulas whose unsatisfiability proves it"""
    fs = list(o.asm)
    g = simp(o.goal)
    if z3.is_true(g):
        return None
    if axioms:
        fs = fs + I.axioms.relevant(fs + [o.goal])
    return fs + [z3.Not(o.goal)]


def main():
    t = time.time()
    omp = "-o" in sys.argv
    prog = Program(extra=() if omp else ("main",), openmp=omp)
    print("front end %.1fs" % (time.time() - t))
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    ip.JOBS = 8
    hf = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                      "hints.json")
    hints = json.load(open(hf)) if os.path.exists(hf) else {}
    for nm in (names or list(specs.CONTRACTS)):
        full = [n for n in specs.CONTRACTS if n == nm or
                n.endswith("::" + nm)]
        for n in full:
            for case in specs.CONTRACTS[n].cases:
                if (case in specs.OMP_CASES) != omp:
                    continue
                t = time.time()
                hk = n + (":" + case if case else "")
                r = gen(prog, n, case, verbose=True,
                        hints=hints.get(hk) if "-h" in sys.argv else None)
                tg = time.time() - t
                print("==", n, case or "", "gen %.1fs" % tg, len(r.obs),
                      "obligations", "UNSUPPORTED " + r.unsupported
                      if r.unsupported else "", flush=True)
                if "-v" in sys.argv:
                    for k, l in r.hints.items():
                        print("   loop", k, l)
                t = time.time()
                bad = 0
                out = discharge(r, 8, 1)
                for o, (s, be, secs) in zip(r.obs, out):
                    if s != "unsat" or secs > 3:
                        print("   %-8s %s %s: %s (line %s) %.1fs" % (
                            s, be, o.kind, o.desc, o.line, secs), flush=True)
                    if s != "unsat":
                        bad += 1
                print("   %s in %.1fs" % ("ok" if not bad else
                                          "%d FAILED" % bad,
                                          time.time() - t), flush=True)
                if not bad and not r.unsupported and "-w" in sys.argv:
                    h = json.load(open(hf)) if os.path.exists(hf) else {}
                    h[hk] = r.hints
                    json.dump(h, open(hf, "w"), indent=0, sort_keys=True)


def discharge(r, jobs, budget, axioms=True):
    """decide every obligation, in forked children"""
    res = [("error", "none", 0.0)] * len(r.obs)
    kids = []
    jobs = max(1, min(jobs, len(r.obs)))
    for k in range(jobs):
        rd, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                out = []
                for i in range(k, len(r.obs), jobs):
                    fs = smt(r.I, r.obs[i], axioms)
                    out.append((i,) + (("unsat", "trivial", 0.0) if fs is None
                                       else tuple(prover.decide_fs(
                                           fs, budget))))
                with os.fdopen(w, "w") as f:
                    json.dump(out, f)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, rd))
    for pid, rd in kids:
        with os.fdopen(rd) as f:
            t = f.read()
        os.waitpid(pid, 0)
        for x in json.loads(t or "[]"):
            res[x[0]] = tuple(x[1:])
    return res


if __name__ == "__main__":
    main()
