"""Solver portfolio: z3 (several configurations) and cvc5."""
import os, re, time
import z3

STAT = {"queries": 0, "time": 0.0}


def is_quant(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    res = False
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            res = True
            break
        todo.extend(t.children())
    cache[k] = (e, res)
    return res


def symbols(e, cache={}):
    """names of uninterpreted functions/constants in e (through quantifiers)"""
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out, todo, seen = set(), [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo.extend(t.children())
    cache[k] = (e, out)
    return out


class MonoAbs:
    """replace non-linear monomials over ground terms by fresh constants."""

    def __init__(self):
        self.mono = {}
        self.cache = {}
        self.keep = []
        self.done = set()

    def norm(self, e):
        return z3.simplify(e, som=True, mul_to_power=False, arith_lhs=False,
                           eq2ineq=False)

    def abs(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._abs(e)
        self.keep.append(e)
        self.cache[k] = r
        return r

    def _abs(self, e):
        if z3.is_quantifier(e):
            n = e.num_vars()
            vs = [z3.Const("qv!%d!%s" % (len(self.keep), e.var_name(i)),
                           e.var_sort(i)) for i in range(n)]
            body = z3.substitute_vars(e.body(), *reversed(vs))
            b2 = self.abs(body)
            pats = []
            for i in range(e.num_patterns()):
                p = e.pattern(i)
                ts = [self.abs(z3.substitute_vars(c, *reversed(vs)))
                      for c in p.children()]
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            mk = z3.ForAll if e.is_forall() else z3.Exists
            if e.is_lambda():
                return z3.Lambda(vs, b2)
            return mk(vs, b2, patterns=pats) if pats else mk(vs, b2)
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        if e.decl().kind() == z3.Z3_OP_MUL and e.get_id() not in self.done:
            # (the term only: an atom about a product would be turned into
            # atoms about the signs of its factors)
            e2 = self.norm(e)
            self.keep.append(e2)
            self.done.add(e2.get_id())
            if not e2.eq(e):
                return self.abs(e2)
        kids = [self.abs(c) for c in e.children()]
        if e.decl().kind() == z3.Z3_OP_MUL:
            nums, fac = [], []
            todo = list(kids)
            while todo:
                c = todo.pop()
                if z3.is_mul(c):
                    todo.extend(c.children())
                elif z3.is_rational_value(c) or z3.is_int_value(c):
                    nums.append(c)
                else:
                    fac.append(c)
            if len(fac) >= 2:
                fac.sort(key=lambda t: t.get_id())
                key = tuple(t.get_id() for t in fac)
                if any(hasvar(t) for t in fac):
                    f = z3.Function("mulv%d" % len(fac),
                                    *([e.sort()] * (len(fac) + 1)))
                    fac.sort(key=lambda t: t.sexpr())
                    c = f(*fac)
                else:
                    if key not in self.mono:
                        self.mono[key] = (z3.Const(
                            "mono!%d" % len(self.mono), e.sort()), fac)
                    c = self.mono[key][0]
                for n in nums:
                    c = n * c
                return c
        if e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and \
                not z3.is_int_value(kids[1]):
            return z3.Function("opq!%s" % e.decl().name(), e.sort(),
                               e.sort(), e.sort())(*kids)
        return e.decl()(*kids)


def hasvar(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_const(x) and x.decl().name().startswith("qv!"):
            return True
        if z3.is_app(x):
            todo.extend(x.children())
    return False


def has_nl(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(1 for c in x.children()
                       if not (z3.is_int_value(c) or z3.is_rational_value(c))) > 1:
                    return True
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV):
                c = x.arg(1)
                if not (z3.is_int_value(c) or z3.is_rational_value(c)):
                    return True
            todo.extend(x.children())
    return False


SK = [0]


def negate(goal):
    """formulas equivalent to the negated goal, its outer universal
    quantifiers replaced by fresh constants"""
    out = []
    g = goal
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            SK[0] += 1
            vs = [z3.Const("sk!%d!%d" % (SK[0], i), g.var_sort(i))
                  for i in range(g.num_vars())]
            g = z3.substitute_vars(g.body(), *reversed(vs))
        elif z3.is_implies(g):
            out.append(g.arg(0))
            g = g.arg(1)
        else:
            out.append(z3.Not(g))
            return out


def skolem(fs):
    """the negated goal, last in fs, without its quantifiers"""
    if z3.is_not(fs[-1]):
        return fs[:-1] + negate(fs[-1].arg(0))
    return fs


def run_fast(fs, timeout):
    """E-matching and linear arithmetic only"""
    fs = skolem(fs)
    if any(has_nl(f) for f in fs):
        fs = abstracted(fs)
    STAT["queries"] += 1
    t = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("mbqi", False)
    try:
        s.set("arith.nl", False)
        s.set("array.extensional", False)
    except z3.Z3Exception:
        pass
    s.add(*fs)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    STAT["time"] += time.time() - t
    return r


def run_z3(fs, timeout, seed=0, mbqi=None, want_model=False, tactic=None):
    STAT["queries"] += 1
    t = time.time()
    if tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout))
    try:
        if seed:
            s.set("random_seed", seed)
        if mbqi is not None:
            s.set("mbqi", mbqi)
    except z3.Z3Exception:
        pass
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STAT["time"] += time.time() - t
    m = None
    if r == z3.sat and want_model:
        m = s.model()
    return str(r), m


def to_smt2(fs):
    s = z3.Solver()
    s.add(*fs)
    return s.to_smt2()


def run_cvc5(smt2, timeout):
    import cvc5
    t = time.time()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
    except Exception:
        slv = cvc5.Solver()
    try:
        slv.setOption("tlimit-per", str(int(timeout)))
        slv.setOption("full-saturate-quant", "true")
        if "set-logic" not in smt2:
            slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
        sm = p.getSymbolManager()
        r = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(slv, sm)).strip()
            if out in ("sat", "unsat", "unknown"):
                r = out
    except Exception as e:
        r = "unknown"
    STAT["time"] += time.time() - t
    return r


def abstracted(fs):
    m = MonoAbs()
    return [m.norm(m.abs(f)) for f in fs]


class Query:
    """asm list + negated goal -> status."""

    def __init__(self, asm, goal):
        self.fs = list(asm) + [z3.Not(goal)]

    def quick(self, timeout=1500):
        nl = any(has_nl(f) for f in self.fs)
        fs = abstracted(self.fs) if nl else self.fs
        r, _ = run_z3(fs, timeout)
        return r == "unsat"


def decide(smt2, budget):
    """portfolio on one serialised obligation; returns (status, backend,
    seconds). status: unsat (=proved), sat, unknown."""
    return decide_fs(list(z3.parse_smt2_string(smt2)), budget, smt2)


def near(fs, ngoal, hops=5, common=2):
    """the premises near the goal (the last ngoal of fs): reached in a few
    steps through the rarest symbols; leaving premises out is sound"""
    sy = [symbols(f) for f in fs]
    cnt = {}
    for s in sy:
        for x in s:
            cnt[x] = cnt.get(x, 0) + 1
    rel = set().union(*sy[-ngoal:])
    keep = set(range(len(fs) - ngoal, len(fs)))
    for _ in range(hops):
        new = set()
        for i, s in enumerate(sy):
            if i in keep or not s:
                continue
            m = min(cnt[x] for x in s)
            if any(x in rel and cnt[x] <= common * m for x in s):
                keep.add(i)
                new |= s
        rel |= new
    return [fs[i] for i in sorted(keep)]


STEPS = 8        # at most so many configurations per obligation


def decide_fs(fs, budget, smt2=None, step=None):
    """step: run this configuration only"""
    t0 = time.time()
    n = len(fs)
    fs = skolem(fs)
    ngoal = len(fs) - n + 1
    nl = any(has_nl(f) for f in fs)
    ab = abstracted(fs) if nl else None
    q = any(is_quant(f) for f in fs)
    T = budget
    # (name, configuration, full time limit in ms)
    steps = []
    if nl or q:
        steps.append(("z3-lin-fast", lambda t: run_fast(fs, t), 2000))
        few = near(ab or fs, ngoal)
        if len(few) * 5 < n * 4:
            steps.append(("z3-near-lin", lambda t: run_fast(few, t), 1500))
    if nl:
        steps += [
            ("z3", lambda t: run_z3(fs, t)[0], 5000),
            ("z3-lin", lambda t: run_z3(ab, t)[0], 4000),
            ("cvc5-lin", lambda t: run_cvc5(to_smt2(ab), t), 8000),
            ("z3-lin-nombqi", lambda t: run_z3(
                ab, t, seed=7, mbqi=False)[0], 5000)]
    else:
        steps.append(("z3", lambda t: run_z3(fs, t)[0], 4000))
        if q:
            steps.append(("z3-nombqi", lambda t: run_z3(
                fs, t, seed=7, mbqi=False)[0], 4000))
    steps += [("cvc5", lambda t: run_cvc5(to_smt2(fs), t), 10000),
              ("z3-seed", lambda t: run_z3(fs, t, seed=3)[0], 15000)]
    if step is not None:
        rounds = [(s, s[2]) for s in steps[step:step + 1]]
    else:
        # every configuration for a moment, then every one at length
        rounds = [(s, min(s[2], 700)) for s in steps[:-1]] + [
            (s, s[2]) for s in steps]
    for (name, f, _), t in rounds:
        r = f(t * T)
        if r == "unsat":
            return "unsat", name, time.time() - t0
        if r == "sat" and "lin" not in name:
            return "sat", name, time.time() - t0
    return "unknown", "none", time.time() - t0
