"""Contracts of the functions of stereo-parallel, and the vocabulary they use.

A contract is written over the *abstraction* (which nodes exist, which are
available, what a penalty is), never over local variable names.  `body=True`
gives the definition that the function's own body is checked against; callers
see the same statement folded into a symbol.
"""
import itertools
import z3
import interp as ip
from interp import (Vec, Rec, Loc, Ptr, Iter, Opaque, Unsupported, TRUE, FALSE,
                    fsub,
                    I_, B_, R_, ctype, simp, is_true, same)
from lib import MEMS, SORTED, STRICT, RA

AB = z3.ArraySort(I_, B_)
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
Sel = z3.Select


def FA(vs, body, *pats):
    ok = []
    for p in pats:
        try:
            z3.ForAll(vs, body, patterns=[p])
            ok.append(p)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body, patterns=ok) if ok else z3.ForAll(vs, body)


def EX(vs, body):
    return z3.Exists(vs, body)


# ------------------------------------------------------------- index symbols
PI = z3.Function("PI", I_, I_, I_, I_)            # w x y
RJ = z3.Function("RJ", I_, I_, I_, B_)            # jobs, job, row of the job
JOB = z3.Function("JOB", I_, I_, I_)              # jobs, row -> its job
THREADS = z3.Int("omp_get_num_threads")
# cases that are verified only for the build with OpenMP
OMP_CASES = {"jobs", "threads"}
PIX = z3.Function("PIX", I_, I_, I_)              # w i
PIY = z3.Function("PIY", I_, I_, I_)
NI = z3.Function("NI", I_, I_, I_, I_, I_, I_)    # h D x y d
NX = z3.Function("NX", I_, I_, I_, I_)            # h D i
NY = z3.Function("NY", I_, I_, I_, I_)
ND = z3.Function("ND", I_, I_, I_, I_)
NBI = z3.Function("NBI", I_, I_, I_, I_, I_)      # h x y k
BX = z3.Function("BX", I_, I_, I_)
BY = z3.Function("BY", I_, I_, I_)
BK = z3.Function("BK", I_, I_, I_)
RI = z3.Function("RI", I_, I_, I_, I_, I_, I_, I_)  # h D x y d k
RX = z3.Function("RX", I_, I_, I_, I_)
RY = z3.Function("RY", I_, I_, I_, I_)
RD = z3.Function("RD", I_, I_, I_, I_)
RK = z3.Function("RK", I_, I_, I_, I_)


def PIdef(w, x, y):
    return w * y + x


def NIdef(h, D, x, y, d):
    return d + D * (y + h * x)


def NBIdef(h, x, y, k):
    return k + 4 * (y + h * x)


def RIdef(h, D, x, y, d, k):
    return y + h * (d + D * (k + 4 * x))


def adj(x, y, x2, y2):
    return Or(And(y == y2, Or(x2 == x + 1, x == x2 + 1)),
              And(x == x2, Or(y2 == y + 1, y == y2 + 1)))


def kidx(x, y, x2, y2):
    return If(x + 1 == x2, z3.IntVal(0), If(x == x2 + 1, z3.IntVal(1), If(
        y + 1 == y2, z3.IntVal(2), z3.IntVal(3))))


NBR = [lambda x, y: (x + 1, y), lambda x, y: (x - 1, y),
       lambda x, y: (x, y + 1), lambda x, y: (x, y - 1)]


class GV:
    """view of a DisparityGraph value"""
    _n = {}

    def __init__(self, I, v):
        self.v = v
        f = v.f
        self.W, self.H = f["right"].f["width"], f["right"].f["height"]
        self.LW, self.LH = f["left"].f["width"], f["left"].f["height"]
        self.D = f["disparity_levels"]
        self.L, self.R = f["left"].f["data"], f["right"].f["data"]
        self.rep = f["reparametrization"]
        self.c, self.s = f["cleanness"], f["smoothness"]
        es = [self.W, self.H, self.LW, self.LH, self.D, self.L.arr,
              self.L.size, self.R.arr, self.R.size, self.rep.arr,
              self.rep.size, self.c, self.s]
        self.key = tuple(e.get_id() for e in es)
        GV._n.setdefault(self.key, (len(GV._n), es))
        self.id = GV._n[self.key][0]
        self.NN = self.W * self.H * self.D
        self.PEN = z3.Function("PEN$%d" % self.id, I_, I_, I_, R_)
        self.EPEN = z3.Function("EPEN$%d" % self.id, *([I_] * 6 + [R_]))
        self.LPM = z3.Function("LPM$%d" % self.id, I_, I_, R_)
        self.LNM = z3.Function("LNM$%d" % self.id, I_, I_, I_, R_)

    # --- predicates
    def inp(self, x, y):
        return And(0 <= x, x < self.W, 0 <= y, y < self.H)

    def box(self, x, y, d):
        return And(0 <= x, x < self.W, 0 <= y, y < self.H, 0 <= d, d < self.D)

    def ex(self, x, y, d):
        return And(0 <= x, x < self.W, 0 <= y, y < self.H, 0 <= d,
                   d < self.D, x + d < self.W)

    def nbex(self, x, y, k):
        """k-th neighbour of pixel (x,y) exists; k a Python int or z3"""
        c = [x + 1 < self.W, x > 0, y + 1 < self.H, y > 0]
        if isinstance(k, int):
            return And(self.inp(x, y), c[k])
        return And(self.inp(x, y), Or(*[And(k == i, c[i]) for i in range(4)]))

    def eex(self, x, y, d, x2, y2, d2):
        return And(self.ex(x, y, d), self.ex(x2, y2, d2), adj(x, y, x2, y2),
                   Implies(x2 == x + 1, d <= d2 + 1),
                   Implies(x == x2 + 1, d2 <= d + 1))

    def ni(self, x, y, d):
        return NI(self.H, self.D, x, y, d)

    def inv(self, i):
        return (NX(self.H, self.D, i), NY(self.H, self.D, i),
                ND(self.H, self.D, i))

    def pi(self, x, y):
        return PI(self.W, x, y)

    def nbi(self, x, y, k):
        return NBI(self.H, x, y, k if not isinstance(k, int) else z3.IntVal(k))

    # --- definitions
    def pen_def(self, x, y, d):
        a = z3.ToReal(Sel(self.R.arr, self.pi(x, y)))
        b = z3.ToReal(Sel(self.L.arr, self.pi(x + d, y)))
        r = self.c * ((a - b) * (a - b))
        for k in range(4):
            r = r + Sel(self.rep.arr, RI(self.H, self.D, x, y, d, z3.IntVal(k)))
        return r

    def epen_def(self, x, y, d, x2, y2, d2):
        dd = z3.ToReal(d) - z3.ToReal(d2)
        return self.s * (dd * dd) \
            - Sel(self.rep.arr, RI(self.H, self.D, x, y, d, kidx(x, y, x2, y2))) \
            - Sel(self.rep.arr, RI(self.H, self.D, x2, y2, d2,
                                   kidx(x2, y2, x, y)))

    def dims(self):
        W, H, D = self.W, self.H, self.D
        return [W >= 2, H >= 1, D >= 2, D <= W,
                W * H * 4 * D < 2 ** 60]

    def dims_derived(self):
        W, H, D = self.W, self.H, self.D
        B = 2 ** 58
        return [W * H >= 1, W * H <= B, H * D >= 1, H * D <= B, W * D <= B,
                W * H * D >= 1, W * H * D <= B, W * H >= W, W * H >= H,
                W * H * D >= W * H, W * H * D >= H * D, W <= B, H <= B,
                D <= B]

    def wf(self):
        W, H, D = self.W, self.H, self.D
        f = self.v.f
        return self.dims() + [
            self.LW == W, self.LH == H, self.L.size == W * H,
            self.R.size == W * H, self.rep.size == W * H * 4 * D,
            f["left"].f["max_value"] == f["right"].f["max_value"],
            f["left"].f["max_value"] > 0]


class LV:
    """view of a LowestPenalties value together with its graph"""
    _n = {}

    def __init__(self, gv, v):
        self.g = gv
        self.v = v
        self.pix, self.nb = v.f["pixels"], v.f["neighborhoods"]
        es = [self.pix.arr, self.pix.size, self.nb.arr, self.nb.size]
        self.key = gv.key + tuple(e.get_id() for e in es)
        LV._n.setdefault(self.key, (len(LV._n), es))
        self.id = LV._n[self.key][0]
        n = self.id
        self.EOKS = z3.Function("EOKS$%d" % n, *([R_] + [I_] * 6 + [B_]))
        self.SRN = z3.Function("SRN$%d" % n, R_, AB, I_, I_, I_, B_)
        self.SOLVED = z3.Function("SOLVED$%d" % n, R_, AB, B_)
        self.SOLVA = z3.Function("SOLVA$%d" % n, R_, AB, B_)
        self.SOLV = z3.Function("SOLV$%d" % n, R_, B_)
        self.PV = z3.Function("PV$%d" % n, R_, B_)

    def wf(self):
        g = self.g
        return [self.pix.size == g.W * g.H, self.nb.size == 4 * (g.W * g.H)]

    def pixv(self, x, y):
        return Sel(self.pix.arr, self.g.pi(x, y))

    def nbv(self, x, y, k):
        return Sel(self.nb.arr, self.g.nbi(x, y, k))

    def eoks_def(self, t, x, y, d, x2, y2, d2):
        g = self.g
        return And(g.eex(x, y, d, x2, y2, d2),
                   fsub(g.EPEN(x, y, d, x2, y2, d2),
                        self.nbv(x, y, kidx(x, y, x2, y2))) <= t)

    def eoka(self, t, A, x, y, d, x2, y2, d2):
        g = self.g
        return And(self.EOKS(t, x, y, d, x2, y2, d2), Sel(A, g.ni(x, y, d)),
                   Sel(A, g.ni(x2, y2, d2)))

    def sup(self, t, A, x, y, d, x2, y2, nm="d2"):
        g = self.g
        d2 = z3.Int(nm)
        return EX([d2], And(g.ex(x2, y2, d2),
                            self.EOKS(t, x, y, d, x2, y2, d2),
                            Sel(A, g.ni(x2, y2, d2))))

    def srn_def(self, t, A, x, y, d):
        g = self.g
        return And(Sel(A, g.ni(x, y, d)), Or(*[
            And(g.nbex(x, y, k), Not(self.sup(t, A, x, y, d, *NBR[k](x, y))))
            for k in range(4)]))

    def pixn(self, A, x, y):
        d = z3.Int("pd")
        g = self.g
        return EX([d], And(g.ex(x, y, d), Sel(A, g.ni(x, y, d))))

    def pixe(self, A, x, y):
        d = z3.Int("pd")
        g = self.g
        return FA([d], Implies(g.ex(x, y, d), Not(Sel(A, g.ni(x, y, d)))),
                  g.ni(x, y, d))

    def allone(self, A, vis=None):
        x, y, d, e = z3.Ints("ux uy ud ue")
        g = self.g
        v = vis(x, y) if vis is not None else TRUE
        return FA([x, y, d, e], Implies(And(
            g.ex(x, y, d), g.ex(x, y, e), v, Sel(A, g.ni(x, y, d)),
            Sel(A, g.ni(x, y, e))), d == e),
            z3.MultiPattern(g.ni(x, y, d), g.ni(x, y, e)))

    def edges(self, t, A, k):
        """available nodes of neighboring pixels have an available edge"""
        x, y, d, e = z3.Ints("ex ey ed ee")
        g = self.g
        x2, y2 = NBR[k](x, y)
        return FA([x, y, d, e], Implies(And(
            g.ex(x, y, d), g.ex(x2, y2, e), Sel(A, g.ni(x, y, d)),
            Sel(A, g.ni(x2, y2, e))), self.eoks_def(t, x, y, d, x2, y2, e)),
            z3.MultiPattern(g.ni(x, y, d), g.ni(x2, y2, e)))

    def fix(self, t, A):
        x, y, d = z3.Ints("fx fy fd")
        return FA([x, y, d], Implies(self.g.ex(x, y, d),
                                     Not(self.SRN(t, A, x, y, d))),
                  self.SRN(t, A, x, y, d), self.g.ni(x, y, d))

    def allpix(self, A, vis=None):
        x, y = z3.Ints("fx fy")
        v = TRUE if vis is None else vis(x, y)
        return FA([x, y], Implies(And(HOLE(x, y), self.g.inp(x, y), v),
                                  self.pixn(A, x, y)), HOLE(x, y))

    def solved_def(self, t, A):
        return And(self.fix(t, A), self.allpix(A))

    def empty(self, A):
        i = z3.Int("i")
        return FA([i], Implies(And(0 <= i, i < self.g.NN), Not(Sel(A, i))),
                  Sel(A, i))

    def nonempty(self, A):
        i = z3.Int("i")
        return EX([i], And(0 <= i, i < self.g.NN, Sel(A, i)))

    def avwf(self, A):
        i = z3.Int("i")
        return FA([i], Implies(And(0 <= i, i < self.g.NN, Sel(A, i)),
                               self.g.ex(*self.g.inv(i))), Sel(A, i))

    def sub(self, A, Bb):
        i = z3.Int("i")
        return FA([i], Implies(And(0 <= i, i < self.g.NN, Sel(A, i)),
                               Sel(Bb, i)), Sel(A, i), Sel(Bb, i))

    def lost(self, A0, A1):
        i = z3.Int("i")
        return EX([i], And(0 <= i, i < self.g.NN, Sel(A0, i),
                           Not(Sel(A1, i))))

    def initp(self, t, x, y, d):
        return And(self.g.ex(x, y, d),
                   fsub(self.g.PEN(x, y, d), self.pixv(x, y)) <= t)

    def init_arr(self, t, A):
        i = z3.Int("i")
        return FA([i], Implies(And(0 <= i, i < self.g.NN),
                               Sel(A, i) == self.initp(t, *self.g.inv(i))),
                  Sel(A, i))


HOLE = z3.Function("HOLE", I_, I_, B_)    # constantly true: a trigger
CNT = z3.Function("CNT", AB, I_, I_)      # number of true entries below n


# ------------------------------------------------------------------- axioms
class Axioms:
    """lemmas (each is itself discharged, see lemmas.py) and definitions;
    only those whose symbols occur in a query are added to it."""

    def __init__(self):
        self.used = set()
        self.skip = frozenset()
        self.items = []        # (key names, name, formula)
        import lib
        lib.base_axioms(self)
        index_axioms(self)
        self.done = set()

    def add(self, names, name, f):
        self.items.append((frozenset(names), name, f))

    def relevant(self, fs):
        import prover
        syms = set()
        for f in fs:
            syms |= prover.symbols(f)
        out = []
        left = [it for it in self.items if it[1] not in self.skip]
        ch = True
        self.used = getattr(self, "used", set())
        while ch:
            ch = False
            rest = []
            for it in left:
                if it[0] <= syms:
                    out.append(it[2])
                    self.used.add(it[1])
                    new = prover.symbols(it[2])
                    if not new <= syms:
                        syms |= new
                        ch = True
                else:
                    rest.append(it)
            left = rest
        return out


def index_axioms(ax):
    """index maps are injective on their domain (lemmas index-*)."""
    w, h, D, x, y, d, k = z3.Ints("w h D x y d k")
    ax.add({"HOLE"}, "trigger", FA([x, y], HOLE(x, y), HOLE(x, y)))
    ax.add({"PI"}, "index-pixel", FA([w, x, y], Implies(
        And(0 <= x, x < w, 0 <= y),
        And(PI(w, x, y) >= 0, PIX(w, PI(w, x, y)) == x,
            PIY(w, PI(w, x, y)) == y)), PI(w, x, y)))
    n = NI(h, D, x, y, d)
    ax.add({"NI"}, "index-node", FA([h, D, x, y, d], Implies(
        And(0 <= d, d < D, 0 <= y, y < h, 0 <= x),
        And(n >= 0, NX(h, D, n) == x, NY(h, D, n) == y, ND(h, D, n) == d)), n))
    n = NBI(h, x, y, k)
    ax.add({"NBI"}, "index-neighborhood", FA([h, x, y, k], Implies(
        And(0 <= k, k < 4, 0 <= y, y < h, 0 <= x),
        And(n >= 0, BX(h, n) == x, BY(h, n) == y, BK(h, n) == k)), n))
    n = RI(h, D, x, y, d, k)
    ax.add({"RI"}, "index-reparametrization", FA([h, D, x, y, d, k], Implies(
        And(0 <= d, d < D, 0 <= y, y < h, 0 <= x, 0 <= k, k < 4),
        And(n >= 0, RX(h, D, n) == x, RY(h, D, n) == y, RD(h, D, n) == d,
            RK(h, D, n) == k)), n))


def image_axioms(ax, w, h):
    x, y = z3.Ints("x y")
    ax.add({"PI"}, "index-pixel-bound", FA([x, y], Implies(
        And(0 <= x, x < w, 0 <= y, y < h), PI(w, x, y) < w * h), PI(w, x, y)))


class Guarded:
    """axioms of a graph that is only known to be well-formed on some paths"""

    def __init__(self, ax, guard):
        self.ax, self.guard = ax, guard

    def add(self, names, name, f):
        self.ax.add(names, name, Implies(self.guard, f))


def guarded(ax, g, wf):
    return ax if wf else Guarded(ax, And(*g.dims()))


def graph_axioms(ax, g, wf=True):
    """bounds for one well-formed graph (lemmas index-*-bound)."""
    if ("g", g.key) in ax.done:
        return
    ax.done.add(("g", g.key))
    ax = guarded(ax, g, wf)
    W, H, D = g.W, g.H, g.D
    x, y, d, k, i = z3.Ints("x y d k i")
    ax.add({"PI"}, "index-pixel-bound", FA([x, y], Implies(
        g.inp(x, y), PI(W, x, y) < W * H), PI(W, x, y)))
    ax.add({"NI"}, "index-node-bound", FA([x, y, d], Implies(
        g.box(x, y, d), NI(H, D, x, y, d) < W * H * D), NI(H, D, x, y, d)))
    nx, ny, nd = g.inv(i)
    for t in (nx, ny, nd):
        pass
    ax.add({"NX"}, "index-node-onto", FA([i], Implies(
        And(0 <= i, i < W * H * D),
        And(g.box(nx, ny, nd), NI(H, D, nx, ny, nd) == i)), nx))
    ax.add({"PIX"}, "index-pixel-onto", FA([i], Implies(
        And(0 <= i, i < W * H),
        And(g.inp(PIX(W, i), PIY(W, i)),
            PI(W, PIX(W, i), PIY(W, i)) == i)), PIX(W, i)))
    ax.add({"NBI"}, "index-neighborhood-bound", FA([x, y, k], Implies(
        And(g.inp(x, y), 0 <= k, k < 4), NBI(H, x, y, k) < 4 * (W * H)),
        NBI(H, x, y, k)))
    ax.add({"RI"}, "index-reparametrization-bound", FA([x, y, d, k], Implies(
        And(g.box(x, y, d), 0 <= k, k < 4),
        RI(H, D, x, y, d, k) < W * H * 4 * D), RI(H, D, x, y, d, k)))
    # the minimum over a non-empty finite set exists (definition of LPM/LNM)
    ax.add({g.LPM.name()}, "def-lowest-pixel", FA([x, y], Implies(
        g.inp(x, y), lpm_def(g, x, y, g.LPM(x, y))), g.LPM(x, y)))


def lpm_def(g, x, y, m):
    d = z3.Int("md")
    return And(FA([d], Implies(g.ex(x, y, d), m <= g.PEN(x, y, d)),
                  g.PEN(x, y, d)),
               EX([d], And(g.ex(x, y, d), m == g.PEN(x, y, d))))


def lnm_def(g, x, y, x2, y2, m):
    d, d2 = z3.Ints("md md2")
    e = (x, y, d, x2, y2, d2)
    return And(FA([d, d2], Implies(g.eex(*e), m <= g.EPEN(*e)), g.EPEN(*e)),
               EX([d, d2], And(g.eex(*e), m == g.EPEN(*e))))


def lp_axioms(ax, lv, I):
    """lemmas about arc consistency (lemmas.py) for one graph/penalties."""
    if ("l", lv.key) in ax.done:
        return
    ax.done.add(("l", lv.key))
    g = lv.g
    ax = guarded(ax, g, g.key in I.wfkeys)
    t, t2 = z3.Reals("t t2")
    A, C = z3.Consts("A C", AB)
    x, y, d, x2, y2, d2, i = z3.Ints("x y d x2 y2 d2 i")
    S = lv.SRN
    n = S.name()
    e = (x, y, d, x2, y2, d2)
    ax.add({lv.EOKS.name()}, "EOKS-exists", FA([t] + list(e), Implies(
        lv.EOKS(t, *e), g.eex(*e)), lv.EOKS(t, *e)))
    ax.add({n}, "SRN-available", FA([t, A, x, y, d], Implies(
        S(t, A, x, y, d), Sel(A, g.ni(x, y, d))), S(t, A, x, y, d)))
    differs = z3.Exists([i], And(
        0 <= i, i < g.NN, Sel(A, i) != Sel(C, i),
        Or(NX(g.H, g.D, i) != x, NY(g.H, g.D, i) != y)))
    ax.add({n}, "SRN-frame", FA([t, A, C, x, y, d], Implies(
        And(g.ex(x, y, d), Not(differs),
            Sel(A, g.ni(x, y, d)) == Sel(C, g.ni(x, y, d))),
        S(t, A, x, y, d) == S(t, C, x, y, d)),
        z3.MultiPattern(S(t, A, x, y, d), S(t, C, x, y, d))))
    K = ghostK(I, lv)
    tk = I.ghost.get("Kt")
    if tk is not None:
        # K is an arbitrary closed set at threshold Kt
        notsub = z3.Exists([i], And(0 <= i, i < g.NN, Sel(K, i),
                                    Not(Sel(A, i))))
        ax.add({n, K.decl().name()}, "closed-not-removed", FA(
            [A, x, y, d], Implies(And(g.ex(x, y, d), Not(notsub),
                                      Sel(K, g.ni(x, y, d))),
                                  Not(S(tk, A, x, y, d))),
            S(tk, A, x, y, d)))
        ax.add({K.decl().name(), "HOLE"}, "closed-connected", FA(
            [x, y], Implies(And(g.inp(x, y), HOLE(x, y), lv.pixe(K, x, y)),
                            lv.empty(K)), HOLE(x, y)))
    ax.add({lv.SOLVED.name()}, "def-SOLVED", FA([t, A], lv.SOLVED(t, A) ==
           lv.solved_def(t, A), lv.SOLVED(t, A)))
    ax.add({"CNT"}, "count-nonneg", FA([A, i], CNT(A, i) >= 0, CNT(A, i)))
    n2 = z3.Int("n")
    j = z3.Int("j")
    ax.add({"CNT"}, "count-monotone", FA([A, C, n2], Implies(
        FA([j], Implies(And(0 <= j, j < n2, Sel(A, j)), Sel(C, j)),
           Sel(A, j), Sel(C, j)),
        And(CNT(A, n2) <= CNT(C, n2),
            Implies(EX([j], And(0 <= j, j < n2, Sel(C, j), Not(Sel(A, j)))),
                    CNT(A, n2) < CNT(C, n2)))),
        z3.MultiPattern(CNT(A, n2), CNT(C, n2))))
    ax.add({lv.SOLVA.name(), lv.SOLV.name()}, "def-SOLV", FA([t, A], Implies(
        lv.init_arr(t, A), lv.SOLVA(t, A) == lv.SOLV(t)), lv.SOLVA(t, A)))
    ax.add({lv.SOLV.name()}, "SOLV-monotone", FA([t, t2], Implies(
        And(lv.SOLV(t), t <= t2), lv.SOLV(t2)),
        z3.MultiPattern(lv.SOLV(t), lv.SOLV(t2))))


def RJdef(J, j, y):
    """the row y is j, j + J, j + 2 J, ..."""
    k = z3.Int("rk")
    return EX([k], And(k >= 0, y == j + k * J))


def job_axioms(ax):
    if "jobs" in ax.done:
        return
    ax.done.add("jobs")
    J, j, y, z = z3.Ints("J j y z")
    ax.add({"RJ"}, "job-first", FA([J, j, y], Implies(
        J >= 1, And(RJ(J, j, j), Implies(RJ(J, j, y), y >= j))),
        RJ(J, j, y)))
    ax.add({"RJ"}, "job-next", FA([J, j, y, z], Implies(
        And(J >= 1, RJ(J, j, y), z == y + J), RJ(J, j, z)),
        z3.MultiPattern(RJ(J, j, y), RJ(J, j, z))))
    ax.add({"RJ"}, "job-gap", FA([J, j, y, z], Implies(
        And(J >= 1, RJ(J, j, y), y < z, z < y + J), Not(RJ(J, j, z))),
        z3.MultiPattern(RJ(J, j, y), RJ(J, j, z))))
    ax.add({"JOB"}, "job-range", FA([J, y], Implies(
        J >= 1, And(0 <= JOB(J, y), JOB(J, y) < J)), JOB(J, y)))
    ax.add({"RJ", "JOB"}, "job-of", FA([J, j, y], Implies(
        And(0 <= j, j < J, y >= 0), RJ(J, j, y) == (JOB(J, y) == j)),
        RJ(J, j, y)))


def threshold_axioms(ax, lv, I):
    """what the largest candidate means (lemma
    largest-threshold)"""
    if ("t", lv.key) in ax.done:
        return
    ax.done.add(("t", lv.key))
    g = lv.g
    ax = guarded(ax, g, g.key in I.wfkeys)
    t, u = z3.Reals("t u")
    z = z3.IntVal(0)
    ax.add({lv.PV.name(), g.PEN.name()}, "largest-threshold",
           lv.PV(fsub(g.PEN(z, z, z), lv.pixv(z, z))))
    ax.add({lv.PV.name(), lv.SOLV.name()}, "largest-threshold", FA(
        [t], Implies(FA([u], Implies(lv.PV(u), u <= t), lv.PV(u)),
                     lv.SOLV(t)), lv.SOLV(t)))


def labeling_axioms(ax, lv, I, t, A):
    """one node per pixel and arc consistency leave available edges (lemma
    labeling-consistent), for one availability"""
    if ("lab", lv.key, A.get_id()) in ax.done:
        return
    ax.done.add(("lab", lv.key, A.get_id()))
    g = lv.g
    ax = guarded(ax, g, g.key in I.wfkeys)
    for k in range(4):
        ax.add({lv.SOLVED.name()}, "labeling-consistent", Implies(
            And(lv.SOLVED(t, A), lv.allone(A)), lv.edges(t, A, k)))


def ghostK(I, lv):
    if "K" not in I.ghost:
        I.ghost["K"] = z3.Const("K$ghost", AB)
    return I.ghost["K"]


# ------------------------------------------------------------------- world
class World:
    """arbitrary well-formed objects the functions are verified on"""

    def __init__(self, I, st):
        self.I, self.st = I, st
        self.made = {}

    def ints(self, *names):
        out = []
        for n in names:
            v = z3.Int(n)
            self.st.fact(And(v >= 0, v < 2 ** 64))
            out.append(v)
        return out

    def arr(self, n, et):
        return z3.Const(n, z3.ArraySort(I_, ip.sort_of(et)))

    def DG(self):
        if "DG" in self.made:
            return Loc("DG")
        self.made["DG"] = 1
        st = self.st
        W, H, D, M = self.ints("W", "H", "D", "M")
        u = ("int", 64, False)
        wh = W * H
        v = Rec("DisparityGraph", {
            "left": Rec("Image", {"width": W, "height": H, "max_value": M,
                                  "data": Vec(self.arr("Ldata", u), wh, u)}),
            "right": Rec("Image", {"width": W, "height": H, "max_value": M,
                                   "data": Vec(self.arr("Rdata", u), wh, u)}),
            "disparity_levels": D,
            "reparametrization": Vec(self.arr("rep", ("real",)),
                                     W * H * 4 * D, ("real",)),
            "cleanness": z3.Real("cleanness"),
            "smoothness": z3.Real("smoothness")})
        v = self.order("DisparityGraph", v)
        st.mem["DG"] = v
        g = GV(self.I, v)
        for f in g.wf():
            st.fact(simp_true(f))
        for f in g.dims_derived():
            st.fact(f)
        self.I.wfkeys.add(g.key)
        graph_axioms(self.I.axioms, g)
        return Loc("DG")

    def order(self, name, v):
        want = [n for n, t in self.I.prog.records[name]["fields"]]
        if set(want) != set(v.f):
            raise Unsupported("fields of struct %s changed" % name)
        return v

    def LP(self):
        if "LP" in self.made:
            return Loc("LP")
        self.made["LP"] = 1
        dg = self.DG()
        g = GV(self.I, self.st.mem["DG"])
        v = Rec("LowestPenalties", {
            "graph": Ptr(dg, FALSE),
            "pixels": Vec(self.arr("LPpix", ("real",)), g.W * g.H, ("real",)),
            "neighborhoods": Vec(self.arr("LPnb", ("real",)),
                                 4 * (g.W * g.H), ("real",))})
        self.order("LowestPenalties", v)
        self.st.mem["LP"] = v
        lv = LV(g, v)
        self.I.wfkeys.add(lv.key)
        return Loc("LP")

    def CG(self):
        if "CG" in self.made:
            return Loc("CG")
        self.made["CG"] = 1
        dg, lp = self.DG(), self.LP()
        g = GV(self.I, self.st.mem["DG"])
        t = z3.Real("threshold")
        self.I.ghost["Kt"] = t
        v = Rec("ConstraintGraph", {
            "disparity_graph": Ptr(dg, FALSE),
            "lowest_penalties": Ptr(lp, FALSE),
            "nodes_availability": Vec(z3.Const("avail0", AB), g.NN,
                                      ("bool",)),
            "threshold": t})
        self.order("ConstraintGraph", v)
        self.st.mem["CG"] = v
        lp_axioms(self.I.axioms, LV(g, self.st.mem["LP"]), self.I)
        return Loc("CG")

    def IMG(self):
        if "IMG" in self.made:
            return Loc("IMG")
        self.made["IMG"] = 1
        u = ("int", 64, False)
        w, h, m, n = self.ints("iw", "ih", "im", "isize")
        self.I.extents.append((w, h))
        self.st.mem["IMG"] = self.order("Image", Rec("Image", {
            "width": w, "height": h, "max_value": m,
            "data": Vec(self.arr("idata", u), n, u)}))
        return Loc("IMG")

    def param(self, p):
        ct = ctype(ip.qt(p))
        t = (p.get("type") or {}).get("qualType", "")
        if ct[0] == "ptr":
            m = {"DisparityGraph": self.DG, "LowestPenalties": self.LP,
                 "ConstraintGraph": self.CG, "Image": self.IMG}
            b = ct[1].split("::")[-1].replace("struct ", "").strip()
            if b in m:
                return Ptr(m[b](), FALSE)
            raise Unsupported("parameter type " + t)
        v = self.I.fresh(ct, "p_" + p.get("name", "arg"), self.st)
        if ip.qt(p).rstrip().endswith("&"):
            return self.I.new_root("ref_" + p.get("name", "arg"), v, self.st)
        return v


def simp_true(f):
    return f


class Ctx:
    def __init__(self, I, c, fn, args, this, st, old, body=False):
        self.I, self.c, self.fn, self.args = I, c, fn, args
        self.this, self.st, self.old = this, st, old
        self.new, self.ret, self.body = old, None, body
        self.case = None
        self._pos = [ctype(ip.qt(p)) for p in ip.params(fn)]

    def check_shape(self):
        pass

    # parameters by kind, so that a reordered or extended parameter list is
    # noticed rather than silently misread
    def a(self, n):
        v = self.args[n]
        if isinstance(v, Loc):
            s = ip.State(dict(self.old), {}, ())
            v = self.I.read(s, v)
        if isinstance(v, ip.BitRef):
            s = ip.State(dict(self.old), {}, ())
            v = self.I.read(s, v.loc)
        return v

    def ptr(self, n):
        v = self.a(n)
        if not isinstance(v, Ptr) or v.loc is None:
            raise Unsupported("argument %d of %s is not a known object" % (
                n, self.c.short))
        return v

    def rd(self, loc, mem=None):
        s = ip.State(dict(mem if mem is not None else self.old), {}, ())
        return self.I.read(s, loc)

    def px(self, n):
        v = self.a(n)
        return v.f["x"], v.f["y"]

    def node(self, n):
        v = self.a(n)
        return v.f["pixel"].f["x"], v.f["pixel"].f["y"], v.f["disparity"]

    def edge(self, n):
        v = self.a(n)
        a, b = v.f["node"], v.f["neighbor"]
        return (a.f["pixel"].f["x"], a.f["pixel"].f["y"], a.f["disparity"],
                b.f["pixel"].f["x"], b.f["pixel"].f["y"], b.f["disparity"])

    def gv(self, loc, mem=None):
        g = GV(self.I, self.rd(loc, mem))
        graph_axioms(self.I.axioms, g, g.key in self.I.wfkeys)
        return g

    def g(self, n):
        return self.gv(self.ptr(n).loc)

    def lv(self, loc, mem=None):
        v = self.rd(loc, mem)
        p = v.f["graph"]
        if p.loc is None:
            raise Unsupported("unknown graph pointer")
        l = LV(self.gv(p.loc, mem), v)
        lp_axioms(self.I.axioms, l, self.I)
        return l

    def cg(self, n, mem=None):
        """(view of penalties, threshold, availability vector, location)"""
        return self.cgl(self.ptr(n).loc, mem)

    def cgl(self, loc, mem=None):
        v = self.rd(loc, mem)
        dp, lp = v.f["disparity_graph"], v.f["lowest_penalties"]
        if dp.loc is None or lp.loc is None:
            raise Unsupported("unknown graph pointer")
        lv = self.lv(lp.loc, mem)
        if self.rd(lp.loc, mem).f["graph"].loc.key() != dp.loc.key():
            raise Unsupported("penalties of another graph")
        return lv, v.f["threshold"], v.f["nodes_availability"], loc

    def wfg(self, g):
        if g.key in self.I.wfkeys:
            return []
        return [("well-formed graph", And(*g.wf()))]

    def wfl(self, lv):
        r = self.wfg(lv.g)
        if lv.key not in self.I.wfkeys:
            r.append(("well-formed penalties", And(*lv.wf())))
        return r

    def wfc(self, n):
        lv, t, av, loc = self.cg(n)
        r = self.wfl(lv)
        s = simp(av.size == lv.g.NN)
        if not is_true(s):
            r.append(("availability covers every node", av.size == lv.g.NN))
        v = self.rd(loc)
        for f in ("disparity_graph", "lowest_penalties"):
            if not z3.is_false(v.f[f].null):
                r.append((f + " is not null", Not(v.f[f].null)))
        return r


class Contract:
    rettype = None
    light = False
    exact = False          # differences of doubles are exact
    cases = (None,)
    nparams = None

    def __init__(self, name):
        self.name = name
        self.short = name.split("::")[-1]

    def covers(self, fn, I):
        n = len(ip.params(fn))
        return self.nparams is None or n == self.nparams

    def setup(self, W, fn, case):
        return [W.param(p) for p in ip.params(fn)]

    this_setup = None

    def assume(self, cx, case):
        return []

    def pre(self, cx):
        return []

    def throws(self, cx):
        return None

    def modifies(self, cx):
        return []

    def post(self, cx):
        return []

    def hints(self, cx):
        return []

    def invariants(self, L):
        return []

    def measures(self, L):
        return []

    def make_ret(self, cx, ct):
        return cx.I.fresh(ct, "r_" + self.short, cx.st)


CONTRACTS = {}
NS = {"image": "sp::image::", "ix": "sp::indexing::",
      "ck": "sp::indexing::checks::", "dg": "sp::graph::disparity::",
      "lp": "sp::graph::lowest_penalties::",
      "cg": "sp::graph::constraint::", "lf": "sp::labeling::finder::",
      "": ""}


def contract(ns, name, nparams=None, **kw):
    def deco(cls):
        c = cls(NS[ns] + name)
        c.nparams = nparams
        for k, v in kw.items():
            setattr(c, k, v)
        CONTRACTS[c.name] = c
        return cls
    return deco


# ============================================================ loop templates
def dim_hint(L, lp, c, g):
    """which of x,y,d a loop counter can stand for, from its guard"""
    I = L.I
    v = I.read(lp.ghead, c.loc)
    if isinstance(v, Iter):
        return {"i"}
    out = set()
    atoms = I.guard_atoms(lp.guard_expr)
    for a, b, strict in atoms:
        vs = _vars(a)
        if v.get_id() in vs:
            if simp(a).eq(simp(v)):
                if same(b, g.W) or same(b, g.LW):
                    out.add("x")
                elif same(b, g.H) or same(b, g.LH):
                    out.add("y")
                elif same(b, g.D):
                    out.add("d")
                elif z3.is_int_value(simp(b)):
                    out.add("k")
                else:
                    out |= {"x", "y", "d", "i"}
            else:
                out.add("d")
        elif v.get_id() in _vars(b):        # 0 < v : descending
            out |= {"x", "y", "d", "i"}
    if "d" in out and len(out) > 1 and not {"x", "y"} <= out:
        out = {"d"}
    return out or {"x", "y", "d", "i"}


def _vars(e):
    s, todo = set(), [e]
    while todo:
        t = todo.pop()
        if z3.is_const(t):
            s.add(t.get_id())
        todo.extend(t.children())
    return s


def seqs(L, g, dims):
    """all readings of the current loop nest as an enumeration of `dims`:
    lists of (dim, counter, value function)."""
    levels = []
    for lp in L.stack + [L]:
        opts = []
        for c in lp.counters:
            h = dim_hint(L, lp, c, g)
            for d in dims:
                if d in h:
                    opts.append((d, c))
        levels.append((lp, opts))
    res = [[]]
    for lp, opts in levels:
        nxt = []
        for r in res:
            used = {d for d, c in r}
            ok = [(d, c) for d, c in opts if d not in used]
            if not ok:
                nxt.append(r)
            else:
                for o in ok:
                    nxt.append(r + [o])
        res = nxt
    uniq, seen = [], set()
    for r in res:
        k = tuple((d, c.loc.key()) for d, c in r)
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    return uniq[:8]


def cval(I, s, c):
    v = I.read(s, c.loc)
    return v.pos if isinstance(v, Iter) else v


def before(I, s, c, e):
    """element e of the counter's dimension has already been visited"""
    v = cval(I, s, c)
    if getattr(c, "job", None):
        # only every jobs-th element is visited
        return And(RJ(*c.job, e), e < v)
    if c.dir > 0:
        return e < v
    # descending: `for (i = n; i > 0; --i) use(i-1)` visits e = i-1 < n;
    return e >= v


def lexi(I, s, seq, var):
    """var: dim -> term; elements visited by the nest so far"""
    out = []
    for i, (d, c) in enumerate(seq):
        eqs = [var[d2] == curval(I, s, c2) for d2, c2 in seq[:i]]
        out.append(And(*(eqs + [before(I, s, c, var[d])])))
    return Or(*out) if out else FALSE


def curval(I, s, c):
    """the element an enclosing loop is currently at"""
    return cval(I, s, c)


def sname(seq):
    return "/".join(d for d, c in seq)


def flag_family(L, nm, allf, exf=None):
    """invariants of the shape `flag says whether a witness was met`"""
    I = L.I
    out = [(nm + ":all", allf)]
    if exf is not None:
        pass
    for n, b in enumerate(L.bools):
        for pol in (True, False):
            def g(s, b=b, pol=pol):
                v = I.read(s, b)
                return v if pol else Not(v)
            out.append(("%s:flag%d=%s=>all" % (nm, n, pol),
                        lambda s, g=g: Implies(g(s), allf(s))))
            if exf is not None:
                out.append(("%s:flag%d=%s=>some" % (nm, n, pol),
                            lambda s, g=g: Implies(g(s), exf(s))))
    return out


def implies_flags(L, nm, f):
    I = L.I
    out = []
    for n, b in enumerate(L.bools):
        for pol in (True, False):
            def g(s, b=b, pol=pol):
                v = I.read(s, b)
                return v if pol else Not(v)
            out.append(("%s:flag%d=%s" % (nm, n, pol),
                        lambda s, g=g: Implies(g(s), f(s))))
    return out


def started(L, nm, f):
    """once the nest has made progress, f holds"""
    I = L.I
    cs = [c for lp in L.stack + [L] for c in lp.counters]
    if not cs:
        return []
    return [(nm + ":started", lambda s: Implies(
        Or(*[cval(I, s, c) != c.init for c in cs]), f(s)))]


import contracts_core     # noqa: E402,F401
import contracts_pgm      # noqa: E402,F401
import contracts_tool     # noqa: E402,F401
