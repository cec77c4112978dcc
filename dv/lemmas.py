"""Every axiom the function proofs use (specs.py, lib.py) is itself a lemma
here: it is discharged from the *definitions* of its symbols.

A lemma is a list of obligations (hypotheses, goal).  Induction over a natural
number appears as two obligations (base and step); the induction scheme itself
and the definitional extensions (functions defined by the formulas below) are
what is trusted.
"""
import z3
import specs
import lib
import interp as ip
import prover
from specs import (fsub, And, Or, Not, Implies, If, FA, EX, Sel, AB, I_, B_, R_,
                   PI, PIX, PIY, NI, NX, NY, ND, NBI, BX, BY, BK, RI, RX, RY,
                   RD, RK, HOLE, CNT, NBR, adj, kidx, PIdef, NIdef, NBIdef,
                   RIdef, lpm_def, lnm_def)
from interp import FALSE
from lib import MEMS, MEMW, SORTED, STRICT, RA

DEFINITIONAL = {"trigger", "def-SOLVED", "MEMS-def-1", "MEMS-def-2",
                "def-FNS", "def-FSP", "def-FNL", "def-SH",
                "def-token-position", "def-token-value"}
# facts about the standard library (see props.TRUSTED)
LIBRARY = {"stoul-kind", "stoul-range", "digits"}


class Lemmas:
    def __init__(self, prog):
        self.items = []          # (lemma, part, [hyps], goal)
        from interp import Interp, State
        self.ax = specs.Axioms()
        I = Interp(prog, specs.CONTRACTS, self.ax)
        I.wfkeys = set()
        st = State()
        W = specs.World(I, st)
        I.world = W
        I.curfn = None
        W.CG()
        import contracts_pgm as pg
        pg.in_world(W)
        self.stream = st.mem["IS"]
        self.reading = pg.Reading(I, self.stream, self.stream.f["pos"])
        g = specs.GV(I, st.mem["DG"])
        lv = specs.LV(g, st.mem["LP"])
        self.g, self.lv, self.I = g, lv, I
        specs.threshold_axioms(self.ax, lv, I)
        specs.job_axioms(self.ax)
        specs.labeling_axioms(self.ax, lv, I, z3.Real("t"), z3.Const("A1", AB))
        self.by = {}
        for k, n, f in self.ax.items:
            self.by.setdefault(n, []).append(f)
        self.build()

    def add(self, name, part, hyps, goal):
        self.items.append((name, part, list(hyps), goal))

    def axiom(self, name, hyps):
        for n, f in enumerate(self.by[name]):
            self.add(name, "" if len(self.by[name]) == 1 else str(n), hyps, f)

    # ------------------------------------------------------------------
    def build(self):
        g, lv = self.g, self.lv
        W, H, D = g.W, g.H, g.D
        dims = g.dims()
        self.arith()
        dd = dims + g.dims_derived()
        for n, f in enumerate(g.dims_derived()):
            # each consequence of the size limit on its own
            self.add("dims-derived", str(n), dims + self.mulpos(W, H, D), f)
        for n, f in enumerate(self.mulpos(W, H, D)):
            self.add("dims-products", str(n), [W >= 2, H >= 1, D >= 2], f)
        self.indexing(dd)
        self.minima(dd)
        self.csp(dd)
        self.counting()
        self.sortedness()
        self.solvability(dd)
        self.labelings(dd)
        self.symmetry()
        self.streams()
        self.jobs()

    # ------------------------------------------------- rows of parallel jobs
    def jobs(self):
        """RJ(J, j, y): y is j, j + J, j + 2 J, ...; JOB(J, y): y mod J"""
        J, j, y, z, k, k2 = z3.Ints("J j y z k k2")

        def row(y, k):
            # a witness of specs.RJdef
            return And(k >= 0, y == j + k * J)

        def mono(a, b):
            # products of natural numbers
            return Implies(And(a >= 0, b >= 1), And(a * b >= 0, Implies(
                a >= 1, a * b >= b)))
        self.add("job-product", "", [k >= 0, J >= 1], And(
            k * J >= 0, Implies(k >= 1, k * J >= J)))
        self.add("job-first", "itself", [J >= 1], row(j, z3.IntVal(0)))
        self.add("job-first", "least", [J >= 1, row(y, k), mono(k, J)],
                 y >= j)
        self.add("job-next", "", [J >= 1, row(y, k), z == y + J],
                 row(z, k + 1))
        self.add("job-gap", "", [
            J >= 1, row(y, k), row(z, k2), mono(k - k2, J), mono(k2 - k, J),
            (k - k2) * J == k * J - k2 * J, (k2 - k) * J == k2 * J - k * J,
            y < z], z >= y + J)
        div = Implies(J >= 1, And(J * (y / J) + y % J == y, 0 <= y % J,
                                  y % J < J))
        self.add("job-range", "", [J >= 1, div], And(0 <= y % J, y % J < J))
        self.add("job-of", "the job has the row", [
            J >= 1, 0 <= j, j < J, row(y, k), div, k * J == J * k,
            self.uniq(J, k, j, y / J, y % J)], y % J == j)
        self.add("job-of", "the row has the job", [
            J >= 1, 0 <= j, j < J, y >= 0, y % J == j, div,
            mono(-(y / J), J), (y / J) * J == J * (y / J),
            -(y / J) * J == -(J * (y / J))], row(y, y / J))
        # a pass without a report leaves a solved problem, in whichever order
        # the jobs run: DONE are the jobs that have run
        g, lv = self.g, self.lv
        t = z3.Real("t")
        A0, A1, K = z3.Consts("A0 A1 K$ghost", AB)
        x, d = z3.Ints("x d")
        DONE = z3.Function("DONE", z3.IntSort(), z3.BoolSort())
        axs = [f for n in ("job-range", "job-of", "trigger",
                           "index-node", "index-node-bound")
               for f in self.by[n]]

        def inv(A, done):
            return Or(lv.empty(A), And(
                lv.allpix(A, lambda x, y: And(
                    specs.RJ(J, specs.JOB(J, y), y), done(specs.JOB(J, y)))),
                FA([x, y, d], Implies(And(
                    g.ex(x, y, d), specs.RJ(J, specs.JOB(J, y), y),
                    done(specs.JOB(J, y))), Not(lv.SRN(t, A, x, y, d))),
                    lv.SRN(t, A, x, y, d))))

        class Job:
            I, ret, body = self.I, z3.BoolVal(False), False

            def a(self, n):
                return {1: J, 2: j}[n]
        c = specs.CONTRACTS["sp::graph::constraint::csp_solution_iteration"]
        silent = [f for _, f in c.share(Job(), lv, t, A0, A1, K)]
        parts = inv(A1, lambda k: Or(DONE(k), k == j)).children()[1].children()
        for n, f in enumerate(parts):
            self.add("any-order", "one more job %d" % n, axs + silent + [
                lv.sub(A1, A0), J >= 1, 0 <= j, j < J,
                inv(A0, lambda k: DONE(k))], Or(lv.empty(A1), f))
        self.add("any-order", "every job", axs + [J >= 1, inv(
            A1, lambda k: And(0 <= k, k < J))], Or(
                lv.empty(A1), lv.solved_def(t, A1)))

    def mulpos(self, W, H, D):
        return [W * H >= W, W * H >= H, W * H * D >= W * H,
                W * H * D >= H * D, W * H * D >= W * D, H * D >= 1,
                W * D >= D]

    # ------------------------------------------------------- arithmetic
    def arith(self):
        a, b, q, r, q2, r2 = z3.Ints("a b q r q2 r2")
        n = z3.Int("n")
        self.add("product-order", "", [a >= 0, q >= 1], a * q >= a)
        self.mulmono = FA([a, q], Implies(And(a >= 0, q >= 1), a * q >= a))
        # quotient and remainder are unique
        k = z3.Int("k")
        self.add("division-unique", "gap>=1", [
            b > 0, 0 <= r, r < b, 0 <= r2, r2 < b, q - q2 >= 1,
            b * (q - q2) >= b], b * q + r != b * q2 + r2)
        self.uniq = lambda b, q, r, q2, r2: Implies(
            And(b > 0, 0 <= r, r < b, 0 <= r2, r2 < b,
                b * q + r == b * q2 + r2), And(q == q2, r == r2))
        # (the two gaps are symmetric; equal quotients leave equal remainders)
        self.add("division-unique", "", [
            Implies(q - q2 >= 1, b * (q - q2) >= b),
            Implies(q2 - q >= 1, b * (q2 - q) >= b)],
            self.uniq(b, q, r, q2, r2))
        self.add("division", "", [
            self.uniq(b, q, r, (b * q + r) / b, (b * q + r) % b),
            Implies(b > 0, And(
                b * ((b * q + r) / b) + (b * q + r) % b == b * q + r,
                0 <= (b * q + r) % b, (b * q + r) % b < b))],
            Implies(And(b > 0, 0 <= r, r < b), And(
                (b * q + r) / b == q, (b * q + r) % b == r)))

    def div(self, b, q, r):
        """instance of lemma `division`"""
        e = b * q + r
        return Implies(And(b > 0, 0 <= r, r < b), And(e / b == q, e % b == r))

    # --------------------------------------------------------- indexing
    def indexing(self, dd):
        g = self.g
        W, H, D = g.W, g.H, g.D
        w, h, Dd, x, y, d, k, i = z3.Ints("w h D' x y d k i")

        def inst(name, vs, defs, hyps):
            f = self.by[name]
            for m, q in enumerate(f):
                body = z3.substitute_vars(q.body(), *reversed(vs))
                body = self.fold(body, defs)
                self.add(name, "", hyps, body)
        # definitions of the index functions and of their inverses
        IDX = [
            (PI, lambda w, x, y: PIdef(w, x, y)),
            (PIX, lambda w, i: i % w), (PIY, lambda w, i: i / w),
            (NI, lambda h, D, x, y, d: NIdef(h, D, x, y, d)),
            (NX, lambda h, D, i: i / D / h),
            (NY, lambda h, D, i: i / D % h),
            (ND, lambda h, D, i: i % D),
            (NBI, lambda h, x, y, k: NBIdef(h, x, y, k)),
            (BX, lambda h, i: i / 4 / h), (BY, lambda h, i: i / 4 % h),
            (BK, lambda h, i: i % 4),
            (RI, lambda h, D, x, y, d, k: RIdef(h, D, x, y, d, k)),
            (RX, lambda h, D, i: i / h / D / 4),
            (RK, lambda h, D, i: i / h / D % 4),
            (RD, lambda h, D, i: i / h % D), (RY, lambda h, D, i: i % h)]
        nn = [w * y >= 0, h * x >= 0, Dd * (y + h * x) >= 0,
              h * (d + Dd * (k + 4 * x)) >= 0, Dd * (k + 4 * x) >= 0]
        self.add("products-nonneg", "", [x >= 0, y >= 0, w >= 0],
                 w * y >= 0)
        inst("index-pixel", (w, x, y), IDX, [
            self.div(w, y, x), Implies(And(w >= 0, y >= 0), w * y >= 0)])
        e = y + h * x
        inst("index-node", (h, Dd, x, y, d), IDX, [
            self.div(Dd, e, d), self.div(h, x, y),
            Implies(And(h >= 0, x >= 0), h * x >= 0),
            Implies(And(Dd >= 0, e >= 0), Dd * e >= 0)])
        inst("index-neighborhood", (h, x, y, k), IDX, [
            self.div(z3.IntVal(4), e, k), self.div(h, x, y),
            Implies(And(h >= 0, x >= 0), h * x >= 0)])
        e2 = k + 4 * x
        e1 = d + Dd * e2
        inst("index-reparametrization", (h, Dd, x, y, d, k), IDX, [
            self.div(h, e1, y), self.div(Dd, e2, d),
            self.div(z3.IntVal(4), x, k),
            Implies(And(Dd >= 0, e2 >= 0), Dd * e2 >= 0),
            Implies(And(h >= 0, e1 >= 0), h * e1 >= 0)])
        # bounds
        mono = lambda a, b, n: Implies(And(a >= 0, b <= n), a * b <= a * n)
        self.add("product-monotone", "", [z3.Int("a") >= 0, z3.Int("b")
                                          <= z3.Int("n")],
                 z3.Int("a") * z3.Int("b") <= z3.Int("a") * z3.Int("n"))
        inst("index-pixel-bound", (x, y), IDX, dd + [mono(W, y, H - 1)])
        inst("index-node-bound", (x, y, d), IDX, dd + [
            mono(H, x, W - 1), mono(D, y + H * x, W * H - 1)])
        inst("index-neighborhood-bound", (x, y, k), IDX, dd + [
            mono(H, x, W - 1)])
        inst("index-reparametrization-bound", (x, y, d, k), IDX, dd + [
            mono(D, k + 4 * x, 4 * W - 1),
            mono(H, d + D * (k + 4 * x), 4 * W * D - 1)])

        # onto
        def dm(a, b):      # a = b * (a div b) + a mod b
            return Implies(b > 0, And(a == b * (a / b) + a % b, 0 <= a % b,
                                      a % b < b))

        def dlt(a, b, n):  # a < b * n -> a div b < n
            return Implies(And(b > 0, a < b * n), a / b < n)
        a, b, n, q, r = z3.Ints("a b n q r")
        self.add("quotient-bound", "", [
            a == b * q + r, 0 <= r, r < b, Implies(q >= n, b * q >= b * n)],
            Implies(And(b > 0, a < b * n), q < n))
        self.add("quotient-nonneg", "", [
            a == b * q + r, 0 <= r, r < b, Implies(q <= -1, b * q <= -b)],
            Implies(And(b > 0, a >= 0), q >= 0))

        def dge(a, b):
            return Implies(And(b > 0, a >= 0), a / b >= 0)
        inst("index-node-onto", (i,), IDX, dd + [
            dm(i, D), dm(i / D, H), dlt(i, D, W * H), dlt(i / D, H, W),
            dge(i, D), dge(i / D, H)])
        inst("index-pixel-onto", (i,), IDX, dd + [
            dm(i, W), dlt(i, W, H), dge(i, W)])

    def fold(self, e, defs):
        m = {f.name(): d for f, d in defs}
        cache = {}

        def go(t):
            k = t.get_id()
            if k in cache:
                return cache[k][1]
            if not z3.is_app(t):
                r = t
            else:
                kids = [go(c) for c in t.children()]
                nm = t.decl().name()
                if nm in m and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = m[nm](*kids)
                else:
                    r = t.decl()(*kids) if kids else t
            cache[k] = (t, r)
            return r
        return go(e)

    # ----------------------------------------------------------- minima
    def minima(self, dd):
        """a minimum over the finitely many nodes/edges exists"""
        g = self.g
        # generic: for every n, among the first n values of f that satisfy p
        # either there is none or there is a least one
        P = z3.Function("minP", I_, B_)
        F = z3.Function("minF", I_, R_)
        n, d = z3.Ints("n d")
        m = z3.Real("m")

        def none(n):
            return FA([d], Implies(And(0 <= d, d < n), Not(P(d))), P(d))

        def least(n, m):
            return And(FA([d], Implies(And(0 <= d, d < n, P(d)), m <= F(d)),
                          P(d)),
                       EX([d], And(0 <= d, d < n, P(d), m == F(d))))
        self.add("finite-minimum", "base", [], none(z3.IntVal(0)))
        m0 = z3.Real("m0")
        self.add("finite-minimum", "step, none so far, new",
                 [n >= 0, none(n), P(n)], least(n + 1, F(n)))
        self.add("finite-minimum", "step, none so far, not new",
                 [n >= 0, none(n), Not(P(n))], none(n + 1))
        self.add("finite-minimum", "step, some",
                 [n >= 0, least(n, m0)],
                 least(n + 1, If(And(P(n), F(n) < m0), F(n), m0)))
        # a value over pairs: minimise the inner minimum over the outer index
        # (instances for nodes and for edges; the sets are not empty)
        x, y, x2, y2 = z3.Ints("x y x2 y2")
        self.add("def-lowest-pixel", "not empty", dd + [g.inp(x, y)],
                 g.ex(x, y, z3.IntVal(0)))
        self.add("def-lowest-neighborhood", "not empty", dd + [
            g.inp(x, y), g.inp(x2, y2), adj(x, y, x2, y2)],
            g.eex(x, y, z3.IntVal(0), x2, y2, z3.IntVal(0)))
        # LPM is defined as the minimum that exists by `finite-minimum`
        PEN = g.PEN
        m = g.LPM(x, y)
        pp = z3.substitute  # noqa
        dn = z3.Int("dn")
        inst = And(FA([dn], Implies(And(0 <= dn, dn < g.D, g.ex(x, y, dn)),
                                    m <= PEN(x, y, dn)), PEN(x, y, dn)),
                   EX([dn], And(0 <= dn, dn < g.D, g.ex(x, y, dn),
                                m == PEN(x, y, dn))))
        self.add("def-lowest-pixel", "minimum over the column", dd + [
            g.inp(x, y), inst], lpm_def(g, x, y, m))
        # two nested minima: inner over d2 for every d, outer over d
        d1, d2 = z3.Ints("d1 d2")
        E = lambda a, b: g.eex(x, y, a, x2, y2, b)
        V = lambda a, b: g.EPEN(x, y, a, x2, y2, b)
        inner = z3.Function("innermin", I_, R_)
        some = lambda a: EX([d2], And(0 <= d2, d2 < g.D, E(a, d2)))
        innerdef = FA([d1], Implies(some(d1), And(
            FA([d2], Implies(E(d1, d2), inner(d1) <= V(d1, d2)), V(d1, d2)),
            EX([d2], And(E(d1, d2), inner(d1) == V(d1, d2))))), inner(d1))
        mm = z3.Real("mm")
        outer = And(FA([d1], Implies(And(0 <= d1, d1 < g.D, some(d1)),
                                     mm <= inner(d1)), inner(d1)),
                    EX([d1], And(0 <= d1, d1 < g.D, some(d1),
                                 mm == inner(d1))))
        a, b = z3.Ints("a b")
        self.add("def-lowest-neighborhood", "lower bound", [
            innerdef, outer, E(a, b), inner(a) == inner(a)], mm <= V(a, b))
        self.add("def-lowest-neighborhood", "attained", [innerdef, outer],
                 EX([d1, d2], And(E(d1, d2), mm == V(d1, d2))))
        self.note("def-lowest-neighborhood")

    def note(self, *names):
        pass

    # -------------------------------------------------------------- csp
    def csp(self, dd):
        g, lv = self.g, self.lv
        t, t2 = z3.Reals("t t2")
        A, C = z3.Consts("A C", AB)
        x, y, d, x2, y2, d2, i = z3.Ints("x y d x2 y2 d2 i")
        e = (x, y, d, x2, y2, d2)
        eoks = FA([t] + list(e), lv.EOKS(t, *e) == lv.eoks_def(t, *e),
                  lv.EOKS(t, *e))
        self.axiom("EOKS-exists", [eoks])
        srn = FA([t, A, x, y, d], lv.SRN(t, A, x, y, d) ==
                 lv.srn_def(t, A, x, y, d), lv.SRN(t, A, x, y, d))
        self.axiom("SRN-available", [srn])
        # SRN-frame, on skolem constants, unfolded by hand
        for m, f in enumerate(self.by["SRN-frame"]):
            vs = [z3.Const("f!%d" % n, f.var_sort(n))
                  for n in range(f.num_vars())]
            body = z3.substitute_vars(f.body(), *reversed(vs))
            T, A1, C1, X, Y, Dd = vs
            idx = [h for h in self.by["index-node"] +
                   self.by["index-node-bound"]]
            # sup(A) == sup(C) at each of the four neighbors
            diff = z3.Exists([i], And(
                0 <= i, i < g.NN, Sel(A1, i) != Sel(C1, i),
                Or(NX(g.H, g.D, i) != X, NY(g.H, g.D, i) != Y)))
            sups = []
            for k in range(4):
                xy = NBR[k](X, Y)
                s = Implies(And(g.nbex(X, Y, k), Not(diff)), lv.sup(
                    T, A1, X, Y, Dd, *xy) == lv.sup(T, C1, X, Y, Dd, *xy))
                for nm, (P, Q) in (("->", (A1, C1)), ("<-", (C1, A1))):
                    w = z3.Int("w")
                    hy = [g.nbex(X, Y, k), Not(diff), g.ex(*xy, w),
                          Sel(P, g.ni(*xy, w))] + idx + dd
                    self.add("SRN-frame", "neighbor %d %s" % (k, nm), hy,
                             Sel(Q, g.ni(*xy, w)))
                w = z3.Int("w")
                same = FA([w], Implies(And(
                    g.nbex(X, Y, k), Not(diff), g.ex(*xy, w)), Sel(
                        A1, g.ni(*xy, w)) == Sel(C1, g.ni(*xy, w))),
                    g.ni(*xy, w))
                self.add("SRN-frame", "support %d" % k, [same], s)
                sups.append(s)
            u = [lv.SRN(T, Q, X, Y, Dd) == lv.srn_def(T, Q, X, Y, Dd)
                 for Q in (A1, C1)]
            b = [z3.Bool("sup%d" % n) for n in range(8)]
            sub = []
            for k in range(4):
                xy = NBR[k](X, Y)
                sub += [(lv.sup(T, A1, X, Y, Dd, *xy), b[k]),
                        (lv.sup(T, C1, X, Y, Dd, *xy), b[4 + k])]
            ab = [z3.substitute(q, *sub) for q in sups + u + [body]]
            self.add("SRN-frame", "", ab[:-1], ab[-1])
        # K is closed: no node of K would be removed from K
        K = specs.ghostK(self.I, lv)
        tk = self.I.ghost["Kt"]
        closed = FA([x, y, d], Implies(And(g.ex(x, y, d), Sel(
            K, g.ni(x, y, d))), Not(lv.srn_def(tk, K, x, y, d))),
            g.ni(x, y, d))
        self.closed = closed
        idx = self.by["index-node"] + self.by["index-node-bound"] + \
            self.by["index-node-onto"]
        X, Y, Dd = z3.Ints("X Y Dd")
        notsub = z3.Exists([i], And(0 <= i, i < g.NN, Sel(K, i),
                                    Not(Sel(A, i))))
        for k in range(4):
            xy = NBR[k](X, Y)
            self.add("closed-not-removed", "support %d grows" % k, [
                g.nbex(X, Y, k), Not(notsub), lv.sup(tk, K, X, Y, Dd, *xy)]
                + idx + dd, lv.sup(tk, A, X, Y, Dd, *xy))
        sup = [[z3.Bool("supK%d" % k), z3.Bool("supA%d" % k)]
               for k in range(4)]
        kd = lv.srn_def(tk, K, X, Y, Dd)
        ad = lv.srn_def(tk, A, X, Y, Dd)
        sub = []
        grow = []
        for k in range(4):
            xy = NBR[k](X, Y)
            sub += [(lv.sup(tk, K, X, Y, Dd, *xy), sup[k][0]),
                    (lv.sup(tk, A, X, Y, Dd, *xy), sup[k][1])]
            grow.append(Implies(And(g.nbex(X, Y, k), sup[k][0]), sup[k][1]))
        self.add("closed-not-removed", "", grow + [
            Sel(K, g.ni(X, Y, Dd)), Not(z3.substitute(kd, *sub))],
            Not(z3.substitute(ad, *sub)))
        # connectivity: emptiness of a pixel spreads to its neighbors
        for k in range(4):
            xy = NBR[k](X, Y)
            back = (1, 0, 3, 2)[k]
            w = z3.Int("w")
            # if the neighbor had a node w of K, it would need support at
            # (X, Y), which is its neighbor number `back`
            self.add("closed-connected", "spread %d" % k, [
                g.inp(X, Y), g.nbex(X, Y, k), lv.pixe(K, X, Y),
                g.ex(*xy, w), Sel(K, g.ni(*xy, w)),
                Not(lv.srn_def(tk, K, *xy, w))] + dd, z3.BoolVal(False))
        # ... and so to the whole grid: first along the row, then along the
        # column (induction over the distance n in each direction)
        E = z3.Function("pixempty", I_, I_, B_)
        n = z3.Int("n")
        step = [FA([x, y], Implies(And(g.inp(x, y), g.nbex(x, y, k), E(x, y)),
                                   E(*NBR[k](x, y))), E(x, y))
                for k in range(4)]
        x0, y0 = z3.Ints("x0 y0")
        for nm, sx, sy in (("right", 1, 0), ("left", -1, 0), ("down", 0, 1),
                           ("up", 0, -1)):
            self.add("closed-connected", "induction %s base" % nm, [
                g.inp(x0, y0), E(x0, y0)], E(x0 + sx * 0, y0 + sy * 0))
            self.add("closed-connected", "induction %s step" % nm, step + [
                n >= 0, g.inp(x0 + sx * n, y0 + sy * n),
                g.inp(x0 + sx * (n + 1), y0 + sy * (n + 1)),
                E(x0 + sx * n, y0 + sy * n)],
                E(x0 + sx * (n + 1), y0 + sy * (n + 1)))
        # every pixel of the grid is reached by a row walk and a column walk
        N1 = z3.Function("walked", I_, I_, I_, I_, B_)
        row = FA([x, y, x2], Implies(And(g.inp(x, y), g.inp(x2, y), E(x, y)),
                                     E(x2, y)),
                 z3.MultiPattern(E(x, y), E(x2, y)))
        self.add("closed-connected", "rows", [
            FA([n], Implies(And(n >= 0, g.inp(x0 + n, y0)), E(x0 + n, y0))),
            FA([n], Implies(And(n >= 0, g.inp(x0 - n, y0)), E(x0 - n, y0))),
            g.inp(x0, y0), g.inp(X, y0),
            z3.Or(X == x0 + (X - x0), False)],
            E(X, y0)) if False else None
        for nm, hyp in (
            ("rows, right", [FA([n], Implies(And(n >= 0, g.inp(
                x0 + n, y0)), E(x0 + n, y0))), X >= x0]),
                ("rows, left", [FA([n], Implies(And(n >= 0, g.inp(
                    x0 - n, y0)), E(x0 - n, y0))), X <= x0])):
            nn = X - x0 if "right" in nm else x0 - X
            self.add("closed-connected", nm, [
                z3.substitute_vars(hyp[0].body(), nn), hyp[1], g.inp(x0, y0),
                g.inp(X, y0)], E(X, y0))
        for nm, hyp in (
            ("columns, down", [FA([n], Implies(And(n >= 0, g.inp(
                X, y0 + n)), E(X, y0 + n))), Y >= y0]),
                ("columns, up", [FA([n], Implies(And(n >= 0, g.inp(
                    X, y0 - n)), E(X, y0 - n))), Y <= y0])):
            nn = Y - y0 if "down" in nm else y0 - Y
            self.add("closed-connected", nm, [
                z3.substitute_vars(hyp[0].body(), nn), hyp[1], g.inp(X, y0),
                g.inp(X, Y)], E(X, Y))
        self.add("closed-connected", "no node is left", [
            FA([x, y, d], Implies(g.ex(x, y, d), Not(Sel(K, g.ni(x, y, d)))),
               g.ni(x, y, d)), lv.avwf(K)] + self.by["index-node-onto"] + dd,
            lv.empty(K))

    # --------------------------------------------------------- counting
    def counting(self):
        A, C = z3.Consts("A C", AB)
        n, j = z3.Ints("n j")

        def step(A, n):
            return CNT(A, n + 1) == CNT(A, n) + If(Sel(A, n), z3.IntVal(1),
                                                   z3.IntVal(0))
        z = z3.IntVal(0)
        base = [CNT(A, z) == 0, CNT(C, z) == 0]
        # (CNT(A, n) is defined as 0 for n <= 0)
        self.add("count-nonneg", "base", base, CNT(A, z) >= 0)
        self.add("count-nonneg", "step", [n >= 0, CNT(A, n) >= 0, step(A, n)],
                 CNT(A, n + 1) >= 0)

        def mono(n):
            sub = FA([j], Implies(And(0 <= j, j < n, Sel(A, j)), Sel(C, j)),
                     Sel(A, j), Sel(C, j))
            lost = EX([j], And(0 <= j, j < n, Sel(C, j), Not(Sel(A, j))))
            return Implies(sub, And(CNT(A, n) <= CNT(C, n),
                                    Implies(lost, CNT(A, n) < CNT(C, n))))
        self.add("count-monotone", "base", base, mono(z))
        self.add("count-monotone", "step", [n >= 0, mono(n), step(A, n),
                                            step(C, n)], mono(n + 1))

    # ------------------------------------------------------- sortedness
    def sortedness(self):
        a = z3.Const("a", RA)
        n, i, j = z3.Ints("n i j")
        v = z3.Real("v")
        sd = FA([a, n], SORTED(a, n) == FA([i, j], Implies(
            And(0 <= i, i <= j, j < n), Sel(a, i) <= Sel(a, j)),
            z3.MultiPattern(Sel(a, i), Sel(a, j))), SORTED(a, n))
        td = FA([a, n], STRICT(a, n) == FA([i, j], Implies(
            And(0 <= i, i < j, j < n), Sel(a, i) < Sel(a, j)),
            z3.MultiPattern(Sel(a, i), Sel(a, j))), STRICT(a, n))
        self.axiom("SORTED-def", [sd])
        self.axiom("SORTED-small", [sd])
        self.axiom("STRICT-def", [td])
        self.axiom("STRICT-small", [td])
        md = FA([a, n, v], MEMS(a, n, v) == EX([i], And(
            0 <= i, i < n, Sel(a, i) == v)), MEMS(a, n, v))
        self.axiom("MEMS-def-2", [md])

    # ------------------------------------------------------ solvability
    def solvability(self, dd):
        """the verdict of solve_csp, and how it depends on the threshold"""
        g, lv = self.g, self.lv
        i, x, y, d = z3.Ints("i x y d")
        t, t2 = z3.Reals("t t2")
        A, A1, A2, C = z3.Consts("A A1 A2 C", AB)
        K = specs.ghostK(self.I, lv)
        e = [z3.Int(n) for n in ("x", "y", "d", "x2", "y2", "d2")]
        idx = self.by["index-node"] + self.by["index-node-bound"] + \
            self.by["index-node-onto"]

        def closed(t, K):
            return FA([x, y, d], Implies(And(g.ex(x, y, d), Sel(
                K, g.ni(x, y, d))), Not(lv.SRN(t, K, x, y, d))),
                lv.SRN(t, K, x, y, d), g.ni(x, y, d))

        # SOLVA(t, A): some closed non-empty set of existing nodes within A
        def wit(t, A, K):
            return And(closed(t, K), lv.avwf(K), lv.sub(K, A),
                       lv.nonempty(K))
        # (1) solve_csp answers true -> what is left is such a set
        self.add("verdict", "true", [
            lv.solved_def(t, A1), lv.sub(A1, A), lv.avwf(A), lv.nonempty(A1)],
            wit(t, A, A1))
        # (2) it answers false -> every such set would still be there
        self.add("verdict", "false", [
            Implies(lv.sub(K, A), lv.sub(K, A1)), Not(lv.nonempty(A1)),
            wit(t, A, K)], z3.BoolVal(False))
        # SOLV(t): SOLVA(t, .) of the initial availability at t
        self.add("def-SOLV", "any initial array", [
            lv.init_arr(t, A), lv.init_arr(t, A2), lv.sub(K, A)],
            lv.sub(K, A2))
        self.add("initial-exists", "", [lv.init_arr(t, A)] + idx, lv.avwf(A))
        # monotone in the threshold
        self.add("SOLV-monotone", "initial", [
            t <= t2, lv.init_arr(t, A), lv.init_arr(t2, A2), lv.sub(K, A)],
            lv.sub(K, A2))
        X, Y, Dd = z3.Ints("X Y Dd")
        for k in range(4):
            xy = NBR[k](X, Y)
            w = z3.Int("w")
            ek = (X, Y, Dd) + tuple(xy) + (w,)
            self.add("SOLV-monotone", "support %d" % k, [
                t <= t2, lv.EOKS(t, *ek) == lv.eoks_def(t, *ek),
                lv.EOKS(t2, *ek) == lv.eoks_def(t2, *ek), lv.EOKS(t, *ek)],
                lv.EOKS(t2, *ek))
            mono = FA([w], Implies(lv.EOKS(t, *ek), lv.EOKS(t2, *ek)),
                      lv.EOKS(t, *ek))
            self.add("SOLV-monotone", "supported %d" % k, [
                mono, lv.sup(t, K, X, Y, Dd, *xy)],
                lv.sup(t2, K, X, Y, Dd, *xy))
        s1, s2, sub, imp = [], [], [], []
        for k in range(4):
            xy = NBR[k](X, Y)
            a, b = z3.Bool("s%d" % k), z3.Bool("r%d" % k)
            sub += [(lv.sup(t, K, X, Y, Dd, *xy), a),
                    (lv.sup(t2, K, X, Y, Dd, *xy), b)]
            imp.append(Implies(a, b))
        self.add("SOLV-monotone", "closed", imp + [
            Not(z3.substitute(lv.srn_def(t, K, X, Y, Dd), *sub))],
            Not(z3.substitute(lv.srn_def(t2, K, X, Y, Dd), *sub)))
        # the largest available threshold is solvable: every existing node
        PV = lv.PV
        M = z3.Real("M")
        pv = FA([z3.Real("u")], Implies(PV(z3.Real("u")), z3.Real("u") <= M),
                PV(z3.Real("u")))
        pd = specs.pvdef = None
        import contracts_core
        u = z3.Real("u")
        ud = PV(u) == contracts_core.pv_def(lv, u)
        u1 = fsub(g.PEN(X, Y, Dd), lv.pixv(X, Y))
        self.add("largest-threshold", "nodes", [
            z3.substitute(ud, (u, u1)), Implies(PV(u1), u1 <= M),
            g.ex(X, Y, Dd)], lv.initp(M, X, Y, Dd))
        for k in range(4):
            xy = NBR[k](X, Y)
            w = z3.Int("w")
            ek = (X, Y, Dd) + tuple(xy) + (w,)
            u2 = fsub(g.EPEN(*ek), lv.nbv(X, Y, k))
            self.add("largest-threshold", "edges %d" % k, [
                z3.substitute(ud, (u, u2)), Implies(PV(u2), u2 <= M),
                g.eex(*ek)], lv.eoks_def(M, *ek))
            # every existing node has an existing edge to every neighbor
            part = If(Dd >= 1, Dd - 1, z3.IntVal(0)) if k == 0 else Dd
            self.add("largest-threshold", "partner %d" % k, dd + [
                g.ex(X, Y, Dd), g.nbex(X, Y, k)],
                g.eex(X, Y, Dd, *xy, part))
            # ... which supports it in the set of all existing nodes
            self.add("largest-threshold", "supported %d" % k, [
                g.eex(X, Y, Dd, *xy, part), Implies(
                    g.eex(X, Y, Dd, *xy, part),
                    lv.EOKS(M, X, Y, Dd, *xy, part)),
                FA([X, Y, Dd], Implies(g.ex(X, Y, Dd), Sel(K, g.ni(
                    X, Y, Dd))), g.ni(X, Y, Dd))],
                lv.sup(M, K, X, Y, Dd, *xy))
        # that set is closed, not empty and initially available
        sub, imp = [], []
        for k in range(4):
            b = z3.Bool("s%d" % k)
            sub.append((lv.sup(M, K, X, Y, Dd, *NBR[k](X, Y)), b))
            imp.append(Implies(g.nbex(X, Y, k), b))
        self.add("largest-threshold", "closed", imp, Not(z3.substitute(
            lv.srn_def(M, K, X, Y, Dd), *sub)))
        i = z3.Int("i")
        self.add("largest-threshold", "available", [
            Sel(K, i) == g.ex(*g.inv(i)), Sel(A, i) == lv.initp(
                M, *g.inv(i)), Implies(g.ex(*g.inv(i)), lv.initp(
                    M, *g.inv(i)))], Implies(Sel(K, i), Sel(A, i)))
        z = z3.IntVal(0)
        self.add("largest-threshold", "not empty", dd, g.ex(z, z, z))
        # thresholds are exactly PV and increasing: the last is the largest
        v = z3.Const("v", RA)
        n, j = z3.Ints("n j")
        self.add("largest-threshold", "last", [
            STRICT(v, n), MEMS(v, n, u), n >= 1] + self.by["MEMS-def-1"] +
            self.by["STRICT-def"], u <= Sel(v, n - 1))
        self.add("largest-threshold", "some", [
            MEMS(v, n, u)] + self.by["MEMS-def-1"], n >= 1)
        self.add("largest-threshold", "offered", dd + [
            FA([x, y, d], Implies(g.ex(x, y, d), PV(
                fsub(g.PEN(x, y, d), lv.pixv(x, y)))), g.PEN(x, y, d))],
            PV(fsub(g.PEN(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)),
                    lv.pixv(z3.IntVal(0), z3.IntVal(0)))))

    # ------------------------------------------------------- labelings
    def labelings(self, dd):
        """what one node per pixel and arc consistency mean together"""
        g, lv = self.g, self.lv
        X, Y, Dd, w, i = z3.Ints("X Y Dd w i")
        t = z3.Real("t")
        A, A1 = z3.Consts("A A1", AB)
        idx = self.by["index-node"] + self.by["index-node-bound"]
        srn = FA([X, Y, Dd], lv.SRN(t, A1, X, Y, Dd) ==
                 lv.srn_def(t, A1, X, Y, Dd), lv.SRN(t, A1, X, Y, Dd))
        for k in range(4):
            xy = NBR[k](X, Y)
            # C16: the edge between the two chosen nodes is available
            self.add("labeling-consistent", str(k), [
                lv.fix(t, A1), srn, lv.allone(A1), g.ex(X, Y, Dd),
                g.ex(*xy, w), g.nbex(X, Y, k), Sel(A1, g.ni(X, Y, Dd)),
                Sel(A1, g.ni(*xy, w))],
                lv.EOKS(t, X, Y, Dd, *xy, w))
            ek = (X, Y, Dd) + tuple(xy) + (w,)
            self.add("labeling-consistent", "within the threshold %d" % k, [
                lv.EOKS(t, *ek) == lv.eoks_def(t, *ek), lv.EOKS(t, *ek)],
                lv.eoks_def(t, *ek))
            # (a pixel with an existing node at x+1 is a neighbor of x)
            self.add("labeling-consistent", "neighbors %d" % k, [
                g.ex(X, Y, Dd), g.ex(*xy, w)], g.nbex(X, Y, k))
            # C11: the nodes of a consistent labeling support each other
            self.add("labeling-closed", str(k), [
                g.ex(*xy, w), Sel(A, g.ni(*xy, w)),
                lv.EOKS(t, X, Y, Dd, *xy, w)], lv.sup(t, A, X, Y, Dd, *xy))
        s = []
        sub = []
        for k in range(4):
            b = z3.Bool("s%d" % k)
            sub.append((lv.sup(t, A, X, Y, Dd, *NBR[k](X, Y)), b))
            s.append(Implies(g.nbex(X, Y, k), b))
        self.add("labeling-closed", "not removed", s, Not(z3.substitute(
            lv.srn_def(t, A, X, Y, Dd), *sub)))
        # C16: a labeling within the initial nodes is itself a non-empty
        # closed set, so constraint propagation alone leaves nodes as well
        z = z3.IntVal(0)
        self.add("labeling-solvable", "some node", [
            lv.allpix(A1), specs.HOLE(z, z)] + dd, lv.pixn(A1, z, z))
        self.add("labeling-solvable", "not empty", [lv.pixn(A1, z, z)] + idx +
                 dd, lv.nonempty(A1))

    # --------------------------------------------------------- symmetry
    def symmetry(self):
        """edges do not depend on their direction"""
        g = self.g
        e = z3.Ints("x y d x2 y2 d2")
        f = e[3:] + e[:3]
        self.add("edge-symmetry", "existence", [], g.eex(*e) == g.eex(*f))
        self.add("edge-symmetry", "penalty", [], Implies(
            adj(e[0], e[1], e[3], e[4]),
            g.epen_def(*e) == g.epen_def(*f)))
        x, y = z3.Ints("x y")
        for k in range(4):
            xy = NBR[k](x, y)
            self.add("neighbor-inverse", str(k), [], And(
                kidx(x, y, *xy) == k, adj(x, y, *xy),
                *[a == b for a, b in zip(NBR[(1, 0, 3, 2)[k]](*xy), (x, y))]))
        self.add("neighbor-inverse", "only four", [], Implies(
            adj(x, y, e[3], e[4]), Or(*[And(
                e[3] == NBR[k](x, y)[0], e[4] == NBR[k](x, y)[1],
                kidx(x, y, e[3], e[4]) == k) for k in range(4)])))


    # ----------------------------------------------------------- streams
    def streams(self):
        """positions of the tokens of a text"""
        import contracts_pgm as pg
        import pgmlib
        r = self.reading
        s = r.s
        defs = [f for _, _, f in pgmlib.stream_defs(s)]
        p, q, k = z3.Ints("p q k")
        C, N = s.C, s.N
        N0 = [N >= 0]

        def at(f, v):
            return z3.substitute_vars(f.body(), v)

        def names(n):
            return [f for m, _, f in pgmlib.stream_lemmas(s) if m == n]
        end, fend = names("stream-end")
        # TS is defined by recursion: the argument grows up to N
        self.add("stream-defined", "the argument grows", defs + [
            0 <= p, p <= N, s.FNS(p) < N, s.FNL(s.FNS(p)) < N],
            And(s.FNL(s.FNS(p)) + 1 > p, s.FNL(s.FNS(p)) + 1 <= N))
        d = lambda v: pgmlib.ts_def(s, v)
        self.add("stream-end", "", defs + N0 + [d(N)], end)
        self.add("stream-end", "token", defs + N0, fend)
        b = names("stream-bounds")[0]
        # strong induction on N - p
        ih = FA([q], Implies(And(p < q), at(b, q)), s.TS(q))
        self.add("stream-bounds", "step", defs + [d(p), ih], at(b, p))
        f = s.FNS(p)
        self.add("stream-skip", "", defs + [d(p), d(f)],
                 at(names("stream-skip")[0], p))
        self.add("stream-step", "", defs + [d(p), d(p + 1)],
                 at(names("stream-step")[0], p))
        self.add("stream-line", "", defs,
                 at(names("stream-line")[0], p))
        # token positions
        low = And(0 <= p, p <= N)
        nxt = s.FSP(s.TS(p))
        self.add("token-position-bounds", "one token", defs + [b, low],
                 And(0 <= nxt, nxt <= N))
        one = FA([p], Implies(low, And(0 <= nxt, nxt <= N)), s.TS(p))
        tp = self.by["def-token-position"]
        start = And(0 <= r.p, r.p <= N)
        g = lambda v: And(0 <= r.P(v), r.P(v) <= N)
        self.add("token-position-bounds", "base", [one, start] + tp,
                 g(z3.IntVal(0)))
        self.add("token-position-bounds", "step", [one, g(k), k >= 0] + tp,
                 g(k + 1))
        a, b2, P_, Q_ = z3.Ints("a b P Q")
        self.add("product-equal", "", [a == P_, b2 == Q_], a * b2 == P_ * Q_)
        # C02: what the writer leaves is what the reader accepts, and it
        # reads the same image (std:: prints a number so that it reads it
        # back: the second group of hypotheses)
        w, h, m, size = z3.Ints("w h m size")
        tk, D = z3.Consts("tk D", z3.ArraySort(I_, I_))
        wh = w * h
        wrote = [Sel(tk, 1) == w, Sel(tk, 2) == h, Sel(tk, 3) == m,
                 FA([k], Implies(And(0 <= k, k < wh),
                                 Sel(tk, 4 + k) == Sel(D, k)), Sel(D, k)),
                 size == wh, size <= pg.MAXN, 0 <= w, 0 <= h, m <= 65536]
        text = [r.magic(), s.TS(r.P(wh)) == N] + [
            And(r.KIND(i) == 0, r.VAL(i) == Sel(tk, i)) for i in (1, 2, 3)] + [
            FA([k], Implies(And(0 <= k, k < wh), And(
                r.K(k) == 0, r.V(k) == Sel(tk, 4 + k))), r.K(k)),
            FA([k], Implies(And(0 <= k, k < wh), And(
                r.K(k) == 0, r.V(k) == Sel(tk, 4 + k))), Sel(D, k))]
        W, H = z3.Ints("W H")
        dims = [W == r.VAL(1), H == r.VAL(2), W * H == wh]
        self.add("round-trip", "extent", wrote + text + dims[:2],
                 W * H == wh)
        qq = z3.Int("qq")
        self.add("round-trip", "quotient", [w >= 0, h > 0, w > qq],
                 h * w >= h * qq + h)
        quo = [Implies(h > 0, And(h * (pg.MAXN / h) <= pg.MAXN,
                                  pg.MAXN < h * (pg.MAXN / h) + h)),
               Implies(And(w >= 0, h > 0, w > pg.MAXN / h),
                       h * w >= h * (pg.MAXN / h) + h)]
        acc = r.accept(FALSE, W, H, r.VAL(3), W * H)
        for n, f in enumerate(acc.children()):
            self.add("round-trip", "accepted %d" % n,
                     wrote + text + dims + quo + [W == w, H == h], f)
        self.add("round-trip", "same intensities", wrote + text, FA(
            [k], Implies(And(0 <= k, k < wh), r.V(k) == Sel(D, k)),
            Sel(D, k)))
        self.add("round-trip", "same size", wrote + text, And(
            r.VAL(1) == w, r.VAL(2) == h, r.VAL(3) == m))


def obligations(prog):
    return Lemmas(prog)


def check(prog, jobs=8, budget=1, verbose=False):
    import verify
    L = Lemmas(prog)

    class R:
        pass
    r = R()
    r.I = L.I
    r.obs = [ip.Obl("lemma", "lemma", n + (": " + p if p else ""), 0, h, gl)
             for n, p, h, gl in L.items]
    # no other axiom may be used in these proofs
    out = verify.discharge(r, jobs, budget, axioms=False)
    missing = sorted(set(L.by) - {n for n, _, _, _ in L.items} - DEFINITIONAL
                     - LIBRARY)
    return L, r.obs, out, missing


if __name__ == "__main__":
    from frontend import Program
    prog = Program(["image", "indexing", "indexing_checks",
                    "disparity_graph", "lowest_penalties",
                    "constraint_graph", "labeling_finder", "pgm_io"])
    L, obs, out, missing = check(prog)
    for o, (s, be, secs) in zip(obs, out):
        if s != "unsat" or secs > 2:
            print(s, be, o.desc, "%.1f" % secs)
    print(len(obs), "lemma obligations; without lemma:", missing)
