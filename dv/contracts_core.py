"""Contracts of the index, graph, penalty, constraint and labeling functions."""
import z3
import interp as ip
from interp import (Vec, Rec, Loc, Ptr, Iter, Opaque, Unsupported, TRUE, FALSE,
                    I_, B_, R_, simp, is_true)
from lib import MEMS, SORTED, STRICT
from specs import (contract, Contract, fsub, GV, LV, PI, PIX, PIY, NI, NX, NY, ND,
                   NBI, RI, PIdef, NIdef, NBIdef, RIdef, adj, kidx, NBR, FA,
                   EX, And, Or, Not, Implies, If, Sel, AB, seqs, lexi, before,
                   cval, curval, sname, flag_family, implies_flags, started,
                   lpm_def, lnm_def, image_axioms, CNT, HOLE, ghostK, lp_axioms,
                   labeling_axioms, job_axioms, RJ, JOB, THREADS)

U64 = 2 ** 64


def inc(v):
    return If(v == U64 - 1, z3.IntVal(0), v + 1)


def dec(v):
    return If(v == 0, z3.IntVal(U64 - 1), v - 1)


class OnGraph(Contract):
    """first parameter: const DisparityGraph*"""

    def pre(self, cx):
        return cx.wfg(cx.g(0))


def mono_hints(g, x, y, d, k=None):
    """products of in-range coordinates are in range (each is discharged)"""
    W, H, D = g.W, g.H, g.D
    r = [("x*H", Implies(And(0 <= x, x < W), And(0 <= H * x, H * x <= W * H - H))),
         ("x*D", Implies(And(0 <= x, x < W), And(0 <= D * x, D * x <= W * D - D))),
         ("y*W", Implies(And(0 <= y, y < H), And(0 <= W * y, W * y <= W * H - W))),
         ("y*D", Implies(And(0 <= y, y < H), And(0 <= D * y, D * y <= H * D - D))),
         ("d*H", Implies(And(0 <= d, d < D), And(0 <= d * H, d * H <= D * H - H))),
         ("x*H*D", Implies(And(0 <= x, x < W), And(
             0 <= D * H * x, D * H * x <= W * H * D - H * D)))]
    if k is not None:
        r += [("k*D", Implies(And(0 <= k, k < 4), And(0 <= k * D, k * D <= 3 * D))),
              ("k*H", Implies(And(0 <= k, k < 4), And(0 <= k * H, k * H <= 3 * H))),
              ("k*D*H", Implies(And(0 <= k, k < 4), And(
                  0 <= k * D * H, k * D * H <= 3 * (D * H))))]
    return r


# ------------------------------------------------------------------ indexing
@contract("ix", "pixel_index", 2)
class _(Contract):
    light = True

    def setup(self, W, fn, case):
        W.IMG()
        return Contract.setup(self, W, fn, case)

    def dom(self, cx):
        v = cx.rd(cx.ptr(0).loc)
        w, h = v.f["width"], v.f["height"]
        x, y = cx.px(1)
        return w, h, x, y, And(x < w, y < h, w * h < U64)

    def hints(self, cx):
        w, h, x, y, dom = self.dom(cx)
        return [("row offset", Implies(dom, And(0 <= w * y,
                                                w * y <= w * h - w)))]

    def post(self, cx):
        w, h, x, y, dom = self.dom(cx)
        unfold = getattr(cx.I.curfn, "unfold_index", False)
        e = PIdef(w, x, y) if cx.body or unfold else PI(w, x, y)
        if unfold and not cx.body:
            cx.I.product_facts(cx.st, w, y)
        return [("index of the pixel", Implies(dom, cx.ret == e))]


@contract("ix", "pixel_value", 2)
class _(Contract):
    def setup(self, W, fn, case):
        W.IMG()
        return Contract.setup(self, W, fn, case)

    def pre(self, cx):
        v = cx.rd(cx.ptr(0).loc)
        w, h = v.f["width"], v.f["height"]
        x, y = cx.px(1)
        if cx.body:
            image_axioms(cx.I.axioms, w, h)
        return [("pixel is inside the image", And(x < w, y < h)),
                ("data covers the image", v.f["data"].size == w * h)]

    def post(self, cx):
        v = cx.rd(cx.ptr(0).loc)
        x, y = cx.px(1)
        w = v.f["width"]
        e = PI(w, x, y)
        if getattr(cx.I.curfn, "unfold_index", False) and not cx.body:
            cx.I.product_facts(cx.st, w, y)
            e = PIdef(w, x, y)
        return [("intensity of the pixel",
                 cx.ret == Sel(v.f["data"].arr, e))]


@contract("ix", "neighbor_index", 2)
class _(Contract):
    light = True

    def post(self, cx):
        x, y = cx.px(0)
        x2, y2 = cx.px(1)
        M = U64 - 1
        return [("direction of the neighbor", Implies(
            And(x < M, y < M, x2 < M, y2 < M),
            cx.ret == If(adj(x, y, x2, y2), kidx(x, y, x2, y2),
                         z3.IntVal(4))))]


@contract("ix", "neighbor_by_index", 2)
class _(Contract):
    light = True

    def post(self, cx):
        x, y = cx.px(0)
        k = cx.a(1)
        r = cx.ret
        return [("x of the neighbor", r.f["x"] == If(
            k == 0, inc(x), If(k == 1, dec(x), x))),
            ("y of the neighbor", r.f["y"] == If(
                k == 2, inc(y), If(k == 3, dec(y), y)))]


@contract("ix", "node_index", 2)
class _(OnGraph):
    light = True

    def hints(self, cx):
        return mono_hints(cx.g(0), *cx.node(1))

    def post(self, cx):
        g = cx.g(0)
        n = cx.node(1)
        e = NIdef(g.H, g.D, *n) if cx.body else g.ni(*n)
        return [("index of the node", Implies(g.box(*n), cx.ret == e))]


@contract("ix", "neighborhood_index_fast", 3)
class _(OnGraph):
    light = True

    def hints(self, cx):
        x, y = cx.px(1)
        return mono_hints(cx.g(0), x, y, z3.IntVal(0))[:1]

    def post(self, cx):
        g = cx.g(0)
        x, y = cx.px(1)
        k = cx.a(2)
        e = NBIdef(g.H, x, y, k) if cx.body else g.nbi(x, y, k)
        return [("index of the neighborhood", Implies(
            And(g.inp(x, y), k < 4), cx.ret == e))]


class NbIdx(OnGraph):
    light = True

    def post(self, cx):
        g = cx.g(0)
        x, y, x2, y2 = self.pp(cx)
        return [("index of the neighborhood", Implies(
            And(g.inp(x, y), g.inp(x2, y2), adj(x, y, x2, y2)),
            cx.ret == g.nbi(x, y, kidx(x, y, x2, y2))))]


@contract("ix", "neighborhood_index", 3)
class _(NbIdx):
    def pp(self, cx):
        return cx.px(1) + cx.px(2)


@contract("ix", "neighborhood_index_slow", 2)
class _(NbIdx):
    def pp(self, cx):
        e = cx.edge(1)
        return e[0], e[1], e[3], e[4]


@contract("ix", "reparametrization_index_fast", 3)
class _(OnGraph):
    light = True

    def hints(self, cx):
        return mono_hints(cx.g(0), *cx.node(1), k=cx.a(2))

    def post(self, cx):
        g = cx.g(0)
        n = cx.node(1)
        k = cx.a(2)
        e = RIdef(g.H, g.D, *n, k) if cx.body else RI(g.H, g.D, *n, k)
        return [("index of the reparametrization element", Implies(
            And(g.box(*n), k < 4), cx.ret == e))]


class RepIdx(OnGraph):
    light = True

    def dom(self, cx):
        g = cx.g(0)
        x, y, d, x2, y2 = self.pp(cx)
        return And(g.box(x, y, d), g.inp(x2, y2), adj(x, y, x2, y2))

    def idx(self, cx):
        g = cx.g(0)
        x, y, d, x2, y2 = self.pp(cx)
        return RI(g.H, g.D, x, y, d, kidx(x, y, x2, y2))

    def post(self, cx):
        return [("index of the reparametrization element", Implies(
            self.dom(cx), cx.ret == self.idx(cx)))]


class RepVal(RepIdx):
    light = False

    def pre(self, cx):
        return cx.wfg(cx.g(0)) + [("the edge's pixels are neighbors in the "
                                   "image", self.dom(cx))]

    def post(self, cx):
        return [("reparametrization element",
                 cx.ret == Sel(cx.g(0).rep.arr, self.idx(cx)))]


class ByNodePixel:
    def pp(self, cx):
        return cx.node(1) + cx.px(2)


class ByEdge:
    def pp(self, cx):
        e = cx.edge(1)
        return e[0], e[1], e[2], e[3], e[4]


@contract("ix", "reparametrization_index", 3)
class _(ByNodePixel, RepIdx):
    pass


@contract("ix", "reparametrization_index_slow", 2)
class _(ByEdge, RepIdx):
    pass


@contract("ix", "reparametrization_value", 3)
class _(ByNodePixel, RepVal):
    pass


@contract("ix", "reparametrization_value_slow", 2)
class _(ByEdge, RepVal):
    pass


@contract("ix", "reparametrization_value_fast", 3)
class _(OnGraph):
    def pre(self, cx):
        return cx.wfg(cx.g(0)) + [("node and direction are in range", And(
            cx.g(0).box(*cx.node(1)), cx.a(2) < 4))]

    def post(self, cx):
        g = cx.g(0)
        return [("reparametrization element", cx.ret == Sel(
            g.rep.arr, RI(g.H, g.D, *cx.node(1), cx.a(2))))]


# ------------------------------------------------------------------ existence
@contract("ck", "neighborhood_exists_fast", 3)
class _(OnGraph):
    light = True

    def post(self, cx):
        return [("existence of the neighborhood",
                 cx.ret == cx.g(0).nbex(*cx.px(1), cx.a(2)))]


@contract("ck", "neighborhood_exists", 3)
class _(OnGraph):
    light = True

    def post(self, cx):
        g = cx.g(0)
        x, y = cx.px(1)
        x2, y2 = cx.px(2)
        M = U64 - 1
        return [("existence of the neighborhood", Implies(
            And(x2 < M, y2 < M, x < M, y < M),
            cx.ret == And(g.inp(x, y), g.inp(x2, y2),
                          adj(x, y, x2, y2))))]


@contract("ck", "node_exists", 2)
class _(OnGraph):
    light = True

    def post(self, cx):
        return [("existence of the node",
                 cx.ret == cx.g(0).ex(*cx.node(1)))]


@contract("ck", "edge_exists", 2)
class _(OnGraph):
    light = True

    def post(self, cx):
        return [("existence of the edge", cx.ret == cx.g(0).eex(*cx.edge(1)))]


# ------------------------------------------------------------------ penalties
@contract("dg", "node_penalty", 2)
class _(OnGraph):
    exact = True

    def pre(self, cx):
        return cx.wfg(cx.g(0)) + [("the node exists",
                                   cx.g(0).ex(*cx.node(1)))]

    def post(self, cx):
        g = cx.g(0)
        n = cx.node(1)
        return [("penalty of the node", cx.ret == (
            g.pen_def(*n) if cx.body else g.PEN(*n)))]


def edge_dom(g, e):
    return And(g.box(*e[:3]), g.box(*e[3:]), adj(e[0], e[1], e[3], e[4]))


@contract("dg", "edge_penalty", 2)
class _(OnGraph):
    exact = True

    def pre(self, cx):
        return cx.wfg(cx.g(0)) + [("nodes in range at neighboring pixels",
                                   edge_dom(cx.g(0), cx.edge(1)))]

    def post(self, cx):
        g = cx.g(0)
        e = cx.edge(1)
        return [("penalty of the edge", cx.ret == (
            g.epen_def(*e) if cx.body else g.EPEN(*e)))]


# ------------------------------------------------------------------ minima
def reals_in_scope(L):
    """locations of FLOAT variables alive at the loop"""
    I = L.I
    out, seen = [], set()

    def go(l, v, dep):
        if isinstance(v, z3.ExprRef):
            if z3.is_real(v) and l.key() not in seen:
                seen.add(l.key())
                out.append(l)
        elif isinstance(v, Rec) and dep < 3 and v.name not in (
                "DisparityGraph", "LowestPenalties", "ConstraintGraph",
                "Image"):
            for k, x in v.f.items():
                go(l.sub(k), x, dep + 1)
    for r, v in L.entry.mem.items():
        if r.startswith("$tmp") or r.startswith("$NEIGH"):
            continue
        go(Loc(r), v, 0)
    return out


def min_templates(L, tag, visited, pen, guard, vs, reals=None):
    """m is at most every visited penalty / m is one of the penalties;
    visited(s, vs), guard(vs), pen(vs) are terms"""
    I = L.I
    out = []
    for n, l in enumerate(reals if reals is not None else L.reals):
        def low(s, l=l):
            return FA(vs, Implies(And(guard, visited(s)),
                                  I.read(s, l) <= pen), pen)

        def att(s, l=l):
            return EX(vs, And(guard, I.read(s, l) == pen))

        def attv(s, l=l):
            return EX(vs, And(guard, visited(s), I.read(s, l) == pen))
        out.append(("%s:lower-bound%d" % (tag, n), low))
        out.append(("%s:attained%d" % (tag, n), att))
        out += started(L, "%s:lower-bound%d" % (tag, n), low)
        out += started(L, "%s:attained%d" % (tag, n), att)
        out += implies_flags(L, "%s:attained%d" % (tag, n), attv)
        out += implies_flags(L, "%s:lower-bound%d" % (tag, n), low)
    return out


@contract("lp", "calculate_lowest_pixel_penalty", 2)
class _(OnGraph):
    def pre(self, cx):
        return cx.wfg(cx.g(0)) + [("the pixel is in the image",
                                   cx.g(0).inp(*cx.px(1)))]

    def post(self, cx):
        g = cx.g(0)
        x, y = cx.px(1)
        return [("minimum over the existing nodes of the pixel",
                 lpm_def(g, x, y, cx.ret) if cx.body
                 else cx.ret == g.LPM(x, y))]

    def invariants(self, L):
        cx = L.I.curctx
        g = cx.g(0)
        x, y = cx.px(1)
        d = z3.Int("vd")
        out = []
        for sq in seqs(L, g, ["d"]):
            if sq:
                out += min_templates(
                    L, "pixel-min", lambda s, sq=sq: lexi(L.I, s, sq, {"d": d}),
                    g.PEN(x, y, d), g.ex(x, y, d), [d])
        return out


def edge_seqs(L, g):
    """readings of a loop nest as an enumeration of (d, d2)"""
    cs = []
    for lp in L.stack + [L]:
        cs.append(list(lp.counters))
    res = []
    if len(cs) == 1:
        for c in cs[0]:
            res.append([("d", c)])
            res.append([("e", c)])
    else:
        for c1 in cs[-2]:
            for c2 in cs[-1]:
                res.append([("d", c1), ("e", c2)])
                res.append([("e", c1), ("d", c2)])
    return res


class NbMin(OnGraph):
    def pre(self, cx):
        g = cx.g(0)
        return cx.wfg(g) + [("the pixels are neighbors in the image",
                             self.dom(cx))]

    def dom(self, cx):
        g = cx.g(0)
        x, y, x2, y2 = self.pp(cx)
        return And(g.inp(x, y), g.inp(x2, y2), adj(x, y, x2, y2))

    def post(self, cx):
        g = cx.g(0)
        x, y, x2, y2 = self.pp(cx)
        if cx.body and self.direct:
            f = lnm_def(g, x, y, x2, y2, cx.ret)
        else:
            f = cx.ret == g.LNM(x, y, kidx(x, y, x2, y2))
        return [("minimum over the existing edges", f)]

    direct = False

    def invariants(self, L):
        cx = L.I.curctx
        g = cx.g(0)
        x, y, x2, y2 = self.pp(cx)
        d, e = z3.Ints("vd ve")
        out = []
        for sq in edge_seqs(L, g):
            out += min_templates(
                L, "edge-min " + sname(sq),
                lambda s, sq=sq: lexi(L.I, s, sq, {"d": d, "e": e}),
                g.EPEN(x, y, d, x2, y2, e), g.eex(x, y, d, x2, y2, e), [d, e])
        return out


@contract("lp", "calculate_lowest_neighborhood_penalty_fast", 2)
class _(NbMin):
    direct = True

    def pp(self, cx):
        e = cx.edge(1)
        return e[0], e[1], e[3], e[4]

    def dom(self, cx):
        return cx.g(0).eex(*cx.edge(1))


@contract("lp", "calculate_lowest_neighborhood_penalty", 3)
class _(NbMin):
    def pp(self, cx):
        return cx.px(1) + cx.px(2)


@contract("lp", "calculate_lowest_neighborhood_penalty_slow", 3)
class _(OnGraph):
    def pre(self, cx):
        g = cx.g(0)
        return cx.wfg(g) + [("the neighborhood exists",
                             g.nbex(*cx.px(1), cx.a(2)))]

    def post(self, cx):
        return [("minimum over the existing edges",
                 cx.ret == cx.g(0).LNM(*cx.px(1), cx.a(2)))]


class OnPen(Contract):
    def pre(self, cx):
        return cx.wfl(self.l(cx))

    def l(self, cx):
        return cx.lv(cx.ptr(0).loc)


@contract("lp", "lowest_pixel_penalty", 2)
class _(OnPen):
    def pre(self, cx):
        l = self.l(cx)
        return cx.wfl(l) + [("the pixel is in the image", l.g.inp(*cx.px(1)))]

    def post(self, cx):
        return [("stored value", cx.ret == self.l(cx).pixv(*cx.px(1)))]


class NbStored(OnPen):
    def pre(self, cx):
        l = self.l(cx)
        x, y, x2, y2 = self.pp(cx)
        return cx.wfl(l) + [("the pixels are neighbors in the image", And(
            l.g.inp(x, y), l.g.inp(x2, y2), adj(x, y, x2, y2)))]

    def post(self, cx):
        x, y, x2, y2 = self.pp(cx)
        return [("stored value", cx.ret == self.l(cx).nbv(
            x, y, kidx(x, y, x2, y2)))]


@contract("lp", "lowest_neighborhood_penalty_fast", 3)
class _(NbStored):
    def pp(self, cx):
        return cx.px(1) + cx.px(2)


@contract("lp", "lowest_neighborhood_penalty", 2)
class _(NbStored):
    def pp(self, cx):
        e = cx.edge(1)
        return e[0], e[1], e[3], e[4]


def pixel_seqs(L, g):
    return [s for s in seqs(L, g, ["x", "y"]) if s]


def node_seqs(L, g):
    return [s for s in seqs(L, g, ["x", "y", "d"]) if s]


def full(seq, dims):
    return {d for d, c in seq} == set(dims)


def lexv(I, s, sq, x, y, d=None):
    return lexi(I, s, sq, {"x": x, "y": y, "d": d})


@contract("lp", "LowestPenalties::LowestPenalties", 1)
class _(OnGraph):
    def modifies(self, cx):
        return [cx.this.sub(f) for f in ("pixels", "neighborhoods")] + (
            [cx.this.sub("graph")] if cx.body else [])

    def post(self, cx):
        g = cx.g(0)
        v = cx.rd(cx.this, cx.new)
        x, y = z3.Ints("x y")
        if not cx.body:
            cx.I.write(cx.st, cx.this.sub("graph"), cx.a(0))
            v = cx.rd(cx.this, cx.st.mem)
        p = v.f["graph"]
        same = TRUE if p.loc is not None and \
            p.loc.key() == cx.ptr(0).loc.key() and z3.is_false(p.null) \
            else FALSE
        px, nb = v.f["pixels"], v.f["neighborhoods"]
        return [("graph is remembered", same),
                ("size of the pixel minima", px.size == g.W * g.H),
                ("size of the neighborhood minima",
                 nb.size == 4 * (g.W * g.H)),
                ("every pixel minimum is stored", self.pixok(g, px, TRUE)),
                ] + [("every neighborhood minimum is stored (direction %d)"
                      % k, self.nbok(g, nb, k, TRUE)) for k in range(4)]

    def pixok(self, g, px, vis):
        x, y = z3.Ints("x y")
        return FA([x, y], Implies(And(g.inp(x, y), vis), Sel(
            px.arr, g.pi(x, y)) == g.LPM(x, y)), g.pi(x, y))

    def nbok(self, g, nb, k, vis):
        x, y = z3.Ints("x y")
        return FA([x, y], Implies(And(g.nbex(x, y, k), vis), Sel(
            nb.arr, g.nbi(x, y, k)) == g.LNM(x, y, z3.IntVal(k))),
            g.nbi(x, y, k))

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        g = cx.g(0)
        x, y = z3.Ints("x y")
        out = []
        for sq in pixel_seqs(L, g):
            nm = sname(sq)

            def vis(s, sq=sq):
                return lexv(I, s, sq, x, y)
            out.append(("pixels " + nm, lambda s, vis=vis: self.pixok(
                g, I.read(s, cx.this.sub("pixels")), vis(s))))
            for k in range(4):
                out.append(("neighborhoods %d %s" % (k, nm),
                            lambda s, vis=vis, k=k: self.nbok(g, I.read(
                                s, cx.this.sub("neighborhoods")), k, vis(s))))
        return out


# ------------------------------------------------------------------ constraint
class OnCG(Contract):
    """first parameter: ConstraintGraph*"""

    def pre(self, cx):
        return cx.wfc(0)

    def av(self, cx, mem=None):
        return cx.cg(0, mem)[2].arr

    def avloc(self, cx):
        return cx.ptr(0).loc.sub("nodes_availability")

    def kept_size(self, cx):
        return ("size is kept", cx.cg(0, cx.new)[2].size
                == cx.cg(0)[2].size)


class SetNode(OnCG):
    def pre(self, cx):
        lv = cx.cg(0)[0]
        return cx.wfc(0) + [("the node is in range", lv.g.box(*cx.node(1)))]

    def modifies(self, cx):
        return [self.avloc(cx).sub("arr")]

    def post(self, cx):
        lv = cx.cg(0)[0]
        return [("exactly this node is set", self.av(cx, cx.new) == z3.Store(
            self.av(cx), lv.g.ni(*cx.node(1)), self.value))]


@contract("cg", "make_node_available", 2)
class _(SetNode):
    value = TRUE


@contract("cg", "make_node_unavailable", 2)
class _(SetNode):
    value = FALSE


@contract("cg", "make_all_nodes_unavailable", 1)
class _(OnCG):
    def modifies(self, cx):
        return [self.avloc(cx).sub("arr")]

    def post(self, cx):
        return [("no node is left", cx.cg(0)[0].empty(self.av(cx, cx.new)))]

    def invariants(self, L):
        cx = L.I.curctx
        i = z3.Int("i")
        NN = cx.cg(0)[0].g.NN
        return [("cleared", lambda s, c=c: FA([i], Implies(And(
            0 <= i, i < NN, before(L.I, s, c, i)), Not(Sel(
                L.I.read(s, self.avloc(cx)).arr, i)))))
            for c in L.counters]


@contract("cg", "is_node_available", 2)
class _(SetNode):
    def modifies(self, cx):
        return []

    def post(self, cx):
        lv = cx.cg(0)[0]
        return [("availability of the node",
                 cx.ret == Sel(self.av(cx), lv.g.ni(*cx.node(1))))]


@contract("cg", "is_edge_available", 2)
class _(OnCG):
    def pre(self, cx):
        g = cx.cg(0)[0].g
        return cx.wfc(0) + [("nodes in range at neighboring pixels",
                             edge_dom(g, cx.edge(1)))]

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        e = cx.edge(1)
        if cx.body:
            f = And(lv.eoks_def(t, *e), Sel(av.arr, lv.g.ni(*e[:3])),
                    Sel(av.arr, lv.g.ni(*e[3:])))
        else:
            f = lv.eoka(t, av.arr, *e)
        return [("availability of the edge", cx.ret == f)]


@contract("cg", "should_remove_node", 2)
class _(OnCG):
    def pre(self, cx):
        g = cx.cg(0)[0].g
        return cx.wfc(0) + [("the node is in range", g.box(*cx.node(1)))]

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        n = cx.node(1)
        return [("arc consistency of the node", cx.ret == (
            lv.srn_def(t, av.arr, *n) if cx.body
            else lv.SRN(t, av.arr, *n)))]

    def invariants(self, L):
        cx = L.I.curctx
        lv, t, av, _ = cx.cg(0)
        n = cx.node(1)
        e = z3.Int("ve")
        out = []
        for ci, c in enumerate(L.counters):
            for k in range(4):
                p2 = NBR[k](n[0], n[1])
                ok = lv.eoka(t, av.arr, *n, *p2, e)

                def none(s, c=c, ok=ok):
                    return FA([e], Implies(before(L.I, s, c, e), Not(ok)),
                              lv.EOKS(t, *n, *p2, e))

                def none(s, c=c, p2=p2):
                    ok = lv.eoka(t, av.arr, *n, *p2, e)
                    return FA([e], Implies(before(L.I, s, c, e), Not(ok)),
                              lv.EOKS(t, *n, *p2, e))

                def some(s, p2=p2):
                    return lv.sup(t, av.arr, *n, *p2)
                out += flag_family(L, "unsupported%d.%d" % (ci, k), none, some)
        return out


@contract("cg", "check_nodes_left", 1)
class _(OnCG):
    def post(self, cx):
        return [("some node is left",
                 cx.ret == cx.cg(0)[0].nonempty(self.av(cx)))]

    def invariants(self, L):
        cx = L.I.curctx
        i = z3.Int("i")
        lv, t, av, _ = cx.cg(0)
        out = []
        for n, c in enumerate(L.counters):
            out += flag_family(
                L, "none-left%d" % n, lambda s, c=c: FA([i], Implies(And(
                    0 <= i, i < lv.g.NN, before(L.I, s, c, i)),
                    Not(Sel(av.arr, i))), Sel(av.arr, i)),
                lambda s: lv.nonempty(av.arr))
        return out


def at_pixel(g, i, x, y):
    nx, ny, nd = g.inv(i)
    return And(nx == x, ny == y)


@contract("cg", "csp_process_pixel", 2)
class _(OnCG):
    def pre(self, cx):
        g = cx.cg(0)[0].g
        return cx.wfc(0) + [("the pixel is in the image",
                             g.inp(*cx.px(1)))]

    def modifies(self, cx):
        return [self.avloc(cx).sub("arr")]

    def exact(self, cx, A0, A1, vis):
        lv, t, _, _ = cx.cg(0)
        g = lv.g
        x, y = cx.px(1)
        i = z3.Int("i")
        nx, ny, nd = g.inv(i)
        return FA([i], Implies(And(0 <= i, i < g.NN), Sel(A1, i) == And(
            Sel(A0, i), Not(And(nx == x, ny == y, g.ex(x, y, nd), vis(nd),
                                lv.SRN(t, A0, x, y, nd))))), Sel(A1, i))

    def some(self, cx, A0, vis):
        lv, t, _, _ = cx.cg(0)
        x, y = cx.px(1)
        d = z3.Int("sd")
        return EX([d], And(lv.g.ex(x, y, d), vis(d), lv.SRN(t, A0, x, y, d)))

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        A0, A1 = av.arr, self.av(cx, cx.new)
        K = ghostK(cx.I, lv)
        r = [("exactly the inconsistent nodes of the pixel are removed",
              self.exact(cx, A0, A1, lambda d: TRUE)),
             ("reports whether a node was removed",
              cx.ret == self.some(cx, A0, lambda d: TRUE))]
        tk = cx.I.ghost.get("Kt")
        if tk is not None and tk.eq(t):
            r.append(("nodes of a closed set stay", Implies(
                lv.sub(K, A0), lv.sub(K, A1))))
        if not cx.body:
            r.append(("tag", HOLE(*cx.px(1))))
        return r

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv, t, av, _ = cx.cg(0)
        A0 = av.arr
        out = []
        for n, c in enumerate(L.counters):
            def vis(s, c=c):
                return lambda d: before(I, s, c, d)

            def none(s, vis=vis):
                lv2 = lv
                x, y = cx.px(1)
                d = z3.Int("sd")
                return FA([d], Implies(And(lv.g.ex(x, y, d), vis(s)(d)), Not(
                    lv.SRN(t, A0, x, y, d))), lv.SRN(t, A0, x, y, d))
            out.append(("removed-so-far%d" % n, lambda s, vis=vis: self.exact(
                cx, A0, I.read(s, self.avloc(cx)).arr, vis(s))))
            out += flag_family(L, "removed%d" % n, none,
                               lambda s, vis=vis: self.some(cx, A0, vis(s)))
        return out


@contract("cg", "csp_solution_iteration", 3)
class _(OnCG):
    cases = ("single job", "any job", "jobs")

    def setup(self, W, fn, case):
        a = Contract.setup(self, W, fn, case)
        if case == "single job":
            a[1], a[2] = z3.IntVal(1), z3.IntVal(0)
        return a

    def assume(self, cx, case):
        # (the other case is verified on its own)
        if case != "single job":
            return [Not(And(cx.a(1) == 1, cx.a(2) == 0))]
        return []

    def pre(self, cx):
        # the row counter must not wrap around
        g = cx.cg(0)[0].g
        return cx.wfc(0) + [("a positive number of jobs", And(
            cx.a(1) >= 1, cx.a(1) < 2 ** 63))]

    def modifies(self, cx):
        return [self.avloc(cx).sub("arr")]

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        A0, A1 = av.arr, self.av(cx, cx.new)
        one = And(cx.a(1) == 1, cx.a(2) == 0)
        K = ghostK(cx.I, lv)
        r = [("nodes are only removed", lv.sub(A1, A0)),
             ("a reported change removed a node", Implies(
                 cx.ret, lv.lost(A0, A1))),
             ("no change reported: solved or empty", Implies(
                 And(one, Not(cx.ret)),
                 Or(lv.empty(A1), lv.SOLVED(t, A1) if not cx.body
                    else lv.solved_def(t, A1))))]
        tk = cx.I.ghost.get("Kt")
        if tk is not None and tk.eq(t):
            r.append(("nodes of a closed set stay", Implies(
                And(one, lv.sub(K, A0)), lv.sub(K, A1))))
        if cx.case == "jobs" or (not cx.body and cx.I.prog.openmp):
            r += self.share(cx, lv, t, A0, A1, K)
        return r

    def share(self, cx, lv, t, A0, A1, K):
        """what one of several jobs does"""
        J, j = cx.a(1), cx.a(2)
        g = lv.g
        job_axioms(cx.I.axioms)
        i, x, y, d = z3.Ints("i x y d")
        out = [("a closed set stays (job)", Implies(
            lv.sub(K, A0), lv.sub(K, A1)))] if cx.body or (
                "Kt" in cx.I.ghost and cx.I.ghost["Kt"].eq(t)) else []
        out += [
            ("other rows stay unless nothing is left (job)", Or(
                lv.empty(A1), self.others(g, J, j, A0, A1))),
            ("silent: nothing is left or nothing changed (job)", Implies(
                Not(cx.ret), Or(lv.empty(A1), FA([i], Implies(
                    And(0 <= i, i < g.NN), Sel(A1, i) == Sel(A0, i)),
                    Sel(A1, i))))),
            ("silent: support is the same (job)", Implies(
                Not(cx.ret), Or(lv.empty(A1), FA([x, y, d], Implies(
                    And(g.ex(x, y, d), lv.SRN(t, A1, x, y, d)),
                    lv.SRN(t, A0, x, y, d)), lv.SRN(t, A1, x, y, d))))),
            ("silent: the rows have available nodes (job)", Implies(
                Not(cx.ret), Or(lv.empty(A1), lv.allpix(
                    A1, lambda x, y: RJ(J, j, y))))),
            ("silent: the rows are consistent (job)", Implies(
                Not(cx.ret), Or(lv.empty(A1), FA([x, y, d], Implies(
                    And(g.ex(x, y, d), RJ(J, j, y)),
                    Not(lv.SRN(t, A1, x, y, d))), lv.SRN(t, A1, x, y, d)))))]
        return out

    def others(self, g, J, j, A0, A1):
        i = z3.Int("i")
        return FA([i], Implies(And(0 <= i, i < g.NN, Not(RJ(
            J, j, g.inv(i)[1]))), Sel(A1, i) == Sel(A0, i)), Sel(A1, i))

    def rows(self, L, cx):
        """readings of the nest as an enumeration of every J-th row"""
        J, j = cx.a(1), cx.a(2)
        lo = (L.stack + [L])[0]
        out = []
        known = {c.loc.key() for c in lo.counters}
        ls = [l for l in lo.ints if l.key() not in known]
        first = [l for l in ls if simp(L.I.read(lo.entry, l)).eq(simp(j))]
        for l in first or ls:
            c = ip.Counter(l, L.I.read(lo.entry, l), 1)
            c.job = (J, j)
            ys = [("y", c)]
            out.append(ys)
            if lo is L:
                continue
            for lp in L.stack[1:] + [L]:
                for cx_ in lp.counters:
                    if cx_.loc.key() == l.key():
                        continue
                    xs = ys + [("x", cx_)]
                    if xs not in out:
                        out.append(xs)
                    if lp is not L:
                        out += [xs + [("d", cd)] for cd in L.counters
                                if cd.loc.key() not in (
                                    cx_.loc.key(), l.key())]
        return out

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv, t, av, _ = cx.cg(0)
        g = lv.g
        A0 = av.arr
        K = ghostK(I, lv)
        x, y, d, i = z3.Ints("vx vy vd i")
        J, j = cx.a(1), cx.a(2)
        alone = cx.case != "jobs"

        def A(s):
            return I.read(s, self.avloc(cx)).arr
        out = [("only removed", lambda s: lv.sub(A(s), A0)),
               ("closed set stays", lambda s: Implies(
                   lv.sub(K, A0), lv.sub(K, A(s))))]

        def unch(s):
            return FA([i], Implies(And(0 <= i, i < g.NN),
                                   Sel(A(s), i) == Sel(A0, i)), Sel(A(s), i))
        out += [(n, f) for n, f in implies_flags(L, "unchanged", unch)]
        out += implies_flags(L, "lost", lambda s: lv.lost(A0, A(s)))
        sqs = node_seqs(L, g)
        if not alone:
            job_axioms(I.axioms)
            out.append(("other rows stay", lambda s: self.others(
                g, J, j, A0, A(s))))
            sqs = self.rows(L, cx)
            for n, sq in enumerate(sqs):
                if len(sq) == 1:
                    out.append(("row%d of the job" % n, lambda s, c=sq[0][1]:
                                RJ(J, j, cval(I, s, c))))
                    out += implies_flags(L, "row%d: first" % n,
                                         lambda s, c=sq[0][1]:
                                         cval(I, s, c) == c.init)
        for n, sq in enumerate(sqs):
            nm = sname(sq) if alone else "%d:%s" % (n, sname(sq))
            dims = {a for a, c in sq}
            if not {"x", "y"} & dims:
                continue
            if "d" in dims:
                # availability of the current pixel
                px = {a: c for a, c in sq}
                cx_ = px.get("x")
                cy_ = px.get("y")
                if cx_ is None or cy_ is None:
                    continue

                def nonew(s, cx_=cx_, cy_=cy_, cd=px["d"]):
                    X, Y = cval(I, s, cx_), cval(I, s, cy_)
                    return FA([d], Implies(And(
                        g.ex(X, Y, d), before(I, s, cd, d)),
                        Not(Sel(A(s), g.ni(X, Y, d)))), g.ni(X, Y, d))

                def some(s, cx_=cx_, cy_=cy_):
                    return lv.pixn(A(s), cval(I, s, cx_), cval(I, s, cy_))
                out += flag_family(L, "pixel-empty " + nm, nonew, some)
                continue

            def vis(s, sq=sq):
                return lexv(I, s, sq, x, y)

            def allp(s, sq=sq):
                return lv.allpix(A(s), lambda x, y: lexv(I, s, sq, x, y))

            def fixp(s, vis=vis):
                return FA([x, y, d], Implies(
                    And(g.ex(x, y, d), vis(s)),
                    Not(lv.SRN(t, A0, x, y, d))), lv.SRN(t, A0, x, y, d))
            out.append(("pixels nonempty " + nm, allp))
            out += implies_flags(L, "pixels nonempty " + nm, allp)
            out += implies_flags(L, "consistent " + nm, fixp)
        return out


@contract("cg", "solve_csp", 1)
class _(OnCG):
    cases = (None, "threads")

    def assume(self, cx, case):
        return [] if case is None else [THREADS >= 1]

    def modifies(self, cx):
        return [self.avloc(cx).sub("arr")]

    def pre(self, cx):
        lv, t, av, _ = cx.cg(0)
        return cx.wfc(0) + [("only existing nodes are available",
                             lv.avwf(av.arr))]

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        A0, A1 = av.arr, self.av(cx, cx.new)
        K = ghostK(cx.I, lv)
        r = [("nodes are only removed", lv.sub(A1, A0)),
             ("true exactly when nodes are left",
              cx.ret == lv.nonempty(A1)),
             ("a solved problem is arc consistent everywhere", Implies(
                 cx.ret, lv.SOLVED(t, A1)))]
        tk = cx.I.ghost.get("Kt")
        if cx.body or (tk is not None and tk.eq(t)):
            r.append(("nodes of a closed set stay", Implies(
                lv.sub(K, A0), lv.sub(K, A1))))
        if not cx.body:
            r.append(("the verdict is exact",
                      cx.ret == lv.SOLVA(t, A0)))
        return r

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv, t, av, _ = cx.cg(0)
        A0 = av.arr
        K = ghostK(I, lv)

        def A(s):
            return I.read(s, self.avloc(cx)).arr

        def done(s):
            return Or(lv.empty(A(s)), lv.SOLVED(t, A(s)))
        out = [("only removed", lambda s: lv.sub(A(s), A0)),
               ("closed set stays", lambda s: Implies(
                   lv.sub(K, A0), lv.sub(K, A(s)))),
               ("done", done)]
        out += implies_flags(L, "done", done)
        if cx.case == "threads" and L.counters:
            # a pass over the jobs: i of them have been run
            job_axioms(I.axioms)
            g = lv.g
            x, y, d = z3.Ints("vx vy vd")
            E = A(L.entry)
            out.append(("only removed in the pass", lambda s: lv.sub(A(s), E)))
            out += implies_flags(L, "lost in the pass",
                                 lambda s: lv.lost(E, A(s)))
            for n, c in enumerate(L.counters):
                def some(s, c=c):
                    return Or(lv.empty(A(s)), lv.allpix(A(s), lambda x, y: And(
                        RJ(THREADS, JOB(THREADS, y), y),
                        JOB(THREADS, y) < cval(I, s, c))))

                def cons(s, c=c):
                    return Or(lv.empty(A(s)), FA([x, y, d], Implies(
                        And(g.ex(x, y, d), RJ(THREADS, JOB(THREADS, y), y),
                            JOB(THREADS, y) < cval(I, s, c)),
                        Not(lv.SRN(t, A(s), x, y, d))),
                        lv.SRN(t, A(s), x, y, d)))
                out += implies_flags(L, "available in %d jobs" % n, some)
                out += implies_flags(L, "consistent in %d jobs" % n, cons)
        return out

    def measures(self, L):
        cx = L.I.curctx
        I = L.I
        lv = cx.cg(0)[0]
        n = lv.g.NN

        def cnt(s):
            return CNT(I.read(s, self.avloc(cx)).arr, n)
        out = [("nodes left", cnt)]
        for b in L.bools:
            out.append(("nodes left, flag", lambda s, b=b: 2 * cnt(s)
                        + If(I.read(s, b), z3.IntVal(1), z3.IntVal(0))))
            out.append(("nodes left, flag", lambda s, b=b: 2 * cnt(s)
                        + If(I.read(s, b), z3.IntVal(0), z3.IntVal(1))))
        return out


@contract("cg", "ConstraintGraph::ConstraintGraph", 3)
class _(Contract):
    def setup(self, W, fn, case):
        a = Contract.setup(self, W, fn, case)
        return a

    def lv(self, cx):
        return cx.lv(cx.ptr(1).loc)

    def pre(self, cx):
        lv = self.lv(cx)
        p = cx.rd(cx.ptr(1).loc).f["graph"]
        ok = p.loc is not None and p.loc.key() == cx.ptr(0).loc.key()
        if not ok:
            raise Unsupported("penalties of another graph")
        r = cx.wfl(lv)
        if not z3.is_false(p.null):
            r.append(("graph of the penalties", Not(p.null)))
        return r

    def modifies(self, cx):
        return [cx.this.sub("nodes_availability"), cx.this.sub("threshold")] \
            + ([cx.this.sub("disparity_graph"),
                cx.this.sub("lowest_penalties")] if cx.body else [])

    def post(self, cx):
        lv = self.lv(cx)
        if not cx.body:
            cx.I.write(cx.st, cx.this.sub("disparity_graph"), cx.a(0))
            cx.I.write(cx.st, cx.this.sub("lowest_penalties"), cx.a(1))
            v = cx.rd(cx.this, cx.st.mem)
        else:
            v = cx.rd(cx.this, cx.new)
        ok = TRUE
        for f, n in (("disparity_graph", 0), ("lowest_penalties", 1)):
            p = v.f[f]
            if p.loc is None or p.loc.key() != cx.ptr(n).loc.key() or \
                    not z3.is_false(p.null):
                ok = FALSE
        t = cx.a(2)
        A = v.f["nodes_availability"]
        return [("graph and penalties are remembered", ok),
                ("threshold is remembered", v.f["threshold"] == t),
                ("availability covers every node", A.size == lv.g.NN),
                ("exactly the nodes within the threshold are available",
                 lv.init_arr(t, A.arr))] + ([] if cx.body else [
                     ("only existing nodes are available", lv.avwf(A.arr))])

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv = self.lv(cx)
        g = lv.g
        t = cx.a(2)
        i = z3.Int("i")
        out = []
        for sq in node_seqs(L, g):
            def f(s, sq=sq):
                A = I.read(s, cx.this.sub("nodes_availability")).arr
                nx, ny, nd = g.inv(i)
                return FA([i], Implies(And(0 <= i, i < g.NN), Sel(A, i) == And(
                    lv.initp(t, nx, ny, nd), lexv(I, s, sq, nx, ny, nd))),
                    Sel(A, i))
            out.append(("initialised " + sname(sq), f))

        def blank(s):
            A = I.read(s, cx.this.sub("nodes_availability")).arr
            return FA([i], Implies(And(0 <= i, i < g.NN), Not(Sel(A, i))),
                      Sel(A, i))
        out.append(("blank", blank))
        return out


# ------------------------------------------------------------------ labeling
class Fetch(Contract):
    rettype = "FLOAT_ARRAY"

    def post(self, cx):
        v = cx.ret
        u = z3.Real("u")
        m = self.member(cx, u)
        pats = [MEMS(v.arr, v.size, u)] + (
            [m] if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED
            else [])
        return [("values are strictly increasing", STRICT(v.arr, v.size)),
                ("exactly the penalties", FA([u], MEMS(
                    v.arr, v.size, u) == m, *pats))]


@contract("lf", "fetch_pixel_available_penalties", 3)
class _(Fetch):
    def pre(self, cx):
        return cx.wfg(cx.g(0)) + [("the pixel is in the image",
                                   cx.g(0).inp(*cx.px(1)))]

    def member(self, cx, u):
        g = cx.g(0)
        x, y = cx.px(1)
        d = z3.Int("md")
        return EX([d], And(g.ex(x, y, d), u == fsub(g.PEN(x, y, d), cx.a(2))))

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        g = cx.g(0)
        x, y = cx.px(1)
        d = z3.Int("vd")
        u = z3.Real("u")
        out = []
        for n, l in enumerate(L.vecs):
            if I.read(L.ghead, l).et[0] != "real":
                continue
            for m, c in enumerate(L.counters):
                out.append(("filled%d.%d" % (n, m), lambda s, l=l, c=c: FA(
                    [d], Implies(And(g.ex(x, y, d), before(I, s, c, d)), Sel(
                        I.read(s, l).arr, d) == fsub(g.PEN(x, y, d), cx.a(2))),
                    Sel(I.read(s, l).arr, d))))
                out += member_templates(
                    L, "members%d.%d" % (n, m), l,
                    lambda s, c=c: before(I, s, c, d), g.ex(x, y, d),
                    g.PEN(x, y, d), cx.a(2), [d])
        return out


def member_templates(L, tag, l, vis, guard, pen, minus, vs):
    I = L.I
    u = z3.Real("u")

    def have(s):
        v = I.read(s, l)
        return FA(vs, Implies(And(guard, vis(s)), MEMS(
            v.arr, v.size, fsub(pen, minus))), pen)

    def only(s):
        v = I.read(s, l)
        return FA([u], Implies(MEMS(v.arr, v.size, u), EX(vs, And(
            guard, vis(s), u == fsub(pen, minus)))), MEMS(v.arr, v.size, u))

    def onlyw(s):
        v = I.read(s, l)
        return FA([u], Implies(MEMS(v.arr, v.size, u), EX(vs, And(
            guard, u == fsub(pen, minus)))), MEMS(v.arr, v.size, u))
    return [(tag + ":all", have), (tag + ":only", onlyw)]


@contract("lf", "fetch_edge_available_penalties", 3)
class _(Fetch):
    def pp(self, cx):
        e = cx.edge(1)
        return e[0], e[1], e[3], e[4]

    def pre(self, cx):
        g = cx.g(0)
        x, y, x2, y2 = self.pp(cx)
        return cx.wfg(g) + [("the pixels are neighbors in the image", And(
            g.inp(x, y), g.inp(x2, y2), adj(x, y, x2, y2)))]

    def member(self, cx, u):
        g = cx.g(0)
        x, y, x2, y2 = self.pp(cx)
        d, e = z3.Ints("md me")
        return EX([d, e], And(g.eex(x, y, d, x2, y2, e),
                              u == fsub(g.EPEN(x, y, d, x2, y2, e), cx.a(2))))

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        g = cx.g(0)
        x, y, x2, y2 = self.pp(cx)
        d, e = z3.Ints("vd ve")
        out = []
        for n, l in enumerate(L.vecs):
            if I.read(L.ghead, l).et[0] != "real":
                continue
            for m, sq in enumerate(edge_seqs(L, g)):
                out += member_templates(
                    L, "members%d.%d" % (n, m), l, lambda s, sq=sq: lexi(
                        I, s, sq, {"d": d, "e": e}),
                    g.eex(x, y, d, x2, y2, e), g.EPEN(x, y, d, x2, y2, e),
                    cx.a(2), [d, e])
        return out


@contract("lf", "fetch_available_penalties", 1)
class _(Fetch):
    def pre(self, cx):
        return cx.wfl(cx.lv(cx.ptr(0).loc))

    def member(self, cx, u):
        lv = cx.lv(cx.ptr(0).loc)
        if not cx.body:
            return lv.PV(u)
        return pv_def(lv, u)

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv = cx.lv(cx.ptr(0).loc)
        g = lv.g
        x, y, d, e = z3.Ints("vx vy vd ve")
        u = z3.Real("u")
        out = []
        for n, l in enumerate(L.vecs):
            if I.read(L.ghead, l).et[0] != "real":
                continue

            def V(s, l=l):
                return I.read(s, l)
            out.append(("strict%d" % n, lambda s, V=V: STRICT(
                V(s).arr, V(s).size)))
            out.append(("empty%d" % n, lambda s, V=V: V(s).size == 0))
            out.append(("only%d" % n, lambda s, V=V: FA([u], Implies(
                MEMS(V(s).arr, V(s).size, u), pv_def(lv, u)),
                MEMS(V(s).arr, V(s).size, u))))
            def pixels(s, V, vis):
                return FA([x, y, d], Implies(And(g.ex(x, y, d), vis), MEMS(
                    V(s).arr, V(s).size, fsub(g.PEN(x, y, d), lv.pixv(x, y)))),
                    g.PEN(x, y, d))

            def edges(s, V, vis, k):
                x2, y2 = NBR[k](x, y)
                return FA([x, y, d, e], Implies(And(
                    g.eex(x, y, d, x2, y2, e), vis), MEMS(
                    V(s).arr, V(s).size, fsub(g.EPEN(
                        x, y, d, x2, y2, e), lv.nbv(x, y, k)))),
                    g.EPEN(x, y, d, x2, y2, e))
            out.append(("pixels%d all" % n, lambda s, V=V: pixels(
                s, V, TRUE)))
            for k in range(4):
                out.append(("edges%d all.%d" % (n, k), lambda s, V=V, k=k:
                            edges(s, V, TRUE, k)))
            for m, sq in enumerate(seqs(L, g, ("x", "y", "k"))):
                px = {a: c for a, c in sq}
                if "x" not in px and "y" not in px:
                    continue
                psq = [p for p in sq if p[0] != "k"]

                def vis(s, psq=psq):
                    return lexv(I, s, psq, x, y)

                def at(s, px=px):
                    # the pixel the enclosing loops are at
                    return And(*[v == cval(I, s, px[a]) for a, v in
                                 (("x", x), ("y", y)) if a in px])
                if "k" in px:
                    # inside the loop over the neighbors of one pixel
                    if sq[-1][0] != "k" or "x" not in px or "y" not in px:
                        continue
                    out.append(("pixels%d.%d+" % (n, m), lambda s, V=V, vis=vis,
                                at=at: pixels(s, V, Or(vis(s), at(s)))))
                    for k in range(4):
                        out.append(("edges%d.%d.%d+" % (n, m, k), lambda s, V=V,
                                    vis=vis, at=at, k=k, c=px["k"]: edges(
                                        s, V, Or(vis(s), And(at(s), before(
                                            I, s, c, z3.IntVal(k)))), k)))
                out.append(("pixels%d.%d" % (n, m), lambda s, V=V, vis=vis:
                            pixels(s, V, vis(s))))
                for k in range(4):
                    out.append(("edges%d.%d.%d" % (n, m, k), lambda s, V=V,
                                vis=vis, k=k: edges(s, V, vis(s), k)))
        return out


def pv_def(lv, u):
    g = lv.g
    x, y, d, e = z3.Ints("px py pd pe")
    r = [EX([x, y, d], And(g.ex(x, y, d),
                           u == fsub(g.PEN(x, y, d), lv.pixv(x, y))))]
    for k in range(4):
        x2, y2 = NBR[k](x, y)
        r.append(EX([x, y, d, e], And(g.eex(x, y, d, x2, y2, e), u == fsub(
            g.EPEN(x, y, d, x2, y2, e), lv.nbv(x, y, k)))))
    return Or(*r)


@contract("lf", "calculate_minimal_consistent_threshold", 3)
class _(Contract):
    def lv(self, cx):
        return cx.lv(cx.ptr(0).loc)

    def pre(self, cx):
        lv = self.lv(cx)
        p = cx.rd(cx.ptr(0).loc).f["graph"]
        if p.loc is None or p.loc.key() != cx.ptr(1).loc.key():
            raise Unsupported("penalties of another graph")
        v = cx.a(2)
        return cx.wfl(lv) + [
            ("some threshold is offered", v.size >= 1),
            ("thresholds are strictly increasing", STRICT(v.arr, v.size)),
            ("the largest threshold is solvable",
             lv.SOLV(Sel(v.arr, v.size - 1)))]

    def post(self, cx):
        lv = self.lv(cx)
        v = cx.a(2)
        i, j = z3.Ints("bi bj")
        return [("the smallest solvable threshold", EX([i], And(
            0 <= i, i < v.size, cx.ret == Sel(v.arr, i),
            lv.SOLV(Sel(v.arr, i)), FA([j], Implies(
                And(0 <= j, j < i), Not(lv.SOLV(Sel(v.arr, j))))))))]

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv = self.lv(cx)
        v = cx.a(2)
        j = z3.Int("bj")
        out = []
        ints = L.ints
        for n, l in enumerate(ints):
            def r(s, l=l):
                return I.read(s, l)
            out.append(("in-range%d" % n, lambda s, r=r: And(
                0 <= r(s), r(s) < v.size)))
            out.append(("in-range'%d" % n, lambda s, r=r: And(
                0 <= r(s), r(s) <= v.size)))
            out.append(("below%d" % n, lambda s, r=r: FA([j], Implies(
                And(0 <= j, j < r(s)), Not(lv.SOLV(Sel(v.arr, j)))),
                Sel(v.arr, j))))
            out.append(("solvable%d" % n, lambda s, r=r: lv.SOLV(
                Sel(v.arr, r(s)))))
            out.append(("solvable'%d" % n, lambda s, r=r: Implies(
                r(s) < v.size, lv.SOLV(Sel(v.arr, r(s))))))
            for m, l2 in enumerate(ints):
                if l2 is l:
                    continue

                def q(s, l2=l2):
                    return I.read(s, l2)
                out.append(("order%d.%d" % (n, m),
                            lambda s, r=r, q=q: r(s) <= q(s)))
                out.append(("sum%d.%d" % (n, m),
                            lambda s, r=r, q=q: r(s) + q(s) < v.size))
                for p, l3 in enumerate(ints):
                    if l3 is l or l3 is l2 or m < n:
                        continue
                    out.append(("middle%d.%d.%d" % (n, m, p),
                                lambda s, r=r, q=q, l3=l3: I.read(s, l3) ==
                                (r(s) + q(s)) / 2))
        for n, l in enumerate(L.reals):
            out.append(("real%d" % n, lambda s, l=l: lv.SOLV(I.read(s, l))))
        return out


@contract("lf", "choose_best_node", 2)
class _(OnCG):
    rettype = None

    def pre(self, cx):
        g = cx.cg(0)[0].g
        return cx.wfc(0) + [("the pixel is in the image",
                             g.inp(*cx.px(1)))]

    def modifies(self, cx):
        return [self.avloc(cx).sub("arr")]

    def make_ret(self, cx, ct):
        return Ptr(cx.ptr(0).loc, z3.Bool(cx.I.name("best_null")))

    def others(self, cx, A0, A1):
        lv = cx.cg(0)[0]
        g = lv.g
        x, y = cx.px(1)
        i = z3.Int("i")
        nx, ny, nd = g.inv(i)
        return FA([i], Implies(And(0 <= i, i < g.NN, Or(
            nx != x, ny != y, Not(g.ex(nx, ny, nd)))),
            Sel(A1, i) == Sel(A0, i)), Sel(A1, i))

    def sub(self, cx, A0, A1):
        return cx.cg(0)[0].sub(A1, A0)

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        g = lv.g
        x, y = cx.px(1)
        A0, A1 = av.arr, self.av(cx, cx.new)
        p = cx.ret
        d, e = z3.Ints("bd be")
        ok = TRUE if p.loc is None or p.loc.key() == cx.ptr(0).loc.key() \
            else FALSE
        one = EX([d], And(
            g.ex(x, y, d), Sel(A0, g.ni(x, y, d)), Sel(A1, g.ni(x, y, d)),
            FA([e], Implies(And(g.ex(x, y, e), e != d), Not(
                Sel(A1, g.ni(x, y, e)))), g.ni(x, y, e)),
            FA([e], Implies(And(g.ex(x, y, e), Sel(A0, g.ni(x, y, e))),
                            g.PEN(x, y, d) <= g.PEN(x, y, e)),
               g.PEN(x, y, e))))
        return [("returns the graph or nothing", ok),
                ("nothing exactly when the pixel has no node",
                 p.null == lv.pixe(A0, x, y)),
                ("nodes are only removed", self.sub(cx, A0, A1)),
                ("other pixels keep their nodes", self.others(cx, A0, A1)),
                ("exactly one node of lowest penalty is left",
                 Implies(Not(p.null), one))]

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv, t, av, _ = cx.cg(0)
        g = lv.g
        x, y = cx.px(1)
        A0 = av.arr
        d, e = z3.Ints("vd ve")

        def A(s):
            return I.read(s, self.avloc(cx)).arr
        out = [("only removed", lambda s: lv.sub(A(s), A0)),
               ("others", lambda s: self.others(cx, A0, A(s)))]
        hav = Sel(A0, g.ni(x, y, d))
        reals = reals_in_scope(L)
        for n, c in enumerate(L.counters):
            def vis(s, v=d, c=c):
                return before(I, s, c, v)

            def rest(s, vis=vis):
                return FA([d], Implies(And(g.ex(x, y, d), Not(vis(s))), Sel(
                    A(s), g.ni(x, y, d)) == hav), g.ni(x, y, d))

            def nov(s, vis=vis):
                return FA([d], Implies(And(g.ex(x, y, d), vis(s)),
                                       Not(hav)), g.ni(x, y, d))

            def somev(s, vis=vis):
                return EX([d], And(g.ex(x, y, d), vis(s), hav))

            def gone(s, vis=vis):
                return FA([d], Implies(And(g.ex(x, y, d), vis(s)), Not(
                    Sel(A(s), g.ni(x, y, d)))), g.ni(x, y, d))
            out.append(("unvisited are kept%d" % n, rest))
            out += flag_family(L, "none%d" % n, nov, somev)
            out += implies_flags(L, "gone%d" % n, gone)
            for m, l in enumerate(reals):
                def low(s, vis=vis, l=l):
                    return FA([d], Implies(And(
                        g.ex(x, y, d), vis(s), hav),
                        I.read(s, l) <= g.PEN(x, y, d)), g.PEN(x, y, d))

                def att(s, vis=vis, l=l):
                    return EX([d], And(g.ex(x, y, d), vis(s), hav,
                                       I.read(s, l) == g.PEN(x, y, d)))

                def above(s, vis=vis, l=l):
                    return FA([d], Implies(And(
                        g.ex(x, y, d), vis(s), hav),
                        I.read(s, l) < g.PEN(x, y, d)), g.PEN(x, y, d))

                def kept(s, vis=vis, l=l):
                    return EX([d], And(
                        g.ex(x, y, d), vis(s), hav,
                        Sel(A(s), g.ni(x, y, d)),
                        g.PEN(x, y, d) <= I.read(s, l),
                        FA([e], Implies(And(g.ex(x, y, e), vis(s, e), e != d),
                                        Not(Sel(A(s), g.ni(x, y, e)))),
                           g.ni(x, y, e))))
                tag = "%d.%d" % (n, m)
                out.append(("lower-bound" + tag, low))
                out += implies_flags(L, "lower-bound" + tag, low)
                out += implies_flags(L, "attained" + tag, att)
                out += implies_flags(L, "above" + tag, above)
                out += implies_flags(L, "kept" + tag, kept)
            for m, l in enumerate(ints_in_scope(L)):
                def best(s, vis=vis, l=l):
                    b = I.read(s, l)
                    return And(g.ex(x, y, b), Sel(A0, g.ni(x, y, b)),
                               FA([d], Implies(And(g.ex(x, y, d), vis(s),
                                                   hav), g.PEN(x, y, b)
                                               <= g.PEN(x, y, d)),
                                  g.PEN(x, y, d)))

                def others(s, vis=vis, l=l):
                    b = I.read(s, l)
                    return FA([d], Implies(And(g.ex(x, y, d), vis(s),
                                               d != b), Not(Sel(
                                                   A(s), g.ni(x, y, d)))),
                              g.ni(x, y, d))

                def bkept(s, l=l):
                    b = I.read(s, l)
                    return Implies(g.ex(x, y, b), Sel(
                        A(s), g.ni(x, y, b)) == Sel(A0, g.ni(x, y, b)))
                tag = "%d.i%d" % (n, m)
                out += implies_flags(L, "best" + tag, best)
                for q, l2 in enumerate(reals):
                    out += implies_flags(
                        L, "bestpen%s.%d" % (tag, q),
                        lambda s, l=l, l2=l2: I.read(s, l2) == g.PEN(
                            x, y, I.read(s, l)))
                if l.key() not in {k.key() for k in L.ints}:
                    out.append(("only best" + tag, others))
                    out.append(("best kept" + tag, bkept))
        return out


def ints_in_scope(L):
    """ULONG variables of the function that are not loop counters"""
    I = L.I
    out, seen = [], set()
    cs = {c.loc.key() for lp in L.stack + [L] for c in lp.counters}
    for r, v in L.entry.mem.items():
        if isinstance(v, z3.ExprRef) and z3.is_int(v) and \
                not r.startswith(("$tmp", "$NEIGH")) and \
                Loc(r).key() not in cs and not z3.is_int_value(v) \
                or (isinstance(v, z3.ExprRef) and z3.is_int(v) and
                    Loc(r).key() in {l.key() for l in L.ints} and
                    Loc(r).key() not in cs):
            out.append(Loc(r))
    return out[:4]


def atmost1(lv, A, x, y):
    d, e = z3.Ints("ud ue")
    g = lv.g
    return FA([d, e], Implies(And(
        g.ex(x, y, d), g.ex(x, y, e), Sel(A, g.ni(x, y, d)),
        Sel(A, g.ni(x, y, e))), d == e),
        z3.MultiPattern(g.ni(x, y, d), g.ni(x, y, e)))


def allone(lv, A, vis=None):
    return lv.allone(A, vis)


@contract("lf", "find_labeling", 1)
class _(OnCG):
    cut = True

    def pre(self, cx):
        lv, t, av, _ = cx.cg(0)
        return cx.wfc(0) + [("only existing nodes are available",
                             lv.avwf(av.arr))]

    def modifies(self, cx):
        return [self.avloc(cx).sub("arr")]

    def make_ret(self, cx, ct):
        return Ptr(cx.ptr(0).loc, z3.Bool(cx.I.name("labeling_null")))

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        A0, A1 = av.arr, self.av(cx, cx.new)
        p = cx.ret
        if cx.body:
            labeling_axioms(cx.I.axioms, lv, cx.I, t, A1)
        ok = TRUE if p.loc is None or p.loc.key() == cx.ptr(0).loc.key() \
            else FALSE
        return [("returns the graph or nothing", ok),
                ("nodes are only removed", lv.sub(A1, A0)),
                ("a labeling has exactly one node per pixel", Implies(
                    Not(p.null), And(lv.allpix(A1), allone(lv, A1)))),
                ("a labeling is arc consistent", Implies(
                    Not(p.null), lv.SOLVED(t, A1)))] + [
                ("the edges of a labeling are available (direction %d)" % k,
                 Implies(Not(p.null), lv.edges(t, A1, k)))
                for k in range(4)]

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv, t, av, _ = cx.cg(0)
        A0 = av.arr

        def A(s):
            return I.read(s, self.avloc(cx)).arr
        out = [("only removed", lambda s: lv.sub(A(s), A0)),
               ("solved", lambda s: lv.SOLVED(t, A(s)))]
        out += started(L, "solved", lambda s: lv.SOLVED(t, A(s)))
        for sq in pixel_seqs(L, lv.g):
            out.append(("labeled " + sname(sq), lambda s, sq=sq: allone(
                lv, A(s), lambda x, y: lexv(I, s, sq, x, y))))
        return out


@contract("lf", "build_disparity_map", 1)
class _(OnCG):
    def throws(self, cx):
        lv, t, av, _ = cx.cg(0)
        return {"logic_error": Not(And(lv.allpix(av.arr),
                                       allone(lv, av.arr)))}

    def post(self, cx):
        lv, t, av, _ = cx.cg(0)
        g = lv.g
        v = cx.ret
        x, y, d = z3.Ints("x y d")
        dt = v.f["data"]
        return [("width", v.f["width"] == g.W),
                ("height", v.f["height"] == g.H),
                ("maximal value", v.f["max_value"] == g.D),
                ("size", dt.size == g.W * g.H),
                ("every pixel holds its disparity",
                 self.right(lv, av.arr, dt.arr, lambda x, y: TRUE)),
                ("every intensity is below the maximal value", self.low(
                    cx, g, dt.arr))]

    def low(self, cx, g, D):
        i = z3.Int("i")
        x, y = PIX(g.W, i), PIY(g.W, i)
        here = And(0 <= i, i < g.W * g.H)
        if cx.body:
            # (the pixel at this position)
            here = And(here, HOLE(x, y))
        return FA([i], Implies(here, Sel(D, i) < g.D), Sel(D, i))

    def right(self, lv, A, D, vis):
        x, y, d = z3.Ints("x y d")
        g = lv.g
        return FA([x, y, d], Implies(And(g.ex(x, y, d), vis(x, y), Sel(
            A, g.ni(x, y, d))), Sel(D, g.pi(x, y)) == d), g.ni(x, y, d))

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        lv, t, av, _ = cx.cg(0)
        g = lv.g
        A = av.arr
        x, y, d, e = z3.Ints("vx vy vd ve")
        out = []
        datas = [l for l in L.vecs if I.read(L.ghead, l).et[0] == "int"]
        for sq in node_seqs(L, g):
            nm = sname(sq)
            px = {a: c for a, c in sq}
            if "d" not in px:
                def vis(s, sq=sq):
                    return lambda x, y: lexv(I, s, sq, x, y)
                out.append(("nonempty " + nm, lambda s, vis=vis: lv.allpix(
                    A, vis(s))))
                out.append(("unique " + nm, lambda s, vis=vis: allone(
                    lv, A, vis(s))))
                for n, l in enumerate(datas):
                    out.append(("data%d %s" % (n, nm), lambda s, l=l, vis=vis:
                                self.right(lv, A, I.read(s, l).arr, vis(s))))
                continue
            if "x" not in px or "y" not in px:
                continue
            cX, cY, cD = px["x"], px["y"], px["d"]

            def nov(s, cX=cX, cY=cY, cD=cD):
                X, Y = cval(I, s, cX), cval(I, s, cY)
                return FA([d], Implies(And(g.ex(X, Y, d), before(
                    I, s, cD, d)), Not(Sel(A, g.ni(X, Y, d)))),
                    g.ni(X, Y, d))

            def somev(s, cX=cX, cY=cY):
                return lv.pixn(A, cval(I, s, cX), cval(I, s, cY))

            def somev2(s, cX=cX, cY=cY, cD=cD):
                X, Y = cval(I, s, cX), cval(I, s, cY)
                return EX([d], And(g.ex(X, Y, d), before(I, s, cD, d), Sel(
                    A, g.ni(X, Y, d))))

            def atm(s, cX=cX, cY=cY, cD=cD):
                X, Y = cval(I, s, cX), cval(I, s, cY)
                return FA([d, e], Implies(And(
                    g.ex(X, Y, d), g.ex(X, Y, e), before(I, s, cD, d),
                    before(I, s, cD, e), Sel(A, g.ni(X, Y, d)),
                    Sel(A, g.ni(X, Y, e))), d == e),
                    z3.MultiPattern(g.ni(X, Y, d), g.ni(X, Y, e)))
            out += flag_family(L, "none " + nm, nov, somev)
            out += implies_flags(L, "met " + nm, somev2)
            out.append(("atmost1 " + nm, atm))
            psq = [p for p in sq if p[0] != "d"]

            def visp(s, psq=psq):
                return lambda x, y: lexv(I, s, psq, x, y)
            for n, l in enumerate(datas):
                def curd(s, l=l, cX=cX, cY=cY, cD=cD):
                    X, Y = cval(I, s, cX), cval(I, s, cY)
                    return FA([d], Implies(And(g.ex(X, Y, d), before(
                        I, s, cD, d), Sel(A, g.ni(X, Y, d))), Sel(I.read(
                            s, l).arr, g.pi(X, Y)) == d), g.ni(X, Y, d))
                out.append(("current%d %s" % (n, nm), curd))
                out.append(("data%d %s" % (n, nm), lambda s, l=l, visp=visp:
                            self.right(lv, A, I.read(s, l).arr, visp(s))))
        return out


# ------------------------------------------------------------------ image
def image_ok(v):
    i = z3.Int("i")
    w, h, m = v.f["width"], v.f["height"], v.f["max_value"]
    D = v.f["data"]
    return And(w != 0, h != 0, m != 0, FA([i], Implies(
        And(0 <= i, i < w * h), Sel(D.arr, i) <= m), Sel(D.arr, i)))


@contract("image", "image_valid", 1)
class _(Contract):
    def pre(self, cx):
        v = cx.rd(cx.ptr(0).loc)
        return [("data covers the image", v.f["data"].size
                 == v.f["width"] * v.f["height"])]

    def post(self, cx):
        return [("validity", cx.ret == image_ok(cx.rd(cx.ptr(0).loc)))]

    def invariants(self, L):
        cx = L.I.curctx
        v = cx.rd(cx.ptr(0).loc)
        i = z3.Int("i")
        out = []
        w, h = v.f["width"], v.f["height"]
        D = v.f["data"].arr

        def bad(s):
            return EX([i], And(0 <= i, i < w * h, Sel(D, i) > v.f["max_value"]))
        for n, c in enumerate(L.counters):
            out += flag_family(L, "bounded%d" % n, lambda s, c=c: FA(
                [i], Implies(And(0 <= i, i < w * h, before(
                    L.I, s, c, i)), Sel(D, i) <= v.f["max_value"]),
                Sel(D, i)), bad)
        # a nest over rows and columns
        I = L.I
        for a, lo in enumerate(L.stack + [L]):
            for b, co in enumerate(lo.counters):
                if co.dir <= 0 or isinstance(I.read(lo.ghead, co.loc), Iter):
                    continue
                ends = [("row%d%d" % (a, b), lambda s: z3.IntVal(0))]
                if lo is not L:
                    ends = [("cell%d%d.%d" % (a, b, k), lambda s, c=c: cval(
                        I, s, c)) for k, c in enumerate(L.counters)
                        if c.dir > 0 and not isinstance(
                            I.read(L.ghead, c.loc), Iter)]
                for nm, end in ends:
                    out += flag_family(L, nm, lambda s, co=co, end=end: FA(
                        [i], Implies(And(0 <= i, i < cval(I, s, co) * w + end(
                            s)), Sel(D, i) <= v.f["max_value"]), Sel(D, i)),
                        bad)
        return out


@contract("dg", "DisparityGraph::DisparityGraph", 5)
class _(Contract):
    def imgs(self, cx):
        return cx.a(0), cx.a(1)

    def setup(self, W, fn, case):
        out = []
        for p in ip.params(fn):
            if "Image" in ip.qt(p):
                W.made.pop("IMG", None)
                n = len(out)
                u = ("int", 64, False)
                w, h, m, s = W.ints("w%d" % n, "h%d" % n, "m%d" % n, "s%d" % n)
                out.append(Rec("Image", {
                    "width": w, "height": h, "max_value": m, "data": Vec(
                        W.arr("data%d" % n, u), s, u)}))
            else:
                out.append(W.param(p))
        return out

    def pre(self, cx):
        l, r = self.imgs(cx)
        D = cx.a(2)
        # sizes that fit the address space
        return [("left data covers the image", l.f["data"].size
                 == l.f["width"] * l.f["height"]),
                ("right data covers the image", r.f["data"].size
                 == r.f["width"] * r.f["height"]),
                ("the problem fits the address space", Implies(
                    D <= l.f["width"], And(
                        l.f["width"] * l.f["height"] * 4 * D < 2 ** 60,
                        l.f["width"] * l.f["height"] <= 2 ** 58)))]

    def accept(self, cx):
        l, r = self.imgs(cx)
        D, c, s = cx.a(2), cx.a(3), cx.a(4)
        import pgmlib
        eps = pgmlib.EPS
        return And(image_ok(l), image_ok(r), D >= 2, D <= l.f["width"],
                   l.f["width"] == r.f["width"],
                   l.f["height"] == r.f["height"],
                   l.f["max_value"] == r.f["max_value"], c >= 0, s >= 0,
                   Not(And(c < eps, s < eps)))

    def throws(self, cx):
        return {"invalid_argument": Not(self.accept(cx))}

    def modifies(self, cx):
        return [cx.this.sub(f) for f in (
            "left", "right", "disparity_levels", "reparametrization",
            "cleanness", "smoothness")]

    def post(self, cx):
        l, r = self.imgs(cx)
        v = cx.rd(cx.this, cx.new)
        out = []

        def eq(nm, a, b):
            for f in ("width", "height", "max_value"):
                out.append(("%s.%s" % (nm, f), a.f[f] == b.f[f]))
            out.append((nm + ".data", And(
                a.f["data"].size == b.f["data"].size,
                a.f["data"].arr == b.f["data"].arr)))
        eq("left", v.f["left"], l)
        eq("right", v.f["right"], r)
        out.append(("number of disparity levels",
                    v.f["disparity_levels"] == cx.a(2)))
        out.append(("cleanness", v.f["cleanness"] == cx.a(3)))
        out.append(("smoothness", v.f["smoothness"] == cx.a(4)))
        i = z3.Int("i")
        rep = v.f["reparametrization"]
        out.append(("size of the reparametrization", rep.size ==
                    l.f["width"] * l.f["height"] * 4 * cx.a(2)))
        out.append(("the reparametrization is zero", FA([i], Implies(
            And(0 <= i, i < rep.size), Sel(rep.arr, i) == 0),
            Sel(rep.arr, i))))
        return out

    def invariants(self, L):
        cx = L.I.curctx
        I = L.I
        i = z3.Int("i")
        loc = cx.this.sub("reparametrization")
        return [("zeroed%d" % n, lambda s, c=c: FA([i], Implies(And(
            0 <= i, i < I.read(s, loc).size, before(I, s, c, i)), Sel(
                I.read(s, loc).arr, i) == 0), Sel(I.read(s, loc).arr, i)))
            for n, c in enumerate(L.counters)]
