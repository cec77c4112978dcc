"""Contracts of PGM input and output (lib/pgm_io.cpp)."""
import z3
import interp as ip
import pgmlib
from interp import (Vec, Rec, Loc, Ptr, Iter, Special, Unsupported, TRUE,
                    FALSE, I_, simp, is_true, is_false, ctype)
from pgmlib import SV, STV, STOK, DIG, WS, CHAR, IA
from specs import (And, Or, Not, Implies, If, Sel, FA, EX, Contract, contract,
                   cval, before, flag_family)
from contracts_core import image_ok

MAXN = 2 ** 60 - 1          # max_size() of the vector of intensities


# ---------------------------------------------------------------- the world
def in_world(W):
    if "IS" not in W.made:
        W.made["IS"] = 1
        (N,) = W.ints("fileN")
        (p,) = W.ints("pos0")
        W.st.mem["IS"] = Rec("istream", {
            "C": z3.Const("fileC", IA), "N": N, "pos": p,
            "eof": z3.Bool("eof0"), "fail": z3.Bool("fail0")})
    return Loc("IS")


def out_world(W):
    if "OS" not in W.made:
        W.made["OS"] = 1
        W.st.mem["OS"] = Rec("ostream", {
            "nt": z3.Int("nt0"), "tk": z3.Const("tk0", IA),
            "open": z3.Bool("open0"), "col": z3.Int("col0"),
            "maxc": z3.Int("maxc0"), "bad": z3.Bool("bad0")})
    return Loc("OS")


def pgm_world(W):
    if "PGM" not in W.made:
        W.made["PGM"] = 1
        W.IMG()
        W.st.mem["PGM"] = W.order("PGM_IO", Rec("PGM_IO", {
            "image": Ptr(Loc("IMG"), z3.Bool("held_null"))}))
    return Loc("PGM")


def setup(W, fn, case):
    out = []
    for p in ip.params(fn):
        ct = ctype(ip.qt(p))
        if ct == ("stream", "in"):
            out.append(in_world(W))
        elif ct == ("stream", "out"):
            out.append(out_world(W))
        elif ct == ("rec", "PGM_IO"):
            out.append(pgm_world(W))
        else:
            out.append(W.param(p))
    return out


class OnStream(Contract):
    unfold_index = True

    def setup(self, W, fn, case):
        return setup(W, fn, case)

    def loc(self, cx, kind, n=0):
        for a in cx.args:
            if isinstance(a, Loc):
                v = cx.rd(a)
                if isinstance(v, Rec) and v.name == kind:
                    return a
        raise Unsupported("no %s argument" % kind)

    def old(self, cx):
        return cx.rd(self.loc(cx, "istream"))

    def new(self, cx):
        return cx.rd(self.loc(cx, "istream"), cx.new)

    def wf(self, cx):
        v = self.old(cx)
        return [("the position is inside the stream", And(
            0 <= v.f["pos"], v.f["pos"] <= v.f["N"], v.f["N"] < 2 ** 62)),
            ("end of file is only reported at the end", Implies(
                v.f["eof"], v.f["pos"] == v.f["N"]))]

    def wf_post(self, cx):
        v = self.new(cx)
        return [("the position stays inside the stream", And(
            0 <= v.f["pos"], v.f["pos"] <= v.f["N"])),
            ("end of file is reported at the end", Implies(
                v.f["eof"], v.f["pos"] == v.f["N"]))]


def streams(L):
    """locations of input streams the loop changes"""
    seen, out = set(), []
    for l, v in L.leaves:
        if l.path and l.path[-1] in ("pos", "eof", "fail"):
            b = Loc(l.root, l.path[:-1])
            x = L.I.read_raw(L.ghead, b)
            if isinstance(x, Rec) and x.name == "istream" and \
                    b.key() not in seen:
                seen.add(b.key())
                out.append(b)
    return out


def outs(L):
    seen, out = set(), []
    for l, v in L.leaves:
        if l.path and l.path[-1] in ("nt", "col", "tk"):
            b = Loc(l.root, l.path[:-1])
            x = L.I.read_raw(L.ghead, b)
            if isinstance(x, Rec) and x.name == "ostream" and \
                    b.key() not in seen:
                seen.add(b.key())
                out.append(b)
    return out


def stream_wf(I, b):
    def f(s):
        v = I.read(s, b)
        return And(0 <= v.f["pos"], v.f["pos"] <= v.f["N"], Implies(
            v.f["eof"], v.f["pos"] == v.f["N"]))
    return f


# ------------------------------------------------------------- instructions
@contract("image", "PGM_IO::read_pgm_instruction", 1)
class _(OnStream):
    def pre(self, cx):
        return self.wf(cx)

    def modifies(self, cx):
        l = self.loc(cx, "istream")
        return [l.sub("pos"), l.sub("eof"), l.sub("fail")]

    def post(self, cx):
        o, n = self.old(cx), self.new(cx)
        s = SV(cx.I, o)
        t = s.TS(o.f["pos"])
        a, k = s.tok(t)
        r = pgmlib.tovec(cx.ret)
        f0 = o.f["fail"]
        out = self.wf_post(cx)
        found = And(Not(f0), t < s.N)
        out += [
            ("nothing is read from a failed stream", Implies(f0, And(
                r.size == 0, n.f["pos"] == o.f["pos"], n.f["fail"],
                n.f["eof"] == o.f["eof"]))),
            ("without a further token the result is empty", Implies(
                And(Not(f0), t == s.N), And(
                    r.size == 0, n.f["pos"] == s.N, n.f["eof"]))),
            ("the next token is returned", Implies(found, And(
                r.arr == a, r.size == k))),
            ("reading goes on after the token", Implies(found, And(
                n.f["pos"] == s.FSP(t), Not(n.f["fail"]),
                n.f["eof"] == (s.FSP(t) == s.N))))]
        return out

    def invariants(self, L):
        I = L.I
        cx = L.I.curctx
        o = self.old(cx)
        s = SV(I, o)
        p0, f0 = o.f["pos"], o.f["fail"]
        out = []
        strs = [l for l in L.vecs if I.read(L.ghead, l).et == CHAR]
        for n, b in enumerate(streams(L)):
            g = lambda st, k, b=b: I.read(st, b).f[k]
            out.append(("stream%d inside" % n, stream_wf(I, b)))
            out.append(("stream%d good=>skipped" % n, lambda st, g=g: Implies(
                Not(g(st, "fail")), s.TS(g(st, "pos")) == s.TS(p0))))
            out.append(("stream%d fail=>ended" % n, lambda st, g=g: Implies(
                g(st, "fail"), And(g(st, "eof"), g(st, "pos") == s.N,
                                   s.TS(p0) == s.N))))
            out.append(("stream%d fail=>entry" % n, lambda st, g=g: Implies(
                g(st, "fail"), f0)))
            for m, l in enumerate(strs):
                v = lambda st, l=l: I.read(st, l)
                q = lambda st, g=g, v=v: g(st, "pos") - v(st).size
                out.append(("tok%d.%d" % (n, m), lambda st, g=g, v=v, q=q:
                            Implies(Not(g(st, "fail")), And(
                                v(st).size > 0, q(st) >= 0,
                                Not(WS(s.at(q(st)))),
                                g(st, "pos") == s.FSP(q(st)),
                                v(st).arr == s.SH(q(st)),
                                g(st, "eof") == (g(st, "pos") == s.N)))))
                out.append(("tok%d.%d skipped" % (n, m), lambda st, g=g, q=q:
                            Implies(Not(g(st, "fail")),
                                    s.TS(q(st)) == s.TS(p0))))
                out.append(("tok%d.%d none" % (n, m), lambda st, g=g, v=v:
                            Implies(g(st, "fail"), Or(
                                v(st).size == 0, Sel(v(st).arr, 0) == 35))))
                out.append(("tok%d.%d empty" % (n, m), lambda st, v=v:
                            v(st).size == 0))
        return out

    def measures(self, L):
        I = L.I
        return [("rest of the stream", lambda st, b=b: I.read(st, b).f["N"] - I.read(st, b).f["pos"]
                + If(And(Not(I.read(st, b).f["eof"]), Not(
                    I.read(st, b).f["fail"])), z3.IntVal(1), z3.IntVal(0)))
                for b in streams(L)]


@contract("image", "PGM_IO::check_file_end", 1)
class _(OnStream):
    def pre(self, cx):
        return self.wf(cx) + [("the stream has not failed",
                               Not(self.old(cx).f["fail"]))]

    def modifies(self, cx):
        l = self.loc(cx, "istream")
        return [l.sub("pos"), l.sub("eof"), l.sub("fail")]

    def post(self, cx):
        o, n = self.old(cx), self.new(cx)
        s = SV(cx.I, o)
        end = s.TS(o.f["pos"]) == s.N
        return [("true exactly when only whitespace and comments are left",
                 cx.ret == end),
                ("the stream fails exactly when something else is left",
                 n.f["fail"] == Not(end))]

    def invariants(self, L):
        I = L.I
        o = self.old(I.curctx)
        s = SV(I, o)
        p0 = o.f["pos"]
        end = s.TS(p0) == s.N
        out = []
        for n, b in enumerate(streams(L)):
            g = lambda st, k, b=b: I.read(st, b).f[k]
            out.append(("stream%d inside" % n, stream_wf(I, b)))
            out.append(("stream%d good=>skipped" % n, lambda st, g=g: Implies(
                Not(g(st, "fail")), s.TS(g(st, "pos")) == s.TS(p0))))
            out.append(("stream%d fail=>rest" % n, lambda st, g=g: Implies(
                And(g(st, "fail"), Not(g(st, "eof"))), Not(end))))
            out.append(("stream%d fail=>rest'" % n, lambda st, g=g: Implies(
                g(st, "fail"), Not(end))))
            out.append(("stream%d eof=>end" % n, lambda st, g=g: Implies(
                g(st, "eof"), end)))
            out.append(("stream%d good" % n, lambda st, g=g: Not(
                g(st, "fail"))))
            out += flag_family(L, "skipped%d" % n, lambda st, g=g:
                               s.TS(g(st, "pos")) == s.TS(p0),
                               lambda st: Not(end))
        return out

    def measures(self, L):
        I = L.I
        return [("rest of the stream", lambda st, b=b: I.read(st, b).f["N"] - I.read(st, b).f["pos"]
                + If(And(Not(I.read(st, b).f["eof"]), Not(
                    I.read(st, b).f["fail"])), z3.IntVal(1), z3.IntVal(0)))
                for b in streams(L)]


# ------------------------------------------------------------------- reader
class Reading:
    """what the text from position p on means: four tokens of header, then
    the k-th intensity, counted from zero, comments skipped"""
    _n = {}

    def __init__(self, I, rec, p):
        s = self.s = SV(I, rec)
        key = (s.id, p.get_id())
        Reading._n.setdefault(key, (len(Reading._n), p))
        n = Reading._n[key][0]
        self.P = z3.Function("P$%d" % n, I_, I_)       # before intensity k
        self.V = z3.Function("VAL$%d" % n, I_, I_)
        self.K = z3.Function("KIND$%d" % n, I_, I_)
        self.n = n
        self.p = p
        self.head = [p]
        for i in range(4):
            self.head.append(s.FSP(s.TS(self.head[-1])))
        if I is not None:
            self.axioms(I.axioms)

    def VAL(self, i):
        return STV(*self.s.tok(self.s.TS(self.head[i])))

    def KIND(self, i):
        return STOK(*self.s.tok(self.s.TS(self.head[i])))

    def axioms(self, ax):
        if ("r", self.P.name()) in ax.done:
            return
        ax.done.add(("r", self.P.name()))
        for nm, keys, f in self.defs():
            ax.add(keys, nm, f)

    def defs(self):
        s, P = self.s, self.P
        k = z3.Int("k")
        T = s.TS(P(k))
        return [
            ("def-token-position", {P.name()}, P(0) == self.head[4]),
            ("def-token-position", {P.name()}, FA([k], Implies(
                k >= 0, P(k + 1) == s.FSP(T)), T)),
            ("token-position-bounds", {P.name()}, FA([k], Implies(
                And(k >= 0, 0 <= self.p, self.p <= s.N),
                And(0 <= P(k), P(k) <= s.N)), P(k))),
            ("def-token-value", {self.V.name()}, FA(
                [k], self.V(k) == STV(*s.tok(T)), self.V(k))),
            ("def-token-value", {self.K.name()}, FA(
                [k], self.K(k) == STOK(*s.tok(T)), self.K(k), T))]

    def magic(self):
        t = self.s.TS(self.head[0])
        return And(t < self.s.N, self.s.FSP(t) - t == 2,
                   *[Sel(self.s.SH(t), z3.IntVal(i)) == c
                     for i, c in enumerate(b"P2")])

    def pixels(self, wh):
        k = z3.Int("k")
        return FA([k], Implies(And(0 <= k, k < wh), self.K(k) == 0),
                  self.K(k))

    def accept(self, fail, w, h, m, wh):
        K = self.KIND
        return And(Not(fail), self.magic(), K(1) == 0, K(2) == 0, K(3) == 0,
                   m <= 65536, Or(h == 0, w <= z3.IntVal(MAXN) / h),
                   self.pixels(wh),
                   self.s.TS(self.P(wh)) == self.s.N)


def text_dims(I, r):
    """width and height of the text, named"""
    n = r.P.name()
    key = "dims" + n
    if key not in I.ghost:
        I.ghost[key] = [z3.Int("textw" + n), z3.Int("texth" + n)]
        I.extents.append(tuple(I.ghost[key]))
    return I.ghost[key]


def image_content(acc, r, W, H, m, im):
    """the image a well-formed text describes"""
    k = z3.Int("k")
    D = im.f["data"]
    return [("width", Implies(acc, im.f["width"] == W)),
            ("height", Implies(acc, im.f["height"] == H)),
            ("maximal value", Implies(acc, im.f["max_value"] == m)),
            ("number of intensities", Implies(acc, D.size == W * H)),
            ("intensities", Implies(acc, FA([k], Implies(And(
                0 <= k, k < W * H), Sel(D.arr, k) == r.V(k)),
                Sel(D.arr, k), r.V(k))))]


@contract("image", "operator>>", 2)
class _(OnStream):
    # (the argument is about tokens, not about characters)
    skip_axioms = ("stream-step", "stream-skip", "stream-line", "def-FNS",
                   "def-FSP", "def-FNL", "def-SH")

    def reading(self, cx):
        o = self.old(cx)
        r = Reading(cx.I, o, o.f["pos"])
        return r, r.VAL(1), r.VAL(2), r.VAL(3)

    def dims(self, cx):
        return text_dims(cx.I, self.reading(cx)[0])

    def pre(self, cx):
        r, w, h, m = self.reading(cx)
        W, H = self.dims(cx)
        cx.st.fact(And(W == w, H == h))      # (definition of the names)
        return self.wf(cx)

    def modifies(self, cx):
        l = self.loc(cx, "istream")
        return [l.sub("pos"), l.sub("eof"), l.sub("fail"),
                self.loc(cx, "PGM_IO").sub("image")]

    def accept(self, cx):
        o = self.old(cx)
        r, w, h, m = self.reading(cx)
        W, H = self.dims(cx)
        return r.accept(o.f["fail"], W, H, m, W * H)

    def make_ret(self, cx, ct):
        return self.loc(cx, "istream")

    def post(self, cx):
        o, n = self.old(cx), self.new(cx)
        r, w, h, m = self.reading(cx)
        W, H = self.dims(cx)
        acc = self.accept(cx)
        pl = self.loc(cx, "PGM_IO").sub("image")
        p0, p1 = cx.rd(pl), cx.rd(pl, cx.new)
        out = [("the stream fails exactly on malformed input",
                n.f["fail"] == Not(acc))]
        if not cx.body:
            return out + self.call_post(cx, acc, r, W, H, m, pl, p0)
        if p1.loc is None or (p0.loc is not None and
                              p0.loc.key() == p1.loc.key()):
            out.append(("a well-formed text gives an image", Not(acc)))
            same = p1.null == p0.null if p1.loc is not None else p0.null
            out.append(("a failed read keeps the image", Implies(
                Not(acc), same)))
            return out
        out.append(("a failed read keeps the image", acc))
        out.append(("a well-formed text gives an image", Implies(
            acc, Not(p1.null))))
        im = cx.rd(p1.loc, cx.new)
        return out + image_content(acc, r, W, H, m, im)

    def call_post(self, cx, acc, r, W, H, m, pl, p0):
        """the caller's view: the image pointer after the call"""
        I, st = cx.I, cx.st
        if not is_true(p0.null):
            raise Unsupported("reading into a reader that holds an image")
        im = I.fresh(("rec", "Image"), "image_read", st)
        loc = I.new_root("heap", im, st)
        I.write(st, pl, Ptr(loc, Not(acc)))
        cx.new = dict(st.mem)
        return image_content(acc, r, W, H, m, im)

    def invariants(self, L):
        I = L.I
        cx = I.curctx
        r, w, h, m = self.reading(cx)
        out = []
        imgs = []
        for root, v in L.ghead.mem.items():
            if isinstance(v, Rec) and v.name == "Image" and \
                    not root.startswith(("IMG", "$tmp")):
                imgs.append(root)
        k = z3.Int("k")
        # the nest seen as an enumeration of the intensities
        es = []
        for n, c in enumerate(L.counters):
            if c.dir > 0:
                es.append(("c%d" % n, lambda s, c=c: cval(I, s, c), None))

        def times(s, y, w):
            I.product_facts(s, y, w)
            return y * w
        for root in imgs:
            for a, lo in enumerate(L.stack + [L]):
                for b, co in enumerate(lo.counters):
                    if co.dir <= 0:
                        continue
                    W = lambda s, root=root: s.mem[root].f["width"]
                    if lo is L:
                        es.append(("row%d%d" % (a, b), lambda s, co=co, W=W:
                                   times(s, cval(I, s, co), W(s)), root))
                    else:
                        for n, c in enumerate(L.counters):
                            if c.dir > 0:
                                es.append((
                                    "cell%d%d.%d" % (a, b, n),
                                    lambda s, co=co, c=c, W=W: times(
                                        s, cval(I, s, co), W(s)) + cval(
                                        I, s, c),
                                    root))
        for n, b in enumerate(streams(L)):
            g = lambda st, f, b=b: I.read(st, b).f[f]
            out.append(("stream%d inside" % n, stream_wf(I, b)))
            out.append(("stream%d good" % n, lambda s, g=g: Not(
                g(s, "fail"))))
            for nm, e, root in es:
                out.append(("at%d %s" % (n, nm), lambda s, g=g, e=e:
                            g(s, "pos") == r.P(e(s))))
                out.append(("numbers%d %s" % (n, nm), lambda s, e=e: FA(
                    [k], Implies(And(0 <= k, k < e(s)),
                                 r.K(k) == 0), r.K(k))))
        for root in imgs:
            D = lambda s, root=root: s.mem[root].f["data"]
            for nm, e, rt in es:
                if rt not in (None, root):
                    continue
                out.append(("data %s %s" % (root.split("!")[0], nm),
                            lambda s, e=e, D=D: FA([k], Implies(And(
                                0 <= k, k < e(s)), Sel(D(s).arr, k) ==
                                r.V(k)), Sel(D(s).arr, k))))
        return out


# ------------------------------------------------------------------- writer
@contract("image", "operator<<", 2)
class _(OnStream):
    def held(self, cx):
        return cx.rd(self.loc(cx, "PGM_IO").sub("image"))

    def pre(self, cx):
        p = self.held(cx)
        o = cx.rd(self.loc(cx, "ostream"))
        out = [("nothing has been written yet", And(
            o.f["nt"] == 0, Not(o.f["open"]), o.f["col"] == 0,
            o.f["maxc"] == 0, Not(o.f["bad"])))]
        if p.loc is not None:
            im = cx.rd(p.loc)
            out.append(("data of the held image covers it", Implies(
                Not(p.null), And(im.f["data"].size == im.f["width"]
                                 * im.f["height"],
                                 im.f["data"].size <= MAXN))))
        return out

    def modifies(self, cx):
        l = self.loc(cx, "ostream")
        return [l.sub(f) for f in ("nt", "tk", "open", "col", "maxc", "bad")]

    def make_ret(self, cx, ct):
        return self.loc(cx, "ostream")

    def post(self, cx):
        p = self.held(cx)
        l = self.loc(cx, "ostream")
        o, n = cx.rd(l), cx.rd(l, cx.new)
        if p.loc is None:
            valid = FALSE
        else:
            im = cx.rd(p.loc)
            valid = And(Not(p.null), image_ok(im))
        silent = And(*[n.f[f] == o.f[f] for f in o.f])
        out = [("nothing is written without a valid image",
                Implies(Not(valid), silent))]
        if p.loc is None:
            return out
        w, h, m = im.f["width"], im.f["height"], im.f["max_value"]
        k = z3.Int("k")
        tk = n.f["tk"]
        D = im.f["data"].arr
        return out + [
            ("number of tokens", Implies(valid, n.f["nt"] == 4 + w * h)),
            ("magic word", Implies(valid, Sel(tk, 0) == -1)),
            ("width", Implies(valid, Sel(tk, 1) == w)),
            ("height", Implies(valid, Sel(tk, 2) == h)),
            ("maximal value", Implies(valid, Sel(tk, 3) == m)),
            ("intensities", Implies(valid, FA([k], Implies(And(
                0 <= k, k < w * h), Sel(tk, 4 + k) == Sel(D, k)),
                Sel(D, k), Sel(tk, 4 + k)))),
            ("tokens are separated", Implies(valid, Not(n.f["bad"]))),
            ("lines have at most 70 characters", Implies(
                And(valid, m <= 65536), And(n.f["col"] <= 70,
                                            n.f["maxc"] <= 70)))]

    def invariants(self, L):
        I = L.I
        cx = I.curctx
        p = self.held(cx)
        im = cx.rd(p.loc)
        w, h, m = im.f["width"], im.f["height"], im.f["max_value"]
        D = im.f["data"].arr
        k = z3.Int("k")
        out = []
        es = []
        cs = [(n, c) for n, c in enumerate(L.counters) if c.dir > 0]
        for n, c in cs:
            es.append(("c%d" % n, lambda s, c=c: cval(I, s, c)))
        for a, lo in enumerate(L.stack + [L]):
            for b, co in enumerate(lo.counters):
                if co.dir <= 0:
                    continue
                if lo is L:
                    es.append(("row%d%d" % (a, b), lambda s, co=co:
                               cval(I, s, co) * w))
                else:
                    for n, c in cs:
                        es.append(("cell%d%d.%d" % (a, b, n), lambda s, co=co,
                                   c=c: cval(I, s, co) * w + cval(I, s, c)))
        for n, b in enumerate(outs(L)):
            g = lambda s, f, b=b: I.read(s, b).f[f]
            for nm, e in es:
                out.append(("count%d %s" % (n, nm), lambda s, g=g, e=e:
                            g(s, "nt") == 4 + e(s)))
                out.append(("data%d %s" % (n, nm), lambda s, g=g, e=e: FA(
                    [k], Implies(And(0 <= k, k < e(s)), Sel(
                        g(s, "tk"), 4 + k) == Sel(D, k)), Sel(D, k),
                    Sel(g(s, "tk"), 4 + k))))
            for i in range(4):
                t0 = z3.Select(I.read(L.entry, b).f["tk"], z3.IntVal(i))
                out.append(("head%d.%d" % (n, i), lambda s, g=g, i=i, t0=t0:
                            Sel(g(s, "tk"), i) == t0))
            out.append(("apart%d" % n, lambda s, g=g: Not(g(s, "bad"))))
            out.append(("closed%d" % n, lambda s, g=g: Not(g(s, "open"))))
            for i, c in cs:
                out.append(("open%d=>last%d" % (n, i), lambda s, g=g, c=c:
                            Implies(g(s, "open"), cval(I, s, c) == w)))
                out.append(("first%d=>closed%d" % (n, i), lambda s, g=g, c=c:
                            Implies(cval(I, s, c) == 0, Not(g(s, "open")))))
                for K in range(1, 15):
                    out.append(("width%d.%d%%%d" % (n, i, K), lambda s, g=g,
                                c=c, K=K: Implies(And(
                                    m <= 65536, Not(g(s, "open"))),
                                g(s, "col") <= 6 * (cval(I, s, c) % K))))
                for K in range(1, 15):
                    out.append(("last%d.%d%%%d" % (n, i, K), lambda s, g=g,
                                c=c, K=K: Implies(m <= 65536, g(
                                    s, "col") <= If(
                                    cval(I, s, c) % K == 0, 6 * K,
                                    6 * (cval(I, s, c) % K)))))
            for j, l in enumerate(L.ints):
                if l.root == b.root:
                    continue
                out.append(("width%d of int%d" % (n, j), lambda s, g=g, l=l:
                            Implies(m <= 65536, g(s, "col")
                                    <= 6 * I.read(s, l))))
                out.append(("width%d is int%d" % (n, j), lambda s, g=g, l=l:
                            g(s, "col") == I.read(s, l)))
            for B in (0, 5, 65, 66, 70):
                out.append(("column%d<=%d" % (n, B), lambda s, g=g, B=B:
                            Implies(m <= 65536, g(s, "col") <= B)))
            out.append(("lines%d" % n, lambda s, g=g: Implies(
                m <= 65536, g(s, "maxc") <= 70)))
        return out
