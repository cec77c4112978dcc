"""Contracts of the command-line tool (lib/main.cpp)."""
import z3
import interp as ip
import pgmlib
from interp import (Vec, Rec, Loc, Ptr, Unsupported, TRUE, FALSE, I_, ctype)
from pgmlib import STV, STOK, EPS, has_option, option_value, PARSE, IA
from specs import (fsub, And, Or, Not, Implies, If, Sel, FA, EX, Contract, contract,
                   CONTRACTS, NBR, HOLE, PIdef, threshold_axioms, LV, cval)

from pgmlib import CHAR
from contracts_pgm import Reading, text_dims, image_content

# what the tool is told, as its --help shows it
OPTIONS = ("help,h", "parallel,p", "left-image,l", "right-image,r",
           "output-image,o", "disparity-levels,d", "smoothness,s",
           "cleanness,c")


class File:
    """what a file of this name means as a plain PGM image"""

    def __init__(self, I, path):
        self.rec = pgmlib.in_file(I, path, None)
        self.N = self.rec.f["N"]
        r = self.r = Reading(I, self.rec, z3.IntVal(0))
        self.W, self.H = text_dims(I, r)
        self.m = r.VAL(3)
        self.names = And(self.W == r.VAL(1), self.H == r.VAL(2),
                         self.N >= 0, self.N < 2 ** 62)
        self.ok = r.accept(self.rec.f["fail"], self.W, self.H, self.m,
                           self.W * self.H)

    def valid(self):
        """it describes a valid image"""
        k = z3.Int("k")
        return [("that can be read", self.ok),
                ("that is not empty", And(self.W != 0, self.H != 0)),
                ("with a maximal intensity", self.m != 0),
                ("with intensities in range", FA([k], Implies(And(
                    0 <= k, k < self.W * self.H), self.r.V(k) <= self.m),
                    self.r.V(k)))]


@contract("", "read_image", 1)
class _(Contract):
    skip_axioms = ("stream-step", "stream-skip", "stream-line", "def-FNS",
                   "def-FSP", "def-FNL", "def-SH")

    def file(self, cx):
        return File(cx.I, pgmlib.tovec(cx.a(0)))

    def pre(self, cx):
        cx.st.fact(self.file(cx).names)     # (definition of the names)
        return []

    def throws(self, cx):
        return {"invalid_argument": Not(self.file(cx).ok)}

    def post(self, cx):
        f = self.file(cx)
        return image_content(f.ok, f.r, f.W, f.H, f.m, cx.ret)


def lower(c):
    return If(And(c >= 65, c <= 90), c + 32, c)


def is_word(v, w):
    """the string is this word, upper and lower case alike"""
    return And(v.size == len(w), *[
        lower(Sel(v.arr, z3.IntVal(i))) == ord(ch) for i, ch in enumerate(w)])


class Task:
    """what the command line asks for"""

    def __init__(self, I):
        v = option_value
        self.left, self.right = (File(I, v(k)) for k in (
            "left-image", "right-image"))
        self.out = v("output-image")
        self.given = And(*[has_option(k) for k in (
            "left-image", "right-image", "output-image")])
        self.D = self.number("disparity-levels", self.left.W)
        self.c = z3.ToReal(self.number("cleanness", z3.IntVal(1)))
        self.s = z3.ToReal(self.number("smoothness", z3.IntVal(1)))
        par = v("parallel")
        self.par_ok = Or(Not(has_option("parallel")), *[
            is_word(par, w) for w in ("cpu", "openmp", "omp")])
        self.numbers = And(*[Implies(has_option(k), STOK(
            v(k).arr, v(k).size) == 0) for k in (
                "disparity-levels", "cleanness", "smoothness")])
        l, r = self.left, self.right
        # (a map presupposes all of these)
        self.needs = [
            ("a readable command line", PARSE == 0),
            ("the names of all three files", self.given),
            ("a known parallelism", self.par_ok),
            ("numbers as parameters", self.numbers)] + [
            ("a left image " + n, f) for n, f in l.valid()] + [
            ("a right image " + n, f) for n, f in r.valid()] + [
            ("at least two levels", self.D >= 2),
            ("at most as many levels as columns", self.D <= l.W),
            ("images of the same width", l.W == r.W),
            ("images of the same height", l.H == r.H),
            ("images of the same maximal value", l.m == r.m),
            ("weights that are not negative", And(self.c >= 0, self.s >= 0)),
            ("a weight that is not zero", Not(And(self.c < EPS,
                                                  self.s < EPS)))]

    def number(self, k, default):
        v = option_value(k)
        return If(has_option(k), STV(v.arr, v.size), default)


@contract("", "main", 2)
class _(Contract):
    separate_paths = True
    skip_axioms = ("stream-step", "stream-skip", "stream-line", "def-FNS",
                   "def-FSP", "def-FNL", "def-SH")

    def setup(self, W, fn, case):
        W.st.mem["OFILE"] = Rec("ostream", dict(
            pgmlib.new_ostream().f, opened=FALSE, blank=FALSE, pa=z3.Const("nopath", IA),
            pn=z3.IntVal(0)))
        W.st.mem["CERR"] = FALSE
        return [z3.Int("argc"), ip.Opaque("argv")]

    def task(self, cx):
        if "task" not in cx.I.ghost:
            cx.I.ghost["task"] = Task(cx.I)
        return cx.I.ghost["task"]

    def pre(self, cx):
        T = self.task(cx)
        i = z3.Int("i")
        st = cx.st
        for k in [o.split(",")[0] for o in OPTIONS]:
            v = option_value(k)
            st.fact(And(v.size >= 0, v.size < 2 ** 62, FA([i], And(
                Sel(v.arr, i) >= -128, Sel(v.arr, i) < 128),
                Sel(v.arr, i))))
        st.fact(And(T.left.names, T.right.names, PARSE >= 0, PARSE <= 3))
        W, H, D = T.left.W, T.left.H, T.D
        return [("the problem fits the address space", Implies(
            And(T.left.ok, D <= W), And(W * H * 4 * D < 2 ** 60,
                                        W * H <= 2 ** 58)))]

    def modifies(self, cx):
        return [Loc("OFILE"), Loc("CERR")]

    def invariants(self, L):
        """words that are being changed to lower case"""
        I = L.I
        i = z3.Int("i")
        out = []
        for n, l in enumerate(L.vecs):
            old = I.read(L.entry, l)
            if old.et != CHAR:
                continue
            out.append(("size%d" % n, lambda s, l=l, o=old: I.read(
                s, l).size == o.size))
            for m, c in enumerate(L.counters):
                if c.dir <= 0:
                    continue

                def done(s, l=l, o=old, c=c):
                    a = I.read(s, l).arr
                    return FA([i], Implies(And(0 <= i, i < cval(I, s, c)),
                                           Sel(a, i) == lower(Sel(o.arr, i))),
                              Sel(a, i))

                def left(s, l=l, o=old, c=c):
                    a = I.read(s, l).arr
                    return FA([i], Implies(And(cval(I, s, c) <= i,
                                               i < o.size),
                                           Sel(a, i) == Sel(o.arr, i)),
                              Sel(a, i))
                out += [("lower%d.%d" % (n, m), done),
                        ("left%d.%d" % (n, m), left)]
        return out

    def the(self, cx, name):
        """the object of this type the run ends with"""
        ls = [r for r, v in cx.new.items() if isinstance(v, Rec) and
              v.name == name]
        return ls

    def post(self, cx):
        I = cx.I
        T = self.task(cx)
        o = cx.new["OFILE"]
        said = cx.new["CERR"]
        op = o.f["opened"]
        names = {n for n, typed in I.ghost.get("options", ())}
        typed = {n for n, typed in I.ghost.get("options", ()) if typed}
        out = [("the documented options are declared", z3.BoolVal(
            names >= set(OPTIONS) and typed >= set(OPTIONS[1:]))),
            ("there is a message or a map", Or(said, op))]
        if z3.is_false(ip.simp(op)):
            return out
        out += [("no map without " + n, Implies(op, f)) for n, f in T.needs]
        out.append(("the map goes to the output file", Implies(op, And(
            o.f["pa"] == T.out.arr, o.f["pn"] == T.out.size))))
        cgs = self.the(cx, "ConstraintGraph")
        if not cgs:
            raise Unsupported("no constraint graph at the end of main")
        lv, t, av, _ = cx.cgl(Loc(cgs[-1]), cx.new)
        threshold_axioms(I.axioms, lv, I)
        g = lv.g
        v = g.v
        k = z3.Int("k")
        u = z3.Real("u")
        x, y, d = z3.Ints("x y d")

        def img(nm, f, im):
            D = im.f["data"]
            return [("the %s image of the problem is the file" % nm, And(
                im.f["width"] == f.W, im.f["height"] == f.H,
                im.f["max_value"] == f.m, D.size == f.W * f.H)),
                ("the %s intensities are the file's" % nm, FA(
                    [k], Implies(And(0 <= k, k < f.W * f.H),
                                 Sel(D.arr, k) == f.r.V(k)), Sel(D.arr, k)))]
        post = img("left", T.left, v.f["left"]) + \
            img("right", T.right, v.f["right"])
        post.append(("levels of the problem", g.D == T.D))
        post.append(("cleanness of the problem", g.c == T.c))
        post.append(("smoothness of the problem", g.s == T.s))
        rep = g.rep
        post.append(("the problem is not reparametrized", FA(
            [k], Implies(And(0 <= k, k < rep.size), Sel(rep.arr, k) == 0),
            Sel(rep.arr, k))))
        tk = o.f["tk"]
        W, H = g.W, g.H
        head = [(0, z3.IntVal(-1)), (1, W), (2, H), (3, g.D)]
        post.append(("header of the map", And(*[
            Sel(tk, z3.IntVal(n)) == e for n, e in head])))
        post.append(("size of the map", And(
            o.f["nt"] == 4 + W * H, Not(o.f["bad"]))))

        def px(x, y):
            return Sel(tk, 4 + g.pi(x, y))
        here = And(g.inp(x, y), HOLE(x, y))
        q = px(x, y)
        post.append(("pixels are disparities of existing nodes", FA(
            [x, y], Implies(here, g.ex(x, y, q)), q)))
        post.append(("nodes of the labeling are within the threshold", FA(
            [x, y], Implies(here, fsub(g.PEN(x, y, q), g.LPM(x, y)) <= t), q)))
        for n in range(4):
            x2, y2 = NBR[n](x, y)
            q2 = px(x2, y2)
            e = (x, y, q, x2, y2, q2)
            post.append((
                "edges of the labeling are within the threshold "
                "(direction %d)" % n, FA([x, y], Implies(
                    And(here, g.nbex(x, y, n), HOLE(x2, y2)), And(
                        g.eex(*e), fsub(g.EPEN(*e), g.LNM(
                            x, y, z3.IntVal(n))) <= t)), q)))
        post.append(("the threshold is a candidate", lv.PV(t)))
        post.append(("the problem is solvable at the threshold", lv.SOLV(t)))
        post.append(("no smaller candidate is solvable", FA(
            [u], Implies(And(lv.PV(u), u < t), Not(lv.SOLV(u))), lv.PV(u))))
        return out + [(n, Implies(op, f)) for n, f in post]
