"""Trusted models (assumed contracts) of the C++ standard library."""
import z3
import interp as ip
from interp import (Vec, Rec, Loc, Ptr, Iter, BackIns, BitRef, Lambda, Opaque,
                    Special, Unsupported, TRUE, FALSE, I_, B_, R_, sort_of,
                    ctype, json_keys, simp, is_true, is_false)

RA = z3.ArraySort(I_, R_)
MEMS = z3.Function("MEMS", RA, I_, R_, B_)       # value occurs in arr[0..n)
MEMW = z3.Function("MEMW", RA, I_, R_, I_)       # a witness position
SORTED = z3.Function("SORTED", RA, I_, B_)       # non-decreasing
STRICT = z3.Function("STRICT", RA, I_, B_)       # strictly increasing

MAXSIZE = {64: 2 ** 60 - 1, 32: 2 ** 61 - 1, 8: 2 ** 63 - 1}


def base_axioms(ax):
    a = z3.Const("a", RA)
    n, i, j = z3.Ints("n i j")
    v = z3.Real("v")
    ax.add({"MEMS"}, "MEMS-def-1", z3.ForAll([a, n, v], z3.Implies(
        MEMS(a, n, v), z3.And(MEMW(a, n, v) >= 0, MEMW(a, n, v) < n,
                              z3.Select(a, MEMW(a, n, v)) == v)),
        patterns=[MEMS(a, n, v)]))
    ax.add({"MEMS"}, "MEMS-def-2", z3.ForAll([a, n, v, i], z3.Implies(
        z3.And(0 <= i, i < n, z3.Select(a, i) == v), MEMS(a, n, v)),
        patterns=[z3.MultiPattern(MEMS(a, n, v), z3.Select(a, i))]))
    ax.add({"SORTED"}, "SORTED-def", z3.ForAll([a, n, i, j], z3.Implies(
        z3.And(SORTED(a, n), 0 <= i, i <= j, j < n),
        z3.Select(a, i) <= z3.Select(a, j)),
        patterns=[z3.MultiPattern(SORTED(a, n), z3.Select(a, i),
                                  z3.Select(a, j))]))
    ax.add({"STRICT"}, "STRICT-def", z3.ForAll([a, n, i, j], z3.Implies(
        z3.And(STRICT(a, n), 0 <= i, i < j, j < n),
        z3.Select(a, i) < z3.Select(a, j)),
        patterns=[z3.MultiPattern(STRICT(a, n), z3.Select(a, i),
                                  z3.Select(a, j))]))
    ax.add({"STRICT"}, "STRICT-small", z3.ForAll([a, n], z3.Implies(
        n <= 1, STRICT(a, n)), patterns=[STRICT(a, n)]))
    ax.add({"SORTED"}, "SORTED-small", z3.ForAll([a, n], z3.Implies(
        n <= 1, SORTED(a, n)), patterns=[SORTED(a, n)]))


class Lib:
    def __init__(self, I):
        self.I = I

    # ---------------------------------------------------------- vectors
    def empty_vec(self, et):
        z = {"int": z3.IntVal(0), "bool": FALSE, "real": z3.RealVal(0)}[et[0]]
        return Vec(z3.K(I_, z), z3.IntVal(0), et)

    def fresh(self, ct, base, st):
        if ct[0] == "iter":
            return None
        import pgmlib
        return pgmlib.fresh(self.I, ct, base, st)

    def havoc_like(self, v, base, st):
        import pgmlib
        return pgmlib.havoc_like(self.I, v, base, st)

    def tobool(self, v):
        import pgmlib
        return pgmlib.tobool(self.I, v)

    def deref(self, st, p):
        import pgmlib
        return pgmlib.deref(self.I, st, p)

    def default(self, ct, st):
        import pgmlib
        return pgmlib.default(self.I, ct, st)

    def string_literal(self, e):
        import pgmlib
        return pgmlib.string_literal(self.I, e)

    def std_global(self, rd):
        nm = rd.get("name")
        if nm in ("cout", "cerr", "clog", "cin") and "stream" in (
                rd.get("type") or {}).get("qualType", ""):
            return Special("console", nm)
        if nm == "ignore":
            return None
        import pgmlib
        return pgmlib.std_global(self.I, rd)

    def init_list(self, e, ct, kids, st):
        return None

    def same_et(self, v):
        return v

    def named(self, st, n):
        """give a compound size a name (it occurs in patterns)"""
        if has_ite(n):
            m = z3.Int(self.I.name("size"))
            st.fact(m == n)
            return m
        return n

    def construct(self, e, ct, kids, st):
        I = self.I
        kids = [k for k in kids if k.get("kind") != "CXXDefaultArgExpr"]
        sig = (e.get("ctorType") or {}).get("qualType", "")
        if ct[0] == "vec":
            et = ct[1]
            if not kids:
                return self.empty_vec(et)
            vals = []
            v0 = I.ev(kids[0], st)
            b = I.rv(st, v0)
            if len(kids) == 1 and isinstance(b, Vec):
                if "&&" in sig and isinstance(v0, Loc):
                    I.moved(st, v0)
                return b
            if len(kids) == 1 and z3.is_expr(b):
                n = b
                I.extent(n)
                I.oblige("alloc", "vector size within max_size",
                         n < 2 ** 61, st)
                z = self.empty_vec(et)
                return Vec(z.arr, self.named(st, n), et)
            if len(kids) == 2 and z3.is_expr(b) and z3.is_int(b):
                x = I.conv(st, I.val(kids[1], st), et)
                I.oblige("alloc", "vector size within max_size",
                         b < 2 ** 61, st)
                return Vec(z3.K(I_, x), self.named(st, b), et)
            if len(kids) == 2 and isinstance(b, Iter):
                e2 = I.val(kids[1], st)
                src = I.read(st, b.vec)
                if is_true(b.pos == 0) and isinstance(e2, Iter):
                    return Vec(src.arr, e2.pos, et)
            raise Unsupported("vector constructor")
        if ct[0] == "iter":
            if len(kids) == 1:
                return I.val(kids[0], st)
            raise Unsupported("iterator constructor")
        if ct[0] == "opaque" and len(kids) == 1:
            v = I.val(kids[0], st)
            if isinstance(v, (Iter, BackIns, Lambda)):
                return v
        import pgmlib
        r = pgmlib.construct(I, e, ct, kids, st)
        if r is not None:
            return r
        for k in kids:
            I.ev(k, st)
        if ct[0] in ("rec", "opaque", "str"):
            return Opaque(repr(ct))
        raise Unsupported("construction of %r" % (ct,))

    def index_check(self, st, vloc, idx, what):
        v = self.I.read(st, vloc)
        self.I.oblige("bounds", "index within the vector (%s)" % what,
                      z3.And(idx >= 0, idx < v.size), st)

    def operator(self, nm, kids, st, e):
        I = self.I
        a = I.ev(kids[0], st)
        av = I.rv(st, a) if not isinstance(a, BitRef) else a
        if nm == "operator[]":
            if isinstance(av, Vec) and av.et[0] != "char":
                if not isinstance(a, Loc):
                    a = I.new_root("tmp", av, st)
                i = I.toint(I.val(kids[1], st))
                self.index_check(st, a, i, vname(a))
                loc = a.sub(("i", i))
                if av.et[0] == "bool":
                    t = ip.qt(e)
                    return BitRef(loc) if "reference" in t else \
                        I.read(st, loc)
                return loc
        if isinstance(av, Iter):
            if nm == "operator*":
                loc = I.deref(st, av, "*")
                v = I.read(st, av.vec)
                if v.et[0] == "bool":
                    return BitRef(loc)
                return loc
            if nm in ("operator++", "operator--"):
                d = 1 if nm == "operator++" else -1
                I.write(st, a, Iter(av.vec, av.pos + d))
                return av if len(kids) > 1 else a
            b = I.val(kids[1], st)
            if nm in ("operator==", "operator!=", "operator<", "operator>",
                      "operator<=", "operator>="):
                if not isinstance(b, Iter) or b.vec.key() != av.vec.key():
                    raise Unsupported("comparison of unrelated iterators")
                return I.binop(st, nm[8:], av.pos, b.pos, None)
            if nm == "operator-":
                if isinstance(b, Iter):
                    return av.pos - b.pos
                return Iter(av.vec, av.pos - b)
            if nm == "operator+":
                return Iter(av.vec, av.pos + b)
            if nm in ("operator+=", "operator-="):
                I.write(st, a, Iter(av.vec, av.pos + b if nm == "operator+="
                                    else av.pos - b))
                return a
        if isinstance(av, Lambda) and nm == "operator()":
            return self.call_lambda(av, [I.ev(k, st) for k in kids[1:]], st)
        if nm in ("operator==", "operator!=") and isinstance(av, BitRef):
            b = I.val(kids[1], st)
            x = I.read(st, av.loc)
            return x == b if nm == "operator==" else x != b
        if isinstance(av, BitRef) and nm == "operator=":
            b = I.val(kids[1], st)
            I.write(st, av.loc, I.tobool(b))
            return av
        import pgmlib
        return pgmlib.operator(I, nm, a, av, kids, st, e)

    def vsize(self, st, loc):
        return self.I.read(st, loc).size

    def method(self, nm, base, kids, st, e):
        I = self.I
        kids = [k for k in kids if k.get("kind") != "CXXDefaultArgExpr"]
        if isinstance(base, BitRef):
            if nm == "operator bool":
                return I.read(st, base.loc)
            if nm == "flip":
                I.write(st, base.loc, z3.Not(I.read(st, base.loc)))
                return None
        bv = base if not isinstance(base, Loc) else I.read_raw(st, base)
        if isinstance(bv, BitRef):
            return self.method(nm, bv, kids, st, e)
        if isinstance(bv, Vec) and bv.et[0] != "char":
            if not isinstance(base, Loc):
                base = I.new_root("tmp", bv, st)
            v = bv
            if nm == "size":
                return v.size
            if nm == "empty":
                return v.size == 0
            if nm == "max_size":
                return z3.IntVal({"int": MAXSIZE[v.et[1]] if v.et[0] == "int"
                                  else 0, "real": 2 ** 60 - 1,
                                  "bool": 2 ** 63 - 64}[v.et[0]])
            if nm in ("begin", "cbegin"):
                return Iter(base, z3.IntVal(0))
            if nm in ("end", "cend"):
                return Iter(base, v.size)
            if nm in ("push_back", "emplace_back"):
                x = I.conv(st, I.val(kids[0], st), v.et)
                if isinstance(x, BitRef):
                    x = I.read(st, x.loc)
                v = I.read(st, base)     # (arguments may change it)
                st.fact(v.size < 2 ** 60)   # allocation succeeded
                w = Vec(z3.Store(v.arr, v.size, x), v.size + 1, v.et)
                if v.et[0] == "real":
                    self.push_facts(st, v, w, x)
                I.write(st, base, w)
                return None
            if nm == "pop_back":
                I.oblige("bounds", "pop_back of a non-empty vector",
                         v.size > 0, st)
                I.write(st, base, Vec(v.arr, v.size - 1, v.et))
                return None
            if nm == "clear":
                I.write(st, base, Vec(v.arr, z3.IntVal(0), v.et))
                return None
            if nm in ("reserve", "shrink_to_fit"):
                for k in kids:
                    I.ev(k, st)
                return None
            if nm in ("resize", "assign") and kids:
                n = I.val(kids[0], st)
                if isinstance(n, Iter):
                    e2 = I.val(kids[1], st)
                    src = I.read(st, n.vec)
                    if is_true(n.pos == 0):
                        I.write(st, base, Vec(src.arr, e2.pos, v.et))
                        return None
                    raise Unsupported("assign of a range")
                I.extent(n)
                z = self.empty_vec(v.et).arr
                if len(kids) > 1:
                    z = z3.K(I_, I.conv(st, I.val(kids[1], st), v.et))
                v = I.read(st, base)     # (arguments may change it)
                if v.et[0] in ("int", "real") and not I.dry:
                    I.oblige("alloc", "vector size within max_size",
                             n < 2 ** 60, st)
                if nm == "assign" or is_true(v.size == 0):
                    I.write(st, base, Vec(z, n, v.et))
                    return None
                na = z3.Const(I.name("resized"), v.arr.sort())
                i = z3.Int("i")
                st.fact(z3.ForAll([i], z3.Select(na, i) == z3.If(
                    i < v.size, z3.Select(v.arr, i), z3.Select(z, i)),
                    patterns=[z3.Select(na, i)]))
                I.write(st, base, Vec(na, n, v.et))
                return None
            if nm == "erase":
                a = I.val(kids[0], st)
                if len(kids) == 2:
                    b = I.val(kids[1], st)
                    v = I.read(st, base)
                    I.oblige("bounds", "erase range is valid", z3.And(
                        a.pos >= 0, a.pos <= b.pos, b.pos <= v.size), st)
                    if I.dry or I.prove_quick(st, b.pos == v.size):
                        I.write(st, base, Vec(v.arr, a.pos, v.et))
                        return Iter(base, a.pos)
                raise Unsupported("erase in the middle")
            if nm in ("front", "back"):
                I.oblige("bounds", nm + " of a non-empty vector",
                         v.size > 0, st)
                return base.sub(("i", z3.IntVal(0) if nm == "front"
                                 else v.size - 1))
            if nm == "at":
                i = I.val(kids[0], st)
                v = I.read(st, base)
                s2 = st.copy()
                s2.pc(i >= v.size)
                I.exc[-1].append((s2, ("throw", "out_of_range")))
                st.pc(i < v.size)
                loc = base.sub(("i", i))
                return BitRef(loc) if v.et[0] == "bool" else loc
            if nm == "swap":
                o = I.ev(kids[0], st)
                self.swap(st, base, o)
                return None
            if nm == "insert" and len(kids) == 3:
                p, a, b = [I.val(k, st) for k in kids]
                v = I.read(st, base)
                if isinstance(a, Iter) and isinstance(b, Iter) and \
                        v.et[0] == "real" and (I.dry or I.prove_quick(
                            st, p.pos == v.size)):
                    self.append(st, base, a, b)
                    return Iter(base, v.size)
                raise Unsupported("insert in the middle")
        import pgmlib
        return pgmlib.method(I, nm, base, bv, kids, st, e)

    def swap(self, st, a, b):
        I = self.I
        x, y = I.read(st, a), I.read(st, b)
        I.write(st, a, y)
        I.write(st, b, x)

    # value-set facts about vectors of FLOAT
    def push_facts(self, st, v, w, x):
        if self.I.dry:
            return
        u = z3.Real("u")
        st.fact(z3.ForAll([u], MEMS(w.arr, w.size, u) == z3.Or(
            MEMS(v.arr, v.size, u), u == x),
            patterns=[MEMS(w.arr, w.size, u)]))
        st.fact(MEMS(w.arr, w.size, x))
        st.fact(z3.Implies(v.size == 0, z3.ForAll([u], z3.Not(
            MEMS(v.arr, v.size, u)), patterns=[MEMS(v.arr, v.size, u)])))

    def setsame(self, st, a1, n1, a2, n2):
        if self.I.dry:
            return
        u = z3.Real("u")
        st.fact(z3.ForAll([u], MEMS(a1, n1, u) == MEMS(a2, n2, u),
                          patterns=[MEMS(a1, n1, u), MEMS(a2, n2, u)]))

    def whole(self, st, b, e, what):
        I = self.I
        if not (isinstance(b, Iter) and isinstance(e, Iter)) or \
                b.vec.key() != e.vec.key():
            raise Unsupported(what + " over unrelated iterators")
        v = I.read(st, b.vec)
        if not is_true(b.pos == 0):
            if I.dry or not I.prove_quick(st, b.pos == 0):
                if not I.dry:
                    raise Unsupported(what + " over a partial range")
        I.oblige("bounds", what + " range is valid",
                 z3.And(e.pos >= 0, e.pos <= v.size), st)
        return v, e.pos

    def append(self, st, out, a, b):
        """append the multiset of [a,b) (order kept) to vector `out`"""
        I = self.I
        v = I.read(st, out)
        src = I.read(st, a.vec)
        na = z3.Const(I.name("appended"), v.arr.sort())
        n = v.size + (b.pos - a.pos)
        i = z3.Int("i")
        st.fact(z3.ForAll([i], z3.Select(na, i) == z3.If(
            i < v.size, z3.Select(v.arr, i),
            z3.Select(src.arr, i - v.size + a.pos)),
            patterns=[z3.Select(na, i)]))
        u = z3.Real("u")
        if not I.dry and is_true(a.pos == 0):
            st.fact(z3.ForAll([u], MEMS(na, n, u) == z3.Or(
                MEMS(v.arr, v.size, u), MEMS(src.arr, b.pos, u)),
                patterns=[MEMS(na, n, u)]))
        I.write(st, out, Vec(na, n, v.et))

    # ---------------------------------------------------------- functions
    def call(self, nm, kids, st, e):
        I = self.I
        kids = [k for k in kids if k.get("kind") != "CXXDefaultArgExpr"]
        if nm in ("move", "forward", "as_const") and len(kids) == 1:
            return I.ev(kids[0], st)
        if nm in ("min", "max") and len(kids) == 2:
            xa, xb = I.ev(kids[0], st), I.ev(kids[1], st)
            a, b = I.rv(st, xa), I.rv(st, xb)
            if z3.is_expr(a) and z3.is_expr(b):
                c = (b < a) if nm == "min" else (a < b)
                return I.new_root("tmp", z3.If(c, b, a), st)
        if nm == "omp_get_num_threads" and not kids and I.prog.openmp:
            # the size of the team does not change within a function
            from specs import THREADS
            st.fact(z3.And(THREADS >= 1, THREADS < 2 ** 31))
            return THREADS
        if nm in ("abs", "fabs") and len(kids) == 1:
            a = I.val(kids[0], st)
            return z3.If(a >= 0, a, -a)
        if nm in ("begin", "cbegin", "end", "cend", "size", "empty") \
                and len(kids) == 1:
            return self.method(nm, I.ev(kids[0], st), [], st, e)
        if nm == "swap":
            a, b = I.ev(kids[0], st), I.ev(kids[1], st)
            if isinstance(a, Loc) and isinstance(b, Loc):
                self.swap(st, a, b)
                return None
        if nm == "exchange":
            a = I.ev(kids[0], st)
            old = I.rv(st, a)
            I.write(st, a, I.val(kids[1], st))
            return old
        if nm == "back_inserter":
            return BackIns(I.ev(kids[0], st))
        if nm in ("next", "prev"):
            a = I.val(kids[0], st)
            d = I.val(kids[1], st) if len(kids) > 1 else z3.IntVal(1)
            return Iter(a.vec, a.pos + d if nm == "next" else a.pos - d)
        if nm == "distance":
            a, b = I.val(kids[0], st), I.val(kids[1], st)
            return b.pos - a.pos
        if nm in ("fill", "fill_n"):
            b = I.val(kids[0], st)
            en = I.val(kids[1], st)
            x = I.val(kids[2], st)
            if isinstance(b, Iter):
                if nm == "fill_n":
                    en = Iter(b.vec, b.pos + en)
                v = I.read(st, b.vec)
                x = I.conv(st, x, v.et)
                I.oblige("bounds", "fill range is valid", z3.And(
                    b.pos >= 0, b.pos <= en.pos, en.pos <= v.size), st)
                if is_true(b.pos == 0) and (ip.same(en.pos, v.size) or
                                            is_true(en.pos == v.size)):
                    na = z3.K(I_, x)
                else:
                    na = z3.Const(I.name("filled"), v.arr.sort())
                    i = z3.Int("i")
                    st.fact(z3.ForAll([i], z3.Select(na, i) == z3.If(
                        z3.And(b.pos <= i, i < en.pos), x,
                        z3.Select(v.arr, i)), patterns=[z3.Select(na, i)]))
                I.write(st, b.vec, Vec(na, v.size, v.et))
                return None if nm == "fill" else en
        if nm in ("sort", "stable_sort") and len(kids) == 2:
            b, en = I.val(kids[0], st), I.val(kids[1], st)
            v, n = self.whole(st, b, en, nm)
            if v.et[0] == "real":
                na = z3.Const(I.name("sorted"), v.arr.sort())
                st.fact(SORTED(na, n))
                self.setsame(st, na, n, v.arr, n)
                I.trusted.add("std::sort")
                I.write(st, b.vec, Vec(na, v.size, v.et))
                if not (I.dry or I.prove_quick(st, n == v.size)):
                    raise Unsupported("sort of a prefix")
                return None
        if nm == "unique" and len(kids) == 2:
            b, en = I.val(kids[0], st), I.val(kids[1], st)
            v, n = self.whole(st, b, en, nm)
            if v.et[0] == "real":
                na = z3.Const(I.name("uniq"), v.arr.sort())
                m = I.fresh_int("uniq_n", st)
                st.fact(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
                st.fact(z3.Implies(SORTED(v.arr, n), STRICT(na, m)))
                self.setsame(st, na, m, v.arr, n)
                I.trusted.add("std::unique")
                I.write(st, b.vec, Vec(na, v.size, v.et))
                return Iter(b.vec, m)
        if nm in ("merge", "set_union") and len(kids) == 5:
            a, b, c, d, out = [I.val(k, st) for k in kids]
            v1, n1 = self.whole(st, a, b, nm)
            v2, n2 = self.whole(st, c, d, nm)
            if isinstance(out, BackIns) and v1.et[0] == "real":
                # std::merge requires sorted inputs
                I.oblige("precondition", nm + " requires sorted ranges",
                         z3.And(self.is_sorted(v1.arr, n1),
                                self.is_sorted(v2.arr, n2)), st)
                v = I.read(st, out.vec)
                na = z3.Const(I.name("merged"), v.arr.sort())
                cnt = I.fresh_int("merged_n", st)
                if nm == "merge":
                    st.fact(cnt == v.size + n1 + n2)
                else:
                    st.fact(z3.And(cnt >= v.size + n1, cnt >= v.size + n2,
                                   cnt <= v.size + n1 + n2))
                i = z3.Int("i")
                u = z3.Real("u")
                if not I.dry:
                    st.fact(z3.ForAll([u], MEMS(na, cnt, u) == z3.Or(
                        MEMS(v.arr, v.size, u), MEMS(v1.arr, n1, u),
                        MEMS(v2.arr, n2, u)), patterns=[MEMS(na, cnt, u)]))
                    st.fact(z3.Implies(v.size == 0, SORTED(na, cnt)))
                    if nm == "set_union":
                        st.fact(z3.Implies(z3.And(
                            v.size == 0, STRICT(v1.arr, n1),
                            STRICT(v2.arr, n2)), STRICT(na, cnt)))
                    for w, k in ((v, v.size), (v1, n1), (v2, n2)):
                        st.fact(z3.ForAll([u], z3.Implies(
                            k == 0, z3.Not(MEMS(w.arr, k, u))),
                            patterns=[MEMS(w.arr, k, u)]))
                I.trusted.add("std::" + nm)
                I.write(st, out.vec, Vec(na, cnt, v.et))
                return out
        if nm in ("any_of", "all_of", "none_of", "find_if", "count_if") \
                and len(kids) == 3:
            b, en = I.val(kids[0], st), I.val(kids[1], st)
            p = I.val(kids[2], st)
            if isinstance(b, Iter) and isinstance(p, Lambda) and \
                    nm != "count_if":
                v = I.read(st, b.vec)
                I.oblige("bounds", nm + " range is valid", z3.And(
                    b.pos >= 0, b.pos <= en.pos, en.pos <= v.size), st)
                i = z3.Int(I.name("k"))
                x = st.copy()
                x.pc(z3.And(b.pos <= i, i < en.pos))
                base = len(x.asm)
                elt = I.new_root("elt", I.read(x, b.vec.sub(("i", i))), x)
                nexc = len(I.exc[-1])
                w, I.writes = I.writes, {}
                r = I.tobool(I.rv(x, self.call_lambda(p, [elt], x)))
                wr, I.writes = I.writes, w
                if any(l.root in st.mem for l in wr.values()) or \
                        len(I.exc[-1]) != nexc:
                    raise Unsupported("impure predicate")
                rng = z3.And(b.pos <= i, i < en.pos)
                if nm == "find_if":
                    m = I.fresh_int("found", st)
                    st.fact(z3.And(m >= b.pos, m <= en.pos))
                    st.fact(z3.ForAll([i], z3.Implies(z3.And(
                        b.pos <= i, i < m), z3.Not(r))))
                    st.fact(z3.Implies(m < en.pos,
                                       z3.substitute(r, (i, m))))
                    return Iter(b.vec, m)
                ex = z3.Exists([i], z3.And(rng, r))
                if nm == "any_of":
                    return ex
                if nm == "none_of":
                    return z3.Not(ex)
                return z3.ForAll([i], z3.Implies(rng, r))
        if nm in ("find",) and len(kids) == 3:
            b, en = I.val(kids[0], st), I.val(kids[1], st)
            if isinstance(b, Iter):
                v = I.read(st, b.vec)
                x = I.conv(st, I.val(kids[2], st), v.et)
                I.oblige("bounds", "find range is valid", z3.And(
                    b.pos >= 0, b.pos <= en.pos, en.pos <= v.size), st)
                m = I.fresh_int("found", st)
                i = z3.Int("i")
                st.fact(z3.And(m >= b.pos, m <= en.pos))
                st.fact(z3.ForAll([i], z3.Implies(z3.And(
                    b.pos <= i, i < m), z3.Select(v.arr, i) != x),
                    patterns=[z3.Select(v.arr, i)]))
                st.fact(z3.Implies(m < en.pos, z3.Select(v.arr, m) == x))
                return Iter(b.vec, m)
        import pgmlib
        return pgmlib.call(I, nm, kids, st, e)

    def is_sorted(self, a, n):
        i, j = z3.Ints("i j")
        return z3.Or(SORTED(a, n), STRICT(a, n), z3.ForAll(
            [i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n),
                               z3.Select(a, i) <= z3.Select(a, j))))

    def call_lambda(self, lam, args, st):
        I = self.I
        e, fn = lam.node
        env0 = st.env
        st.env = dict(lam.caps)
        if lam.this is not None:
            st.env["$this"] = lam.this
        st.env["$fn"] = fn
        I.depth += 1
        try:
            if I.depth > 12:
                raise Unsupported("lambda depth")
            args = [a if isinstance(a, (Loc, BitRef)) else
                    I.new_root("tmp", a, st) for a in args]
            I.bind(fn, args, st)
            rets = I.run_body(fn, st)
        finally:
            I.depth -= 1
        if not rets:
            raise Unsupported("lambda does not return")
        m, v = ip.merge_all(rets)
        st.mem, st.asm = m.mem, m.asm
        st.env = env0
        return v


def has_ite(n):
    todo = [n]
    while todo:
        t = todo.pop()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return True
        todo.extend(t.children())
    return False


def vname(loc):
    fs = [p for p in loc.path if isinstance(p, str)]
    return fs[-1] if fs else loc.root.strip("$").split("!")[0]
