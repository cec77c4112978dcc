"""Trusted models (assumed contracts) of strings, streams, shared pointers and
number conversion, as far as PGM input and output use them.

input stream   Rec("istream"): content array C of length N, position pos,
               flags eof and fail (badbit is never set by the operations)
output stream  Rec("ostream"): what has been written, as tokens (maximal runs
               of characters other than whitespace): nt tokens tk[0..nt), open
               (the last character belongs to a token), col (length of the last
               line), maxc (longest finished line), bad (something that is not
               a token of its own, e.g. two numbers without a separator)
string         Vec of characters; a string literal stays Special("lit")
"""
import z3
import interp as ip
from interp import (Vec, Rec, Loc, Ptr, Opaque, Special, FnRef, Unsupported,
                    TRUE, FALSE, I_, B_, simp, is_true, is_false, ctype)

EPS = z3.RealVal("1/4503599627370496")
IA = z3.ArraySort(I_, I_)
CHAR = ("char",)
STV = z3.Function("STV", IA, I_, I_)     # value std::stoul gives
STOK = z3.Function("STOK", IA, I_, I_)   # 0 fine, 1 no number, 2 out of range
DIG = z3.Function("DIG", I_, I_)         # number of decimal digits
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
Sel = z3.Select
GOOD, BAD, EOF, FAIL = 0, 1, 2, 4
U64 = 2 ** 64


def WS(c):
    return Or(c == 32, And(c >= 9, c <= 13))


class SV:
    """ghost functions over the content of an input stream: the position of
    the next character that is not whitespace (FNS) / is whitespace (FSP) / is
    a newline (FNL), the start of the next token when comments are skipped
    (TS), and the characters from a position on (SH)"""
    _n = {}

    def __init__(self, I, v):
        self.C, self.N = v.f["C"], v.f["N"]
        key = (self.C.get_id(), self.N.get_id())
        SV._n.setdefault(key, (len(SV._n), self.C, self.N))
        n = self.id = SV._n[key][0]
        self.FNS = z3.Function("FNS$%d" % n, I_, I_)
        self.FSP = z3.Function("FSP$%d" % n, I_, I_)
        self.FNL = z3.Function("FNL$%d" % n, I_, I_)
        self.TS = z3.Function("TS$%d" % n, I_, I_)
        self.SH = z3.Function("SH$%d" % n, I_, IA)
        if I is not None:
            stream_axioms(I.axioms, self)

    def at(self, i):
        return Sel(self.C, i)

    def tok(self, t):
        """(characters, length) of the token that starts at t"""
        return self.SH(t), self.FSP(t) - t


def FA(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats))


def stream_defs(s):
    """the defining properties of FNS, FSP, FNL (least positions), SH, TS"""
    p, i = z3.Ints("p i")
    C, N = s.C, s.N
    out = []
    for nm, F, stop in (("FNS", s.FNS, lambda c: Not(WS(c))),
                        ("FSP", s.FSP, lambda c: WS(c)),
                        ("FNL", s.FNL, lambda c: c == 10)):
        out.append((nm, F, FA([p], Implies(And(0 <= p, p <= N), And(
            p <= F(p), F(p) <= N, Implies(F(p) < N, stop(Sel(C, F(p)))))),
            F(p))))
        out.append((nm, F, FA([p, i], Implies(And(
            0 <= p, p <= i, i < F(p), p <= N), Not(stop(Sel(C, i)))),
            z3.MultiPattern(F(p), Sel(C, i)))))
    out.append(("SH", s.SH, FA([p, i], Sel(s.SH(p), i) == Sel(C, p + i),
                               Sel(s.SH(p), i))))
    return out


def ts_def(s, p):
    f = s.FNS(p)
    return s.TS(p) == If(f == s.N, s.N, If(
        Sel(s.C, f) == 35, If(s.FNL(f) == s.N, s.N, s.TS(s.FNL(f) + 1)), f))


def stream_lemmas(s):
    """consequences used by the proofs (lemmas stream-*)"""
    p, q = z3.Ints("p q")
    C, N = s.C, s.N
    TS, FNS, FSP, FNL = s.TS, s.FNS, s.FSP, s.FNL
    out = [("stream-end", {TS.name()}, TS(N) == N),
           ("stream-end", {FSP.name()}, FSP(N) == N)]
    out.append(("stream-bounds", {TS.name()}, FA([p], Implies(And(
        0 <= p, p <= N), And(p <= TS(p), TS(p) <= N, Implies(
            TS(p) < N, And(Not(WS(Sel(C, TS(p)))), Sel(C, TS(p)) != 35)))),
        TS(p))))
    out.append(("stream-skip", {TS.name(), FNS.name()}, FA([p], Implies(
        And(0 <= p, p <= N), TS(p) == TS(FNS(p))),
        z3.MultiPattern(TS(p), FNS(p)))))
    c = Sel(C, q)
    out.append(("stream-step", {TS.name()}, FA([q], Implies(
        And(0 <= q, q < N), And(
            Implies(WS(c), TS(q) == TS(q + 1)),
            Implies(c == 35, And(
                TS(q) == If(FNL(q) == N, N, TS(FNL(q) + 1)),
                FNL(q) == FNL(q + 1))),
            Implies(And(Not(WS(c)), c != 35), TS(q) == q))),
        z3.MultiPattern(TS(q), c))))
    out.append(("stream-line", {FNL.name(), FSP.name()}, FA([q], Implies(
        And(0 <= q, q <= N), FNL(FSP(q)) == FNL(q)), FNL(FSP(q)))))
    return out


def stream_axioms(ax, s):
    if ("s", s.id) in ax.done:
        return
    ax.done.add(("s", s.id))
    for nm, F, f in stream_defs(s):
        ax.add({F.name()}, "def-" + nm, f)
    for nm, keys, f in stream_lemmas(s):
        ax.add(keys, nm, f)
    number_axioms(ax)


def number_axioms(ax):
    if "num" in ax.done:
        return
    ax.done.add("num")
    a = z3.Const("a", IA)
    n = z3.Int("n")
    ax.add({"STOK"}, "stoul-kind", FA([a, n], And(
        STOK(a, n) >= 0, STOK(a, n) <= 2, Implies(n == 0, STOK(a, n) == 1)),
        STOK(a, n)))
    ax.add({"STV"}, "stoul-range", FA([a, n], And(
        STV(a, n) >= 0, STV(a, n) < U64), STV(a, n)))
    v = z3.Int("v")
    ax.add({"DIG"}, "digits", FA([v], And(
        DIG(v) >= 1, *[Implies(And(0 <= v, v < 10 ** k), DIG(v) <= k)
                       for k in range(1, 21)]), DIG(v)))


# ---------------------------------------------------------------- values
def lit(v):
    return isinstance(v, Special) and v.kind == "lit"


def tovec(v):
    if isinstance(v, Vec):
        return v
    if lit(v):
        a = z3.K(I_, z3.IntVal(0))
        for i, ch in enumerate(v.data):
            a = z3.Store(a, z3.IntVal(i), z3.IntVal(ch))
        return Vec(a, z3.IntVal(len(v.data)), CHAR)
    raise Unsupported("string value")


def known(v):
    """the bytes of a string that is known, or None"""
    if lit(v):
        return v.data
    if isinstance(v, Vec) and v.et == CHAR:
        n = simp(v.size)
        if z3.is_int_value(n) and n.as_long() < 200:
            cs = [simp(Sel(v.arr, z3.IntVal(i))) for i in range(n.as_long())]
            if all(z3.is_int_value(c) for c in cs):
                return bytes(c.as_long() % 256 for c in cs)
    return None


def isstr(v):
    return lit(v) or (isinstance(v, Vec) and v.et == CHAR)


def streq(a, b):
    """equality of two strings, one of them of known length"""
    if lit(a) and lit(b):
        return z3.BoolVal(a.data == b.data)
    if lit(a):
        a, b = b, a
    if not lit(b):
        if ip.same(a.arr, b.arr) and ip.same(a.size, b.size):
            return TRUE
        n = simp(b.size)
        if not z3.is_int_value(n):
            a, b, n = b, a, simp(a.size)
        if not z3.is_int_value(n):
            raise Unsupported("comparison of two unknown strings")
        return And(a.size == b.size, *[
            Sel(a.arr, z3.IntVal(i)) == Sel(b.arr, z3.IntVal(i))
            for i in range(n.as_long())])
    return And(a.size == len(b.data), *[
        Sel(a.arr, z3.IntVal(i)) == ch for i, ch in enumerate(b.data)])


def charat(v, i):
    v = tovec(v)
    return If(i == v.size, z3.IntVal(0), Sel(v.arr, i))


def fresh(I, ct, base, st):
    if ct[0] == "str":
        n = I.fresh_int(base + ".size", st)
        st.fact(n < 2 ** 62)
        return Vec(z3.Const(I.name(base + ".a"), IA), n, CHAR)
    if ct[0] == "sptr":
        return Ptr(None, z3.Bool(I.name(base + ".null")))
    return None


def havoc_like(I, v, base, st):
    if lit(v):
        return fresh(I, ("str",), base, st)
    if isinstance(v, Ptr):
        return Ptr(v.loc, z3.Bool(I.name(base + ".null")))
    return None


def tobool(I, v):
    if isinstance(v, Rec) and v.name == "istream":
        return Not(v.f["fail"])
    if isinstance(v, Rec) and v.name == "ostream":
        return TRUE
    return None


def deref(I, st, p):
    return None


def default(I, ct, st):
    if ct[0] == "str":
        return tovec(Special("lit", b""))
    if ct[0] == "sptr":
        return Ptr(None, TRUE)
    if ct == ("stream", "out"):
        return new_ostream()
    return None


def new_ostream():
    z = z3.IntVal(0)
    return Rec("ostream", {"nt": z, "tk": z3.K(I_, z), "open": FALSE,
                           "col": z, "maxc": z, "bad": FALSE})


def string_literal(I, e):
    s = e.get("value", '""')
    try:
        import ast
        b = ast.literal_eval("b" + s) if all(ord(c) < 128 for c in s) \
            else ast.literal_eval(s).encode()
    except Exception:
        raise Unsupported("string literal " + s[:20])
    return Special("lit", b)


STATE = {"goodbit": GOOD, "badbit": BAD, "eofbit": EOF, "failbit": FAIL,
         "_S_goodbit": GOOD, "_S_badbit": BAD, "_S_eofbit": EOF,
         "_S_failbit": FAIL}


def std_global(I, rd):
    nm = rd.get("name")
    t = (rd.get("type") or {}).get("qualType", "")
    if nm in STATE and "ostate" in t:
        return z3.IntVal(STATE[nm])
    if nm == "npos":
        return z3.IntVal(U64 - 1)
    return None


def construct(I, e, ct, kids, st):
    if ct[0] == "str":
        if not kids:
            return tovec(Special("lit", b""))
        v0 = I.ev(kids[0], st)
        v = I.rv(st, v0)
        if len(kids) == 1 or not isinstance(I.ty(kids[1])[0], str):
            if isstr(v):
                return tovec(v)
            if isinstance(v, Opaque):
                return v
        if len(kids) == 2 and isinstance(v, z3.ExprRef):
            raise Unsupported("string constructor")
        if isstr(v):
            return tovec(v)
        if isinstance(v, Opaque):
            return v
        raise Unsupported("string constructor")
    if ct[0] == "sptr":
        if not kids:
            return Ptr(None, TRUE)
        v0 = I.ev(kids[0], st)
        v = I.rv(st, v0)
        if isinstance(v, Ptr):
            sig = (e.get("ctorType") or {}).get("qualType", "")
            if "&&" in sig and isinstance(v0, Loc):
                I.write(st, v0, Ptr(v.loc, TRUE))
            return v
        raise Unsupported("shared_ptr constructor")
    if ct[0] == "stream":
        t = ip.qt(e)
        if ct[1] == "out" and "fstream" in t:
            return open_out(I, kids, st)
        if ct[1] == "in" and "fstream" in t:
            I.trusted.add("std::ifstream")
            if not kids:       # no file yet
                return Rec("istream", {
                    "C": z3.K(I_, z3.IntVal(0)), "N": z3.IntVal(0),
                    "pos": z3.IntVal(0), "eof": FALSE, "fail": FALSE,
                    "isopen": FALSE})
            one_argument(kids)
            path = tovec(I.val(kids[0], st))
            return in_file(I, path, st)
        raise Unsupported("stream constructor " + t[:40])
    return None


# ------------------------------------------------- files and command line
FILEC = z3.Function("FILEC", IA, I_, IA)       # content of a file, by name
FILEN = z3.Function("FILEN", IA, I_, I_)       # its length
NOFILE = z3.Function("NOFILE", IA, I_, B_)     # it cannot be opened


def in_file(I, path, st):
    a, n = path.arr, path.size
    N = FILEN(a, n)
    if st is not None:
        st.fact(And(N >= 0, N < 2 ** 62))
    return Rec("istream", {"C": FILEC(a, n), "N": N, "pos": z3.IntVal(0),
                           "eof": FALSE, "fail": NOFILE(a, n),
                           "isopen": Not(NOFILE(a, n))})


def one_argument(kids):
    if len([k for k in kids if k.get("kind") != "CXXDefaultArgExpr"]) > 1:
        raise Unsupported("file with a mode")


def open_out(I, kids, st, late=False):
    """opening a file for writing empties it; the sink does not fail.  There
    is one output file, with the name it was opened under."""
    if "OFILE" not in st.mem:
        raise Unsupported("output file")
    old = I.read(st, Loc("OFILE"))
    if not late and not is_false(simp(old.f["blank"])):
        raise Unsupported("several output streams")
    if not kids:
        # (no other stream may be written to: both would be this record)
        if not is_false(simp(old.f["opened"])):
            raise Unsupported("several output streams")
        I.write(st, Loc("OFILE"), Rec("ostream", dict(old.f, blank=TRUE)))
        return Loc("OFILE")
    one_argument(kids)
    path = tovec(I.val(kids[0], st))
    I.oblige("output", "only one file is opened for writing", Not(
        old.f["opened"]), st)
    new = dict(new_ostream().f, opened=TRUE, pa=path.arr, pn=path.size,
               blank=old.f["blank"])
    I.write(st, Loc("OFILE"), Rec("ostream", new))
    I.trusted.add("std::ofstream")
    return Loc("OFILE")


def has_option(nm):
    return z3.Bool("given_" + nm)


def option_value(nm):
    return Vec(z3.Const("opt_" + nm, IA), z3.Int("optlen_" + nm), CHAR)


# what parse_command_line and store may report; 0: nothing
PARSE = z3.Int("parse")
PARSE_ERRORS = ("unknown_option", "error")


def tool_operator(I, nm, a, av, kids, st):
    """boost::program_options"""
    if isinstance(av, Opaque) and nm == "operator()":
        # add_options()("name,letter", [value,] "description")
        vs = [I.val(k, st) for k in kids[1:]]
        if known(vs[0]) is None or len(vs) < 2:
            raise Unsupported("option name")
        typed = len(vs) > 2
        if typed and not (isinstance(vs[1], Special) and
                          vs[1].kind == "optvalue"):
            raise Unsupported("option value")
        I.ghost.setdefault("options", []).append(
            (known(vs[0]).decode(), typed))
        return a
    if nm == "operator[]" and isinstance(av, Opaque):
        v = I.val(kids[1], st)
        if known(v) is not None:
            return Special("opt", known(v).decode())
    return None


def tool_method(I, nm, bv, kids, st, e):
    if isinstance(bv, Special) and bv.kind == "opt":
        k = bv.data
        if nm == "empty":
            return Not(has_option(k))
        if nm == "as":
            if "basic_string" not in ip.qt(e) and "string" not in ip.qt(e):
                raise Unsupported("option of another type")
            s2 = st.copy()
            s2.pc(Not(has_option(k)))
            I.exc[-1].append((s2, ("throw", "bad_any_cast")))
            st.pc(has_option(k))
            return option_value(k)
    if isinstance(bv, Opaque) and "variables_map" in bv.what:
        if nm in ("count", "contains") and len(kids) == 1:
            v = I.val(kids[0], st)
            if known(v) is not None:
                return If(has_option(known(v).decode()), z3.IntVal(1),
                          z3.IntVal(0))
        raise Unsupported("variables_map::" + nm)
    return None


def tool_call(I, nm, kids, st, e):
    if nm == "value" and not kids:
        t = ip.qt(e)
        if "string" not in t:
            raise Unsupported("option of another type")
        return Special("optvalue")
    if nm == "parse_command_line":
        for k in kids:
            I.ev(k, st)
        for n, t in enumerate(PARSE_ERRORS):
            s2 = st.copy()
            s2.pc(PARSE == n + 1)
            I.exc[-1].append((s2, ("throw", t)))
        st.pc(And(*[PARSE != n + 1 for n in range(len(PARSE_ERRORS))]))
        I.trusted.add("boost::program_options")
        return Opaque("parsed")
    if nm == "store":
        for k in kids:
            I.ev(k, st)
        m = len(PARSE_ERRORS) + 1
        s2 = st.copy()
        s2.pc(PARSE == m)
        I.exc[-1].append((s2, ("throw", "multiple_occurrences")))
        st.pc(PARSE != m)
        return None
    if nm == "notify":
        for k in kids:
            I.ev(k, st)
        return None
    if nm in ("tolower", "toupper") and kids:
        c = I.toint(I.val(kids[0], st))
        lo, d = (65, 32) if nm == "tolower" else (97, -32)
        return If(And(c >= lo, c < lo + 26), c + d, c)
    if nm == "transform" and len(kids) == 4:
        b, en, out = [I.val(k, st) for k in kids[:3]]
        f = I.val(kids[3], st)
        if isinstance(b, ip.Iter) and isinstance(out, ip.Iter) and \
                b.vec.key() == out.vec.key() and is_true(simp(b.pos == 0)) \
                and is_true(simp(out.pos == 0)):
            v = I.read(st, b.vec)
            if isstr(v) and isinstance(en, ip.Iter) and ip.same(
                    en.pos, v.size):
                i = z3.Int("ti")
                c = Sel(v.arr, i)
                if isinstance(f, ip.Lambda):
                    mem = dict(st.mem)
                    s2 = ip.State(mem, dict(st.env), ())
                    r = I.lib.call_lambda(f, [c], s2)
                    for k in st.mem:
                        if s2.mem[k] is not st.mem[k]:
                            raise Unsupported("transform with side effects")
                elif isinstance(f, FnRef) and f.rd.get("name") in (
                        "tolower", "toupper"):
                    lo, d = (65, 32) if f.rd["name"] == "tolower" \
                        else (97, -32)
                    r = If(And(c >= lo, c < lo + 26), c + d, c)
                else:
                    raise Unsupported("transform")
                r = I.toint(r)
                r = If(r >= 128, r - 256, r)     # (back to a char)
                m = z3.Const(I.name("transformed"), IA)
                st.fact(z3.ForAll([i], Implies(And(0 <= i, i < v.size),
                                               Sel(m, i) == r),
                                  patterns=[Sel(m, i)]))
                I.write(st, b.vec, Vec(m, v.size, CHAR))
                I.trusted.add("std::transform")
                return out
        raise Unsupported("transform")
    return None


# ------------------------------------------------------------ input streams
def good(v):
    return And(Not(v.f["eof"]), Not(v.f["fail"]))


def setf(I, st, loc, **kw):
    for k, x in kw.items():
        I.write(st, loc.sub(k), x)


def extract_string(I, st, loc, tgt):
    """in >> string"""
    v = I.read(st, loc)
    s = SV(I, v)
    old = tovec(I.read(st, tgt))
    p, g = v.f["pos"], good(v)
    t = s.FNS(p)
    ok = And(g, t < s.N)
    e = s.FSP(t)
    a, n = s.tok(t)
    if not I.dry:
        st.fact(Implies(g, And(p <= t, t <= s.N, Implies(
            t < s.N, And(t < e, e <= s.N)), s.TS(p) == s.TS(t))))
    I.write(st, tgt, Vec(ip.mite(ok, a, old.arr), ip.mite(ok, n, old.size),
                         CHAR))
    setf(I, st, loc, pos=If(g, If(t < s.N, e, s.N), p),
         eof=Or(v.f["eof"], And(g, Or(t == s.N, e == s.N))),
         fail=Or(Not(g), t == s.N))
    I.trusted.add("istream >> string")


def ignore(I, st, loc, n, delim):
    v = I.read(st, loc)
    s = SV(I, v)
    n, delim = simp(n), simp(delim)
    p, g = v.f["pos"], good(v)
    I.trusted.add("istream::ignore")
    if z3.is_int_value(n) and n.as_long() == 2 ** 63 - 1 and \
            z3.is_int_value(delim) and delim.as_long() == 10:
        e = s.FNL(p)
        setf(I, st, loc, pos=If(g, If(e < s.N, e + 1, s.N), p),
             eof=Or(v.f["eof"], And(g, e == s.N)),
             fail=Or(v.f["fail"], Not(g)))
        return
    if z3.is_int_value(n) and n.as_long() == 1 and delim.as_long() == -1:
        setf(I, st, loc, pos=If(And(g, p < s.N), p + 1, p),
             eof=Or(v.f["eof"], And(g, p == s.N)),
             fail=Or(v.f["fail"], Not(g)))
        return
    raise Unsupported("istream::ignore with these arguments")


def get_char(I, st, loc, tgt):
    v = I.read(st, loc)
    s = SV(I, v)
    p, g = v.f["pos"], good(v)
    ok = And(g, p < s.N)
    c = Sel(s.C, p)
    if not I.dry:
        st.fact(And(c >= -128, c < 128))
    if tgt is not None:
        I.write(st, tgt, If(ok, c, I.read(st, tgt)))
    setf(I, st, loc, pos=If(ok, p + 1, p),
         eof=Or(v.f["eof"], And(g, p == s.N)), fail=Not(ok))
    I.trusted.add("istream::get")
    return If(ok, If(c < 0, c + 256, c), z3.IntVal(-1))


def getline(I, st, loc, tgt):
    v = I.read(st, loc)
    s = SV(I, v)
    p, g = v.f["pos"], good(v)
    e = s.FNL(p)
    old = tovec(I.read(st, tgt))
    I.write(st, tgt, Vec(ip.mite(g, s.SH(p), old.arr),
                         ip.mite(g, e - p, old.size), CHAR))
    setf(I, st, loc, pos=If(g, If(e < s.N, e + 1, s.N), p),
         eof=Or(v.f["eof"], And(g, e == s.N)),
         fail=Or(v.f["fail"], Not(g), And(g, p == s.N)))
    I.trusted.add("std::getline")


def skip_ws(I, st, loc):
    v = I.read(st, loc)
    s = SV(I, v)
    p, g = v.f["pos"], good(v)
    t = s.FNS(p)
    if not I.dry:
        st.fact(Implies(g, And(p <= t, t <= s.N, s.TS(p) == s.TS(t))))
    setf(I, st, loc, pos=If(g, t, p),
         eof=Or(v.f["eof"], And(g, t == s.N)),
         fail=Or(v.f["fail"], Not(g)))
    I.trusted.add("std::ws")


def peek(I, st, loc):
    v = I.read(st, loc)
    s = SV(I, v)
    p, g = v.f["pos"], good(v)
    c = Sel(s.C, p)
    if not I.dry:
        st.fact(And(c >= -128, c < 128))
    setf(I, st, loc, eof=Or(v.f["eof"], And(g, p == s.N)),
         fail=Or(v.f["fail"], Not(g)))
    I.trusted.add("istream::peek")
    return If(And(g, p < s.N), If(c < 0, c + 256, c), z3.IntVal(-1))


# ----------------------------------------------------------- output streams
def upd_out(I, st, loc, v, cond=None):
    cur = I.read(st, loc)
    for k in cur.f:
        if not ip.same(cur.f[k], v.f[k]):
            I.write(st, loc.sub(k), v.f[k])


def out_char(v, c):
    """v after a concrete whitespace character"""
    f = dict(v.f)
    if c == 10:
        f["maxc"] = If(f["col"] > f["maxc"], f["col"], f["maxc"])
        f["col"] = z3.IntVal(0)
    else:
        f["col"] = f["col"] + 1
    f["open"] = FALSE
    return Rec("ostream", f)


def out_token(v, code, length):
    f = dict(v.f)
    f["bad"] = Or(f["bad"], f["open"])
    f["tk"] = z3.Store(f["tk"], f["nt"], code)
    f["nt"] = f["nt"] + 1
    f["open"] = TRUE
    f["col"] = f["col"] + length
    return Rec("ostream", f)


def out_bytes(v, b):
    i = 0
    while i < len(b):
        if b[i] in (32, 9, 10, 11, 12, 13):
            v = out_char(v, b[i])
            i += 1
            continue
        j = i
        while j < len(b) and b[j] not in (32, 9, 10, 11, 12, 13):
            j += 1
        w = b[i:j]
        code = -1 if w == b"P2" else int(w) if w.isdigit() else -2
        v = out_token(v, z3.IntVal(code), len(w))
        if code == -2:
            v = Rec("ostream", dict(v.f, bad=TRUE))
        i = j
    return v


def mite_out(c, a, b):
    return Rec("ostream", {k: If(c, a.f[k], b.f[k])
                           if not ip.same(a.f[k], b.f[k]) else a.f[k]
                           for k in a.f})


def written(I, st, v, x, ct):
    """v after writing value x of C++ type ct"""
    if lit(x):
        return out_bytes(v, x.data)
    if isinstance(x, Special) and x.kind == "cond":
        c, a, b = x.data
        return mite_out(c, written(I, st, v, a, ct), written(I, st, v, b, ct))
    if isinstance(x, Special) and x.kind == "num":
        x, ct = x.data, ("int", 64, False)
    if isinstance(x, Vec) and x.et == CHAR:
        n = simp(x.size)
        if z3.is_int_value(n):
            cs = [simp(Sel(x.arr, z3.IntVal(i))) for i in range(n.as_long())]
            if all(z3.is_int_value(c) for c in cs):
                return out_bytes(v, bytes(c.as_long() for c in cs))
        raise Unsupported("output of an unknown string")
    if isinstance(x, z3.ExprRef) and (z3.is_int(x) or z3.is_bool(x)):
        x = I.toint(x)
        if ct == ("int", 8, True):
            x = simp(x)
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                return mite_out(x.arg(0), written(I, st, v, x.arg(1), ct),
                                written(I, st, v, x.arg(2), ct))
            if z3.is_int_value(x) and 0 <= x.as_long() < 256:
                return out_bytes(v, bytes([x.as_long()]))
            raise Unsupported("output of an unknown character")
        if ct[0] in ("int", "bool"):
            number_axioms(I.axioms)
            sign = 0
            if ct[0] == "int" and ct[2]:
                I.oblige("output", "only non-negative numbers are written",
                         x >= 0, st)
            n = z3.Int(I.name("digits"))
            if not I.dry:
                st.fact(n == DIG(x))
            return out_token(v, x, n)
    raise Unsupported("output of " + type(x).__name__)


# --------------------------------------------------------------- operators
def operator(I, nm, a, av, kids, st, e):
    if isinstance(av, Rec) and av.name == "ostream" and nm == "operator<<":
        x = I.ev(kids[1], st)
        if isinstance(x, FnRef):
            f = x.rd.get("name")
            if f == "endl":
                upd_out(I, st, a, out_char(I.read(st, a), 10))
            elif f not in ("flush",):
                raise Unsupported("manipulator " + str(f))
            return a
        x = I.rv(st, x)
        upd_out(I, st, a, written(I, st, I.read(st, a), x, I.ty(kids[1])))
        I.trusted.add("ostream <<")
        return a
    if isinstance(av, Rec) and av.name == "istream":
        if nm == "operator>>":
            t = I.ev(kids[1], st)
            if isinstance(t, FnRef) and t.rd.get("name") == "ws":
                skip_ws(I, st, a)
                return a
            if isinstance(t, Loc) and isstr(I.read(st, t)):
                extract_string(I, st, a, t)
                return a
            raise Unsupported("extraction from a stream")
        if nm == "operator!":
            return av.f["fail"]
    if isinstance(av, Rec) and av.name == "ostream" and nm == "operator!":
        return FALSE
    if isinstance(a, Special) and a.kind == "console":
        for k in kids[1:]:
            I.ev(k, st)
        if a.data in ("cerr", "clog") and "CERR" in st.mem:
            I.write(st, Loc("CERR"), TRUE)
        return a
    r = tool_operator(I, nm, a, av, kids, st)
    if r is not None:
        return r
    if isinstance(av, Ptr):
        if nm == "operator->":
            return av
        if nm == "operator*":
            return I.deref(st, av, "*")
        if nm in ("operator==", "operator!="):
            b = I.val(kids[1], st)
            return I.ptrcmp(nm[8:], av, b)
        if nm == "operator=":
            b = I.val(kids[1], st)
            if isinstance(b, Ptr):
                I.write(st, a, b)
                return a
    if isstr(av):
        if nm in ("operator==", "operator!="):
            b = I.val(kids[1], st)
            if isinstance(b, Ptr) or not isstr(b):
                if isinstance(b, Opaque):
                    return z3.Bool(I.name("streq"))
                raise Unsupported("string comparison")
            r = streq(av, b)
            return r if nm == "operator==" else Not(r)
        if nm == "operator[]":
            i = I.toint(I.val(kids[1], st))
            v = tovec(av)
            I.oblige("bounds", "index within the string",
                     And(i >= 0, i <= v.size), st)
            c = charat(v, i)
            if not I.dry:
                st.fact(And(c >= -128, c < 128))
            return c
        if nm == "operator=":
            b = I.val(kids[1], st)
            if isstr(b):
                I.write(st, a, tovec(b))
                return a
        if nm == "operator+":
            for k in kids[1:]:
                I.ev(k, st)
            return Opaque("string")
    if isinstance(av, Opaque):
        if nm == "operator+":
            for k in kids[1:]:
                I.ev(k, st)
            return Opaque("string")
        if nm in ("operator==", "operator!="):
            I.ev(kids[1], st)
            return z3.Bool(I.name("opaque_eq"))
    if nm in ("operator==", "operator!=") and isstr(I.val(kids[1], st)):
        raise Unsupported("string comparison")
    if nm == "operator|" and isinstance(av, z3.ExprRef):
        b = I.val(kids[1], st)
        x, y = simp(av), simp(b)
        if z3.is_int_value(x) and z3.is_int_value(y):
            return z3.IntVal(x.as_long() | y.as_long())
    raise Unsupported("%s on %s" % (nm, type(av).__name__))


def method(I, nm, base, bv, kids, st, e):
    if isinstance(bv, Rec) and bv.name == "istream":
        f = bv.f
        if nm == "fail":
            return f["fail"]
        if nm == "bad":
            return FALSE
        if nm == "eof":
            return f["eof"]
        if nm == "good":
            return good(bv)
        if nm == "operator bool":
            return Not(f["fail"])
        if nm == "operator!":
            return f["fail"]
        if nm == "is_open" and "isopen" in f:
            return f["isopen"]
        if nm == "rdstate":
            raise Unsupported("rdstate")
        if nm in ("setstate", "clear"):
            x = simp(I.val(kids[0], st)) if kids else z3.IntVal(0)
            if not z3.is_int_value(x):
                raise Unsupported("stream state")
            b = x.as_long()
            if nm == "setstate":
                w = {}
                if b & EOF:
                    w["eof"] = TRUE
                if b & (FAIL | BAD):
                    w["fail"] = TRUE
                setf(I, st, base, **w)
            else:
                setf(I, st, base, eof=z3.BoolVal(bool(b & EOF)),
                     fail=z3.BoolVal(bool(b & (FAIL | BAD))))
            return None
        if nm == "ignore":
            n = I.val(kids[0], st) if kids else z3.IntVal(1)
            d = I.val(kids[1], st) if len(kids) > 1 else z3.IntVal(-1)
            ignore(I, st, base, n, d)
            return base
        if nm == "get":
            if not kids:
                return get_char(I, st, base, None)
            t = I.ev(kids[0], st)
            if isinstance(t, Loc):
                get_char(I, st, base, t)
                return base
        if nm == "peek":
            return peek(I, st, base)
        if nm == "close":
            return None
        if nm == "open" and "isopen" in f:
            one_argument(kids)
            I.write(st, base, in_file(I, tovec(I.val(kids[0], st)), st))
            return None
        if nm == "operator>>":
            return operator(I, nm, base, bv, [None] + kids, st, e)
    if isinstance(bv, Rec) and bv.name == "ostream":
        if nm == "operator<<":
            return operator(I, nm, base, bv, [None] + kids, st, e)
        if nm == "put":
            upd_out(I, st, base, written(I, st, bv, I.val(kids[0], st),
                                         ("int", 8, True)))
            return base
        if nm == "open" and "opened" in bv.f:
            open_out(I, kids, st, late=True)
            return None
        if nm == "is_open" and "opened" in bv.f:
            return bv.f["opened"]
        if nm in ("good", "operator bool"):
            return TRUE
        if nm in ("fail", "bad", "eof"):
            return FALSE
        if nm in ("flush", "close"):
            return base
    if isinstance(bv, Ptr):
        if nm == "get":
            return bv
        if nm == "operator bool":
            return Not(bv.null)
        if nm == "reset" and not kids:
            I.write(st, base, Ptr(bv.loc, TRUE))
            return None
    r = tool_method(I, nm, bv, kids, st, e)
    if r is not None:
        return r
    if isstr(bv):
        v = tovec(bv)
        if nm in ("begin", "end", "cbegin", "cend") and isinstance(base, Loc):
            return ip.Iter(base, z3.IntVal(0) if "beg" in nm else v.size)
        if nm == "c_str":
            return v
        if nm in ("size", "length"):
            return v.size
        if nm == "empty":
            return v.size == 0
        if nm in ("at", "front", "back"):
            i = I.val(kids[0], st) if nm == "at" else z3.IntVal(0) \
                if nm == "front" else v.size - 1
            I.oblige("bounds", "index within the string",
                     And(i >= 0, i < v.size), st)
            return Sel(v.arr, i)
        if nm == "clear":
            I.write(st, base, tovec(Special("lit", b"")))
            return None
        if nm == "compare" and len(kids) == 1:
            r = streq(bv, I.val(kids[0], st))
            k = I.fresh_int("compare", None)
            st.fact((k == 0) == r)
            return k
    if isinstance(bv, Opaque):
        for k in kids:
            I.ev(k, st)
        ct = ctype(ip.qt(e))
        return I.fresh(ct, "opaque", st) if ct[0] != "void" else None
    raise Unsupported("method %s of %s" % (nm, type(bv).__name__))


def call(I, nm, kids, st, e):
    r = tool_call(I, nm, kids, st, e)
    if r is not None or nm in ("store", "notify"):
        return r
    if nm == "to_string":
        vs = [I.val(k, st) for k in kids]
        ct = I.ty(kids[0])
        if ct[0] == "int" and not ct[2]:
            return Special("num", vs[0])
        return Opaque("string")
    if nm in ("epsilon", "infinity", "max", "min", "lowest") and not kids:
        t = ctype(ip.qt(e))
        if t[0] == "real" and nm == "epsilon":
            return z3.RealVal("1/4503599627370496")
        if t[0] == "int" and nm == "max":
            return z3.IntVal(2 ** (t[1] - (1 if t[2] else 0)) - 1)
        if t[0] == "int" and nm == "min":
            return z3.IntVal(-2 ** (t[1] - 1) if t[2] else 0)
        if t[0] == "real" and nm in ("max", "infinity"):
            # an unspecified value above every penalty that occurs
            raise Unsupported("numeric_limits of floating type")
    if nm == "isspace" and kids:
        c = I.val(kids[0], st)
        return If(WS(c), z3.IntVal(1), z3.IntVal(0))
    if nm == "isdigit" and kids:
        c = I.val(kids[0], st)
        return If(And(c >= 48, c <= 57), z3.IntVal(1), z3.IntVal(0))
    if nm == "eof" and not kids:
        return z3.IntVal(-1)
    if nm == "getline" and len(kids) == 2:
        a, t = I.ev(kids[0], st), I.ev(kids[1], st)
        getline(I, st, a, t)
        return a
    if nm == "stoul" and kids:
        v = I.val(kids[0], st)
        I.trusted.add("std::stoul")
        number_axioms(I.axioms)
        if isinstance(v, Opaque):
            v = fresh(I, ("str",), "opaque", st)
        v = tovec(v)
        k = STOK(v.arr, v.size)
        if I.dry:
            for t in ("invalid_argument", "out_of_range"):
                I.exc[-1].append((st.copy(), ("throw", t)))
            return I.fresh_int("stoul", st)
        for n, t in ((1, "invalid_argument"), (2, "out_of_range")):
            s2 = st.copy()
            s2.pc(k == n)
            I.exc[-1].append((s2, ("throw", t)))
        st.pc(k == 0)
        r = I.fresh_int("stoul", st)
        st.fact(r == STV(v.arr, v.size))
        return r
    if nm == "make_shared":
        t = ip.qt(e)
        if "Image" not in t:
            raise Unsupported("make_shared of " + t[:40])
        if len(kids) == 1:
            v = I.val(kids[0], st)
            if not isinstance(v, Rec):
                raise Unsupported("make_shared argument")
        elif not kids:
            v = I.zero(("rec", "Image"), st)
        else:
            raise Unsupported("make_shared arguments")
        return Ptr(I.new_root("heap", v, st), FALSE)
    raise Unsupported("call of " + str(nm))
