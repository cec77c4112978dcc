"""Symbolic executor / VC generator over clang's AST of the real code.

Machine integers are exact (unsigned arithmetic wraps modulo 2^n), vectors are
(array, size) pairs, structs are records, pointers are locations.  A call to a
function under contract is replaced by the callee's contract; any other
function of the program is inlined; std:: functions have the trusted models of
lib.py.  Loops are cut by inductive invariants (Houdini over candidate
templates); loops whose guards are constants are unrolled completely.
"""
import itertools
import os
import z3
import prover
from frontend import qt, func_name, has_body, json_keys, ENUM_TYPES

I_, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


JOBS = 1        # processes used to look for loop invariants


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- types
def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "struct ", "class ", "volatile ", "enum "):
            if t.startswith(p):
                t, ch = t[len(p):], True
        for s in ("&&", "&", " const", "const"):
            if t.endswith(s) and (s != "const" or t.endswith("*const")
                                  or t.endswith(" const")):
                t, ch = t[:-len(s)].strip(), True
    return t


INTS = {"unsigned long": (64, False), "unsigned long long": (64, False),
        "unsigned int": (32, False), "unsigned": (32, False),
        "int": (32, True), "long": (64, True), "long long": (64, True),
        "char": (8, True), "unsigned char": (8, False),
        "signed char": (8, True), "short": (16, True),
        "unsigned short": (16, False), "size_t": (64, False),
        "std::size_t": (64, False), "ULONG": (64, False),
        "std::streamsize": (64, True), "std::ptrdiff_t": (64, True),
        "difference_type": (64, True), "size_type": (64, False),
        "sp::types::ULONG": (64, False), "streamsize": (64, True)}


# rounding to single precision: nothing is known about it
FLT32 = z3.Function("FLT32", z3.RealSort(), z3.RealSort())
# the rounded difference of two doubles
FSUB = z3.Function("FSUB", z3.RealSort(), z3.RealSort(), z3.RealSort())
ROUNDED = [True]


def fsub(a, b):
    return FSUB(a, b) if ROUNDED[0] else a - b


def isfloat(t):
    return strip(t) == "float"


def ctype(t):
    t = strip(t)
    if t in INTS:
        return ("int",) + INTS[t]
    if t in ("bool", "BOOL", "sp::types::BOOL"):
        return ("bool",)
    if t in ("double", "float", "FLOAT", "long double", "sp::types::FLOAT"):
        return ("real",)
    if t.endswith("*") or t == "std::nullptr_t" or t == "nullptr_t":
        return ("ptr", strip(t[:-1]) if t.endswith("*") else "void")
    if t in ("FLOAT_ARRAY", "sp::types::FLOAT_ARRAY"):
        return ("vec", ("real",))
    if t in ("ULONG_ARRAY", "sp::types::ULONG_ARRAY"):
        return ("vec", ("int", 64, False))
    if t in ("BOOL_ARRAY", "sp::types::BOOL_ARRAY"):
        return ("vec", ("bool",))
    for p in ("std::vector<", "vector<"):
        if t.startswith(p) and t.endswith(">"):
            inner = t[len(p):-1]
            depth, cut = 0, len(inner)
            for i, ch in enumerate(inner):
                if ch == "<":
                    depth += 1
                elif ch == ">":
                    depth -= 1
                elif ch == "," and depth == 0:
                    cut = i
                    break
            return ("vec", ctype(inner[:cut]))
    if "iterator" in t or t.startswith("__gnu_cxx::__normal_iterator"):
        return ("iter",)
    if "shared_ptr<" in t:
        return ("sptr",)
    if "basic_string<" in t or t in ("std::string", "string"):
        return ("str",)
    if "istream" in t or "ifstream" in t:
        return ("stream", "in")
    if "ostream" in t or "ofstream" in t:
        return ("stream", "out")
    if t == "void":
        return ("void",)
    base = t.split("::")[-1]
    if base in ENUM_TYPES:
        return ("int", 32, False)
    if "<" in t:
        return ("opaque", t)
    return ("rec", base)


def sort_of(ct):
    if ct[0] in ("int", "char"):
        return I_
    if ct[0] == "bool":
        return B_
    if ct[0] == "real":
        return R_
    raise Unsupported("element type %r" % (ct,))


# ---------------------------------------------------------------- values
class Rec:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f


class Vec:
    __slots__ = ("arr", "size", "et")

    def __init__(self, arr, size, et):
        self.arr, self.size, self.et = arr, size, et


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, p):
        return Loc(self.root, self.path + (p,))

    def key(self):
        return (self.root,) + tuple(
            p if isinstance(p, str) else "[]%d" % p[1].get_id()
            for p in self.path)

    def leaf(self):
        """key with the path truncated at a vector index"""
        out = []
        for p in self.path:
            if not isinstance(p, str):
                break
            out.append(p)
        return (self.root,) + tuple(out)

    def __repr__(self):
        return "Loc(%s.%s)" % (self.root, ".".join(
            p if isinstance(p, str) else "[%s]" % p[1] for p in self.path))


class Ptr:
    __slots__ = ("loc", "null")

    def __init__(self, loc, null):
        self.loc, self.null = loc, null


class Iter:
    __slots__ = ("vec", "pos")

    def __init__(self, vec, pos):
        self.vec, self.pos = vec, pos


class BackIns:
    __slots__ = ("vec",)

    def __init__(self, vec):
        self.vec = vec


class BitRef:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Lambda:
    __slots__ = ("node", "caps", "this", "st")

    def __init__(self, node, caps, this):
        self.node, self.caps, self.this = node, caps, this


class Opaque:
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what


class FnRef:
    __slots__ = ("rd", "tu")

    def __init__(self, rd, tu):
        self.rd, self.tu = rd, tu


class Special:
    """std objects with identity: streams, endl, ..."""
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data


def simp(e):
    return z3.simplify(e)


def is_true(e):
    return z3.is_true(e) or z3.is_true(simp(e))


def is_false(e):
    return z3.is_false(e) or z3.is_false(simp(e))


def same(a, b):
    return a is b or (isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef)
                      and a.eq(b))


def mite(c, a, b):
    if same(a, b):
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort():
            if z3.is_int(a) and z3.is_real(b):
                a = z3.ToReal(a)
            elif z3.is_real(a) and z3.is_int(b):
                b = z3.ToReal(b)
            else:
                raise Unsupported("merge sorts")
        return z3.If(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.name == b.name:
        if all(same(a.f[k], b.f[k]) for k in a.f):
            return a
        return Rec(a.name, {k: mite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Vec) and isinstance(b, Vec):
        if same(a.arr, b.arr) and same(a.size, b.size):
            return a
        return Vec(mite(c, a.arr, b.arr), mite(c, a.size, b.size), a.et)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.loc is None:
            return Ptr(b.loc, z3.If(c, TRUE, b.null))
        if b.loc is None:
            return Ptr(a.loc, z3.If(c, a.null, TRUE))
        if a.loc.key() == b.loc.key():
            return Ptr(a.loc, mite(c, a.null, b.null))
        raise Unsupported("merge of pointers to different objects")
    if isinstance(a, Iter) and isinstance(b, Iter) \
            and a.vec.key() == b.vec.key():
        return Iter(a.vec, mite(c, a.pos, b.pos))
    if isinstance(a, BackIns) and isinstance(b, BackIns) \
            and a.vec.key() == b.vec.key():
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return Opaque("merged")
    if isinstance(a, Lambda) and isinstance(b, Lambda) and a.node is b.node:
        return a
    if a is None or b is None:
        return None
    if isinstance(a, Special) and isinstance(b, Special):
        if a.kind == b.kind and a.data is b.data:
            return a
        if a.kind in ("lit", "num", "cond") and \
                b.kind in ("lit", "num", "cond"):
            if a.kind == b.kind and a.data == b.data:
                return a
            return Special("cond", (c, a, b))
    if isinstance(a, Special) and a.kind == "lit" and isinstance(b, Vec):
        import pgmlib
        return mite(c, pgmlib.tovec(a), b)
    if isinstance(b, Special) and b.kind == "lit" and isinstance(a, Vec):
        import pgmlib
        return mite(c, a, pgmlib.tovec(b))
    if isinstance(a, BitRef) and isinstance(b, BitRef):
        if a.loc.key() == b.loc.key():
            return a
    raise Unsupported("cannot merge %s and %s" % (type(a).__name__,
                                                  type(b).__name__))


MERGED = itertools.count()


def name_arrays(v, asm):
    """name the merged arrays: If(c, a, b) becomes a constant m with
    m = If(c, a, b), so that m can occur in instantiation patterns"""
    if isinstance(v, Rec):
        f = {k: name_arrays(x, asm) for k, x in v.f.items()}
        return v if all(f[k] is v.f[k] for k in f) else Rec(v.name, f)
    if isinstance(v, Vec) and z3.is_app_of(v.arr, z3.Z3_OP_ITE):
        m = z3.Const("m_arr!%d" % next(MERGED), v.arr.sort())
        c, a, b = v.arr.children()
        asm.append(("f", z3.Implies(c, m == a)))
        asm.append(("f", z3.Implies(z3.Not(c), m == b)))
        v = Vec(m, v.size, v.et)
    if isinstance(v, Vec) and z3.is_app_of(v.size, z3.Z3_OP_ITE):
        m = z3.Int("m_size!%d" % next(MERGED))
        asm.append(("f", m == v.size))
        v = Vec(v.arr, m, v.et)
    return v


class State:
    __slots__ = ("mem", "env", "asm")

    def __init__(self, mem=None, env=None, asm=None):
        self.mem = mem if mem is not None else {}
        self.env = env if env is not None else {}
        self.asm = asm if asm is not None else ()

    def copy(self):
        return State(dict(self.mem), dict(self.env), self.asm)

    def assume(self, kind, b):
        if z3.is_true(b):
            return
        self.asm = self.asm + ((kind, b),)

    def fact(self, b):
        self.assume("f", b)

    def pc(self, b):
        self.assume("p", b)

    def formulas(self):
        return [b for _, b in self.asm]


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return TRUE
    return l[0] if len(l) == 1 else z3.And(*l)


def merge(s1, s2):
    """join of two states (different paths)."""
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    a, b = s1.asm, s2.asm
    n = 0
    while n < len(a) and n < len(b) and a[n][0] == b[n][0] \
            and a[n][1].eq(b[n][1]):
        n += 1
    e1, e2 = a[n:], b[n:]
    c1 = conj([x for k, x in e1 if k == "p"])
    c2 = conj([x for k, x in e2 if k == "p"])
    asm = list(a[:n])
    comp = False
    p1 = [x for k, x in e1 if k == "p"]
    p2 = [x for k, x in e2 if k == "p"]
    if len(p1) == 1 and len(p2) == 1:
        if is_true(z3.Not(p1[0]) == p2[0]) or simp(z3.Not(p1[0])).eq(simp(p2[0])):
            comp = True
    if not comp and not z3.is_true(c1) and not z3.is_true(c2):
        # common shape: p and q / p and not q  etc.
        asm.append(("p", z3.Or(c1, c2)))
    g1 = c1
    g2 = z3.Not(c1) if comp else c2
    if not z3.is_const(c1) and (e1 or e2):
        pass
    seen = set()
    for k, x in e1:
        if k == "f":
            asm.append(("f", x if z3.is_true(g1) else z3.Implies(g1, x)))
    for k, x in e2:
        if k == "f":
            asm.append(("f", x if z3.is_true(g2) else z3.Implies(g2, x)))
    mem = {}
    for r in s1.mem:
        if r in s2.mem:
            v1, v2 = s1.mem[r], s2.mem[r]
            mem[r] = v1 if v1 is v2 else name_arrays(mite(c1, v1, v2), asm)
        else:
            mem[r] = s1.mem[r]
    for r in s2.mem:
        if r not in mem:
            mem[r] = s2.mem[r]
    env = dict(s2.env)
    env.update(s1.env)
    return State(mem, env, tuple(asm))


def merge_all(lst, vals=None):
    """merge [(state,val)] -> (state,val)"""
    st, v = lst[0]
    for s2, v2 in lst[1:]:
        if v is None and v2 is None:
            st = merge(st, s2)
            continue
        # carry the value through memory
        t1, t2 = st.copy(), s2.copy()
        t1.mem["$ret"], t2.mem["$ret"] = v, v2
        st = merge(t1, t2)
        v = st.mem.pop("$ret")
    return st, v


class Outcome(dict):
    """kind -> [(state, value)]"""

    def add(self, kind, st, v=None):
        self.setdefault(kind, []).append((st, v))

    def merge_in(self, o, skip=()):
        for k, l in o.items():
            if k not in skip:
                self.setdefault(k, []).extend(l)


class Obl:
    __slots__ = ("fn", "kind", "desc", "line", "asm", "goal", "name")

    def __init__(self, fn, kind, desc, line, asm, goal):
        self.fn, self.kind, self.desc = fn, kind, desc
        self.line, self.asm, self.goal = line, asm, goal


MASK = {b: 2 ** b for b in (8, 16, 32, 64)}


class Counter:
    def __init__(self, loc, init, dir_):
        self.loc, self.init, self.dir = loc, init, dir_


class Loop:
    """context given to invariant templates"""
    pass


class Interp:
    def __init__(self, prog, contracts, axioms):
        self.prog = prog
        self.contracts = contracts    # qualified name -> Contract
        self.axioms = axioms          # AxiomBase
        self.n = 0
        self.obs = []
        self.recording = True
        self.dry = 0
        self.writes = None
        self.loopstack = []
        self.depth = 0
        self.loopdepth = 0
        self.curfn = None             # contract under verification
        self.exc = [[]]
        self.line = 0
        self.callpath = ()
        self.phase1 = False
        self.unrolled = ()
        self.hcache = {}
        self.hints = None         # loop key -> surviving candidates
        self.found = {}
        self.ords = {}
        self.jobs = JOBS
        self.qcache = {}
        self.keep = []
        self.inlined = set()
        self.called = set()
        self.trusted = set()
        self.exact = False        # doubles of this function are reals
        self.realops = False      # does it compute with doubles
        self.loops = {}
        self.ghost = {}
        self.extents = []
        self.range_syms = {}
        import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ fresh
    def name(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    def fresh_int(self, base, st=None, bits=64, signed=False):
        v = z3.Int(self.name(base))
        if st is not None:
            self.range_fact(st, v, bits, signed)
        return v

    def range_fact(self, st, v, bits, signed):
        if signed:
            st.fact(z3.And(v >= -(MASK[bits] // 2), v < MASK[bits] // 2))
        else:
            st.fact(z3.And(v >= 0, v < MASK[bits]))

    def fresh(self, ct, base, st):
        k = ct[0]
        if k == "int":
            return self.fresh_int(base, st, ct[1], ct[2])
        if k == "bool":
            return z3.Bool(self.name(base))
        if k == "real":
            return z3.Real(self.name(base))
        if k == "vec":
            sz = self.fresh_int(base + ".size", st)
            st.fact(sz < 2 ** 63)
            return Vec(z3.Const(self.name(base + ".a"),
                                z3.ArraySort(I_, sort_of(ct[1]))), sz, ct[1])
        if k == "rec":
            r = self.prog.records.get(ct[1])
            if r is None:
                return Opaque(ct[1])
            return Rec(ct[1], {n: self.fresh(ctype(t), base + "." + n, st)
                               for n, t in r["fields"]})
        if k == "ptr":
            return Ptr(None, z3.Bool(self.name(base + ".null")))
        v = self.lib.fresh(ct, base, st)
        if v is not None:
            return v
        return Opaque(repr(ct))

    def havoc_like(self, v, base, st, ct=None):
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                return z3.Bool(self.name(base))
            if z3.is_int(v):
                bits, sg = (ct[1], ct[2]) if ct and ct[0] == "int" \
                    else (64, False)
                return self.fresh_int(base, st, bits, sg)
            if z3.is_real(v):
                return z3.Real(self.name(base))
            return z3.Const(self.name(base), v.sort())
        if isinstance(v, Vec):
            sz = self.fresh_int(base + ".size", st)
            st.fact(sz < 2 ** 63)
            return Vec(z3.Const(self.name(base + ".a"), v.arr.sort()), sz, v.et)
        if isinstance(v, Rec):
            fl = dict(self.prog.records[v.name]["fields"]) \
                if v.name in self.prog.records else {}
            return Rec(v.name, {k: self.havoc_like(
                x, base + "." + k, st,
                ctype(fl[k]) if k in fl else None) for k, x in v.f.items()})
        if isinstance(v, Iter):
            return Iter(v.vec, self.fresh_int(base, st))
        if isinstance(v, Opaque):
            return v
        if v is None:
            return None
        r = self.lib.havoc_like(v, base, st)
        if r is not None:
            return r
        raise Unsupported("havoc of " + type(v).__name__)

    # ------------------------------------------------------------ memory
    def new_root(self, base, val, st):
        r = self.name("$" + base)
        st.mem[r] = val
        return Loc(r)

    def read(self, st, loc):
        v = st.mem[loc.root]
        for p in loc.path:
            if isinstance(p, str):
                if isinstance(v, Rec):
                    v = v.f[p]
                elif isinstance(v, Vec):
                    v = v.arr if p == "arr" else v.size
                else:
                    raise Unsupported("field %s of %s" % (p, type(v).__name__))
            else:
                if not isinstance(v, Vec):
                    raise Unsupported("index into " + type(v).__name__)
                et = v.et
                v = z3.Select(v.arr, p[1])
                if et[0] == "int":
                    self.elem_range(st, v, et)
        if v is None:
            # uninitialised scalar: any value
            raise Unsupported("read of an uninitialised object %r" % loc)
        return v

    def elem_range(self, st, v, et):
        self.range_fact(st, v, et[1], et[2])

    def write(self, st, loc, val):
        if self.writes is not None:
            self.writes.setdefault(loc.leaf(), loc)

        def upd(v, path):
            if not path:
                return val
            p = path[0]
            if isinstance(p, str):
                if isinstance(v, Rec):
                    f = dict(v.f)
                    f[p] = upd(f[p], path[1:])
                    return Rec(v.name, f)
                if isinstance(v, Vec):
                    if p == "arr":
                        return Vec(upd(v.arr, path[1:]), v.size, v.et)
                    return Vec(v.arr, upd(v.size, path[1:]), v.et)
                raise Unsupported("write to field of " + type(v).__name__)
            if len(path) != 1:
                raise Unsupported("write inside vector element")
            x = val
            if v.et[0] == "real" and z3.is_int(x):
                x = z3.ToReal(x)
            return Vec(z3.Store(v.arr, p[1], x), v.size, v.et)
        st.mem[loc.root] = upd(st.mem[loc.root], loc.path)

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, desc, goal, st):
        if not self.recording or self.dry:
            st.fact(goal) if not self.dry else None
            return
        self.obs.append(Obl(self.curfn.name if self.curfn else "?", kind,
                            desc, self.line, st.formulas(), goal))
        st.fact(goal)

    def prove_quick(self, st, goal, ground=True, rl=400000, timeout=4000):
        g = simp(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        fs = st.formulas()
        if ground:
            fs = [f for f in fs if not prover.is_quant(f)]
        key = (g.get_id(), ground, tuple(f.get_id() for f in fs))
        if key in self.qcache:
            return self.qcache[key]
        self.keep.append((g, fs))
        if not ground:
            fs = fs + self.axioms.relevant(fs + [g])
        fs = fs + [z3.Not(g)]
        if not ground and prover.run_fast(fs, 800) == "unsat":
            self.qcache[key] = True
            return True
        if any(prover.has_nl(f) for f in fs):
            fs = prover.abstracted(fs)
        prover.STAT["queries"] += 1
        s = z3.Solver()
        s.set("rlimit", rl)
        s.set("timeout", timeout)
        s.add(*fs)
        try:
            r = s.check() == z3.unsat
        except z3.Z3Exception:
            r = False
        if not r and not ground:
            r = prover.run_z3(fs, 5000, seed=7, mbqi=False)[0] == "unsat"
        self.qcache[key] = r
        return r

    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, r, bits, signed, what):
        r = simp(r) if z3.is_int_value(simp(r)) else r
        lo, hi = (-(MASK[bits] // 2), MASK[bits] // 2) if signed \
            else (0, MASK[bits])
        if z3.is_int_value(r):
            v = r.as_long()
            if lo <= v < hi:
                return r
            if not signed:
                return z3.IntVal(v % hi)
        if signed:
            self.oblige("overflow", "signed overflow in " + what,
                        z3.And(r >= lo, r < hi), st)
            return r
        if self.dry:
            return r
        ok = z3.And(r >= 0, r < hi)
        if self.prove_quick(st, ok):
            return r
        if what == "+":
            return z3.If(r >= hi, r - hi, r)
        if what == "-":
            return z3.If(r < 0, r + hi, r)
        return r % hi

    def toint(self, v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def tobool(self, v):
        if z3.is_bool(v):
            return v
        if z3.is_int(v) or z3.is_real(v):
            if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) \
                    and z3.is_int_value(v.arg(2)):
                a, b = v.arg(1).as_long(), v.arg(2).as_long()
                if a and not b:
                    return v.arg(0)
                if b and not a:
                    return z3.Not(v.arg(0))
            return v != 0
        if isinstance(v, Ptr):
            return z3.Not(v.null)
        r = self.lib.tobool(v)
        if r is not None:
            return r
        raise Unsupported("to bool: " + type(v).__name__)

    def boolpart(self, v):
        """If(c,1,0) -> c"""
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) \
                and z3.is_int_value(v.arg(2)) and v.arg(1).as_long() == 1 \
                and v.arg(2).as_long() == 0:
            return v.arg(0)
        if z3.is_int_value(v) and v.as_long() in (0, 1):
            return z3.BoolVal(bool(v.as_long()))
        return None

    def conv(self, st, v, to, frm=None):
        """scalar conversion to ctype `to`"""
        if not isinstance(v, z3.ExprRef):
            if to[0] == "bool":
                return self.tobool(v)
            return v
        if to[0] == "bool":
            return self.tobool(v)
        if to[0] == "real":
            v = self.toint(v)
            if z3.is_int(v):
                return z3.ToReal(v) if not z3.is_int_value(v) \
                    else z3.RealVal(v.as_long())
            return v
        if to[0] == "int":
            v = self.toint(v)
            if z3.is_real(v):
                if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
                    i = v.arg(0)
                    lo, hi = (-(MASK[to[1]] // 2), MASK[to[1]] // 2) \
                        if to[2] else (0, MASK[to[1]])
                    self.oblige("overflow", "float to integer conversion",
                                z3.And(i >= lo, i < hi), st)
                    return i
                i = self.fresh_int("trunc", st, to[1], to[2])
                lo, hi = (-(MASK[to[1]] // 2), MASK[to[1]] // 2) if to[2] \
                    else (0, MASK[to[1]])
                self.oblige("overflow", "float to integer conversion",
                            z3.And(v > lo - 1, v < hi), st)
                st.fact(z3.And(
                    z3.Implies(v >= 0, z3.And(z3.ToReal(i) <= v,
                                              v < z3.ToReal(i) + 1)),
                    z3.Implies(v < 0, z3.And(z3.ToReal(i) >= v,
                                             v > z3.ToReal(i) - 1))))
                return i
            bits, sg = to[1], to[2]
            if frm is not None and frm[0] == "int":
                fb, fs = frm[1], frm[2]
                if (not fs and not sg and fb <= bits) or \
                        (fs and sg and fb <= bits) or \
                        (not fs and sg and fb < bits):
                    return v
            elif frm is not None and frm[0] == "bool":
                return v
            if z3.is_int_value(v):
                x = v.as_long() % MASK[bits]
                if sg and x >= MASK[bits] // 2:
                    x -= MASK[bits]
                return z3.IntVal(x)
            lo, hi = (-(MASK[bits] // 2), MASK[bits] // 2) if sg \
                else (0, MASK[bits])
            if self.prove_quick(st, z3.And(v >= lo, v < hi)):
                return v
            m = v % MASK[bits]
            if sg:
                return z3.If(m >= hi, m - MASK[bits], m)
            return m
        return v

    def extent(self, n):
        """a vector of n = P * Q elements: P * Q is an extent"""
        if z3.is_mul(n) and n.num_args() == 2 and not self.dry and not any(
                z3.is_int_value(x) for x in n.children()) and not any(
                same(n.arg(0), P) and same(n.arg(1), Q)
                for P, Q in self.extents):
            self.extents.append((n.arg(0), n.arg(1)))

    def product_facts(self, st, a, b):
        """instances of lemma product-monotone at a * b, where b is one side
        of a known extent P * b and a is at most P"""
        if z3.is_int_value(a) or z3.is_int_value(b) or self.dry:
            return
        for P, Q in self.extents:
            for p, q in ((P, Q), (Q, P)):
                if not (same(a, p) and same(b, q)):
                    self.axioms.used.add("product-equal")
                    st.fact(z3.Implies(z3.And(a == p, b == q),
                                       a * b == p * q))
                for x, y in ((a, b), (b, a)):
                    if same(y, q):
                        self.axioms.used.add("product-monotone")
                        st.fact(z3.Implies(q >= 0, z3.And(
                            z3.Implies(q == 0, z3.And(
                                q * x <= 0, q * x >= 0,
                                q * p <= 0, q * p >= 0)),
                            z3.Implies(x >= 0, q * x >= 0),
                            z3.Implies(z3.And(x >= 0, x <= p - 1),
                                       q * x <= q * p - q),
                            z3.Implies(z3.And(x >= 0, x <= p),
                                       q * x <= q * p))))

    def binop(self, st, op, a, b, ct):
        """arithmetic on already converted operands with result ctype ct"""
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.ptrcmp(op, a, b)
            if z3.is_bool(a) != z3.is_bool(b):
                a, b = self.toint(a), self.toint(b)
            if z3.is_bool(a):
                return {"==": a == b, "!=": a != b}[op] if op in ("==", "!=") \
                    else self.binop(st, op, self.toint(a), self.toint(b), ct)
            if z3.is_int(a) and z3.is_real(b):
                a = z3.ToReal(a)
            if z3.is_real(a) and z3.is_int(b):
                b = z3.ToReal(b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b,
                    "==": a == b, "!=": a != b}[op]
        if ct[0] == "real":
            a, b = self.conv(st, a, ct), self.conv(st, b, ct)
            self.realops = True
            if op == "-" and not self.exact:
                return fsub(a, b)
            self.trusted.add("exact arithmetic on doubles in " +
                             (self.curctx.c.short if self.exact or
                              not self.callpath else "inlined helpers"))
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            raise Unsupported("real op " + op)
        if ct[0] == "bool":
            ct = ("int", 32, True)
        a, b = self.toint(a), self.toint(b)
        if op in ("|", "&", "^"):
            pa, pb = self.boolpart(a), self.boolpart(b)
            if pa is not None and pb is not None:
                r = {"|": z3.Or(pa, pb), "&": z3.And(pa, pb),
                     "^": z3.Xor(pa, pb)}[op]
                return self.toint(r)
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal({"|": x | y, "&": x & y, "^": x ^ y}[op])
            raise Unsupported("bit operation on integers")
        bits, sg = ct[1], ct[2]
        if op == "+":
            return self.wrap(st, a + b, bits, sg, "+")
        if op == "-":
            return self.wrap(st, a - b, bits, sg, "-")
        if op == "*":
            self.product_facts(st, a, b)
            return self.wrap(st, a * b, bits, sg, "*")
        if op in ("/", "%"):
            self.oblige("div", "division by zero", b != 0, st)
            if not sg:
                if op == "/" and not z3.is_int_value(b) and not self.dry:
                    # (definition of the integer quotient)
                    q = z3.Int(self.name("quotient"))
                    st.fact(z3.And(q == a / b, q >= 0))
                    st.fact(z3.Implies(b > 0, z3.And(b * q <= a,
                                                     a < b * q + b)))
                    self.extents.append((q, b))
                    return q
                return a / b if op == "/" else a % b
            if self.prove_quick(st, z3.And(a >= 0, b > 0)):
                return a / b if op == "/" else a % b
            raise Unsupported("signed division")
        if op in ("<<", ">>") and z3.is_int_value(simp(b)):
            k = simp(b).as_long()
            if op == "<<":
                return self.wrap(st, a * (2 ** k), bits, sg, "<<")
            if not sg:
                return a / (2 ** k)
        raise Unsupported("operator " + op)

    def ptrcmp(self, op, a, b):
        if op not in ("==", "!="):
            raise Unsupported("pointer order")
        if not isinstance(a, Ptr):
            a = Ptr(None, TRUE)
        if not isinstance(b, Ptr):
            b = Ptr(None, TRUE)
        if a.loc is None and b.loc is None:
            r = TRUE
        elif a.loc is None:
            r = b.null
        elif b.loc is None:
            r = a.null
        elif a.loc.key() == b.loc.key():
            r = a.null == b.null
        else:
            r = z3.And(a.null, b.null)
        return r if op == "==" else z3.Not(r)

    # ------------------------------------------------------------ expressions
    def ty(self, e):
        return ctype(qt(e))

    def rv(self, st, x):
        """value of an evaluated expression (load if it is a location)"""
        if isinstance(x, Loc):
            return self.read(st, x)
        if isinstance(x, BitRef):
            return self.read(st, x.loc)
        return x

    def val(self, e, st):
        return self.rv(st, self.ev(e, st))

    def cond(self, e, st):
        return self.tobool(self.val(e, st))

    def deref(self, st, p, what):
        if isinstance(p, Loc):
            p = self.read(st, p)
        if isinstance(p, Iter):
            v = self.read(st, p.vec)
            self.oblige("bounds", "iterator dereference in " + what,
                        z3.And(p.pos >= 0, p.pos < v.size), st)
            return p.vec.sub(("i", p.pos))
        if isinstance(p, Ptr):
            if p.loc is None:
                self.oblige("null", "null dereference in " + what, FALSE, st)
                raise Unsupported("dereference of unknown pointer")
            if not z3.is_false(p.null):
                self.oblige("null", "null dereference in " + what,
                            z3.Not(p.null), st)
            return p.loc
        r = self.lib.deref(st, p)
        if r is not None:
            return r
        raise Unsupported("dereference of " + type(p).__name__)

    def ev(self, e, st):
        k = e["kind"]
        if "_line" in e and e["_line"]:
            self.line = e["_line"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(e, st)

    def e_pass(self, e, st):
        return self.ev(json_keys(e)[0], st)
    e_ExprWithCleanups = e_ParenExpr = e_CXXBindTemporaryExpr = e_pass
    e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_pass

    def e_CXXDefaultArgExpr(self, e, st):
        if json_keys(e):
            return self.e_pass(e, st)
        return Opaque("default-arg")

    def e_CXXDefaultInitExpr(self, e, st):
        if json_keys(e):
            return self.e_pass(e, st)
        raise Unsupported("default init")

    def e_MaterializeTemporaryExpr(self, e, st):
        v = self.ev(json_keys(e)[0], st)
        if isinstance(v, Loc):
            return v
        if isinstance(v, BitRef):
            return v
        return self.new_root("tmp", v, st)

    def e_ImplicitCastExpr(self, e, st):
        ck = e.get("castKind")
        sub = json_keys(e)[0]
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(sub, st)
        if ck == "ToVoid":
            self.ev(sub, st)
            return None
        v = self.ev(sub, st)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase",
                  "ConstructorConversion", "UserDefinedConversion",
                  "ArrayToPointerDecay", "BitCast", "Dependent",
                  "LValueBitCast"):
            if ck == "UserDefinedConversion" and isinstance(v, Loc):
                return v
            return v
        if ck == "LValueToRValue":
            r = self.rv(st, v)
            return r
        v = self.rv(st, v)
        if ck == "NullToPointer":
            return Ptr(None, TRUE)
        if ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating",
                  "FloatingToIntegral", "FloatingCast", "BooleanToSignedIntegral",
                  "FloatingToBoolean", "PointerToBoolean"):
            if isinstance(v, Opaque):
                return self.fresh(self.ty(e), "opaque", st)
            v = self.conv(st, v, self.ty(e), self.ty(sub))
            if ck in ("IntegralToFloating", "FloatingCast") and \
                    isfloat(qt(e)) and not isfloat(qt(sub)):
                return FLT32(v)
            return v
        if ck == "CPointerToObjCPointerCast":
            return v
        raise Unsupported("cast " + str(ck))
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_IntegerLiteral(self, e, st):
        return z3.IntVal(int(e["value"]))

    def e_CharacterLiteral(self, e, st):
        return z3.IntVal(int(e["value"]))

    def e_FloatingLiteral(self, e, st):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(float(e["value"]))))

    def e_CXXBoolLiteralExpr(self, e, st):
        return z3.BoolVal(bool(e["value"]))

    def e_StringLiteral(self, e, st):
        return self.lib.string_literal(e)

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return Ptr(None, TRUE)
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, e, st):
        return self.zero(self.ty(e), st)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero(self, ct, st):
        if ct[0] == "int":
            return z3.IntVal(0)
        if ct[0] == "bool":
            return FALSE
        if ct[0] == "real":
            return z3.RealVal(0)
        if ct[0] == "ptr":
            return Ptr(None, TRUE)
        if ct[0] == "vec":
            return self.lib.empty_vec(ct[1])
        if ct[0] == "rec":
            r = self.prog.records.get(ct[1])
            if r is None:
                return Opaque(ct[1])
            return Rec(ct[1], {n: self.zero(ctype(t), st)
                               for n, t in r["fields"]})
        v = self.lib.default(ct, st)
        if v is not None:
            return v
        return Opaque(repr(ct))

    def e_CXXThisExpr(self, e, st):
        return Ptr(st.env["$this"], FALSE)

    def e_DeclRefExpr(self, e, st):
        rd = e["referencedDecl"]
        i = rd["id"]
        tu = e["_tu"].name
        if (tu, i) in st.env:
            return st.env[(tu, i)]
        k = rd["kind"]
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return FnRef(rd, e["_tu"])
        if k == "EnumConstantDecl":
            v = self.prog.enums.get((tu, i))
            if v is None:
                raise Unsupported("enum constant " + rd.get("name", ""))
            return z3.IntVal(v)
        if k in ("VarDecl", "ParmVarDecl"):
            d = e["_tu"].byid.get(i)
            sp = self.lib.std_global(rd)
            if sp is not None:
                return sp
            if d is not None:
                t = (d.get("type") or {}).get("qualType", "")
                const = t.startswith("const ") or d.get("constexpr")
                init = [c for c in json_keys(d) if c.get("kind", "").endswith(
                    ("Expr", "Literal", "Operator"))]
                if const and init:
                    s2 = State()
                    try:
                        v = self.rv(s2, self.ev(init[-1], s2))
                    except KeyError:
                        raise Unsupported("global initialiser")
                    if isinstance(v, z3.ExprRef):
                        ct = ctype(qt(d))
                        return self.new_root(rd["name"], v, st)
                    if isinstance(v, (Special, Opaque)) or True:
                        return self.new_root(rd["name"], v, st)
                # mutable global or static: unknown content on every read
                return self.new_root(rd["name"], self.fresh(
                    ctype(qt(d)), "global_" + rd["name"], st), st)
            raise Unsupported("reference to " + rd.get("name", "?"))
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        raise Unsupported("reference kind " + k)

    def e_MemberExpr(self, e, st):
        sub = json_keys(e)[0]
        b = self.ev(sub, st)
        nm = e["name"]
        rid = e.get("referencedMemberDecl")
        d = e["_tu"].byid.get(rid)
        if d is not None and d.get("kind") == "VarDecl":   # static member
            return self.e_DeclRefExpr(
                {"referencedDecl": d, "_tu": e["_tu"]}, st)
        if e.get("isArrow"):
            b = self.rv(st, b)
            b = self.deref(st, b, "->" + nm)
        if isinstance(b, Loc):
            v = self.read(st, b) if not b.path or True else None
            if isinstance(v, Rec) and nm in v.f:
                return b.sub(nm)
            raise Unsupported("member %s of %s" % (nm, type(v).__name__))
        if isinstance(b, Rec):
            return b.f[nm]
        raise Unsupported("member access on " + type(b).__name__)

    def e_UnaryOperator(self, e, st):
        op = e["opcode"]
        sub = json_keys(e)[0]
        if op == "&":
            v = self.ev(sub, st)
            if isinstance(v, Loc):
                return Ptr(v, FALSE)
            raise Unsupported("address of non-object")
        if op == "*":
            return self.deref(st, self.val(sub, st), "*")
        if op == "!":
            return z3.Not(self.tobool(self.val(sub, st)))
        if op in ("++", "--"):
            loc = self.ev(sub, st)
            old = self.rv(st, loc)
            ct = self.ty(sub)
            if isinstance(old, Iter):
                new = Iter(old.vec, old.pos + (1 if op == "++" else -1))
            elif ct[0] == "real":
                new = old + (1 if op == "++" else -1)
            else:
                new = self.binop(st, op[0], old, z3.IntVal(1), ct)
            self.write(st, loc, new)
            return old if e.get("isPostfix") else loc
        v = self.val(sub, st)
        if op == "-":
            ct = self.ty(e)
            if ct[0] == "real":
                return -v
            return self.binop(st, "-", z3.IntVal(0), self.toint(v), ct)
        if op == "+":
            return v
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, e, st):
        op = e["opcode"]
        a, b = json_keys(e)
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            ca = self.cond(a, st)
            g = ca if op == "&&" else z3.Not(ca)
            if is_false(g):
                return FALSE if op == "&&" else TRUE
            s2 = st.copy()
            s2.pc(g)
            base = s2.asm
            cb = self.cond(b, s2)
            self.join_side(st, s2, base, g)
            return z3.And(ca, cb) if op == "&&" else z3.Or(ca, cb)
        if op == "=":
            v = self.val(b, st)     # sequenced first (C++17)
            loc = self.ev(a, st)
            if isinstance(loc, BitRef):
                loc = loc.loc
            if not isinstance(loc, Loc):
                raise Unsupported("assignment target")
            self.write(st, loc, v)
            return loc
        va = self.val(a, st)
        vb = self.val(b, st)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.binop(st, op, va, vb, None)
        r = self.binop(st, op, va, vb, self.ty(e))
        return FLT32(r) if isfloat(qt(e)) else r

    def join_side(self, st, s2, base, g):
        """after evaluating something under extra condition g in s2 (a copy
        of st), fold its effects back into st."""
        changed = [r for r in st.mem if st.mem[r] is not s2.mem[r]]
        facts = [x for k, x in s2.asm[len(base):] if k == "f"]
        pcs = [x for k, x in s2.asm[len(base):] if k == "p"]
        for r in changed:
            x = []
            st.mem[r] = name_arrays(mite(g, s2.mem[r], st.mem[r]), x)
            st.asm = st.asm + tuple(x)
        for r in s2.mem:
            if r not in st.mem:
                st.mem[r] = s2.mem[r]
        for f in facts + pcs:
            st.assume("f" if f in facts else "p", z3.Implies(g, f))

    def e_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]
        a, b = json_keys(e)
        # C++17: the right operand is sequenced first
        vb = self.val(b, st)
        loc = self.ev(a, st)
        va = self.rv(st, loc)
        lt = self.ty(a)
        ct = ctype((e.get("computeResultType") or {}).get(
            "desugaredQualType") or (e.get("computeResultType") or {}).get(
            "qualType") or qt(a))
        if ct[0] == "int" and lt[0] in ("bool", "int"):
            va2 = self.conv(st, va, ct, lt)
            r = self.binop(st, op, va2, vb, ct)
            r = self.conv(st, r, lt, ct)
        elif ct[0] == "real":
            r = self.binop(st, op, self.conv(st, va, ct),
                           self.conv(st, vb, ct), ct)
            if isfloat(qt(a)):
                r = FLT32(r)
            r = self.conv(st, r, lt, ct)
        else:
            r = self.binop(st, op, va, vb, ct)
        self.write(st, loc, r)
        return loc

    def e_ConditionalOperator(self, e, st):
        c, a, b = json_keys(e)
        g = self.cond(c, st)
        if is_true(g):
            return self.ev(a, st)
        if is_false(g):
            return self.ev(b, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc(g)
        s2.pc(z3.Not(g))
        t1, t2 = is_throw(a), is_throw(b)
        if t1 or t2:
            raise Unsupported("throw in conditional")
        v1, v2 = self.rv(s1, self.ev(a, s1)), self.rv(s2, self.ev(b, s2))
        s1.mem["$ret"], s2.mem["$ret"] = v1, v2
        m = merge(s1, s2)
        v = m.mem.pop("$ret")
        st.mem, st.env, st.asm = m.mem, m.env, m.asm
        return v

    # --- construction
    def e_InitListExpr(self, e, st):
        ct = self.ty(e)
        kids = json_keys(e)
        if ct[0] == "rec" and ct[1] in self.prog.records:
            fl = self.prog.records[ct[1]]["fields"]
            if len(kids) == 1 and self.ty(kids[0]) == ct:
                return self.copyval(self.val(kids[0], st))
            if len(kids) != len(fl):
                raise Unsupported("partial aggregate initialisation")
            return Rec(ct[1], {n: self.copyval(self.val(c, st))
                               for (n, t), c in zip(fl, kids)})
        if ct[0] in ("int", "bool", "real", "ptr") and len(kids) == 1:
            return self.val(kids[0], st)
        if ct[0] in ("int", "bool", "real", "ptr", "vec") and not kids:
            return self.zero(ct, st)
        r = self.lib.init_list(e, ct, kids, st)
        if r is not None:
            return r
        if len(kids) == 1:
            return self.ev(kids[0], st)
        raise Unsupported("initializer list for %r" % (ct,))

    def copyval(self, v):
        return v

    def e_CXXConstructExpr(self, e, st):
        ct = self.ty(e)
        kids = [k for k in json_keys(e)]
        if ct[0] == "rec" and ct[1] in self.prog.records:
            sig = (e.get("ctorType") or {}).get("qualType", "")
            if len(kids) == 1 and self.ty(kids[0]) == ct \
                    and not kids[0]["kind"] == "InitListExpr":
                v = self.ev(kids[0], st)
                val = self.rv(st, v)
                if "&&" in sig and isinstance(v, Loc):
                    self.moved(st, v)
                return val
            f = self.find_ctor(e, ct[1], sig, len(kids))
            if f is not None:
                return self.call_ctor(f, kids, st, ct)
            if not kids:
                # implicit / defaulted default constructor
                return self.default_rec(ct[1], st)
            raise Unsupported("constructor of " + ct[1])
        return self.lib.construct(e, ct, kids, st)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def default_rec(self, name, st):
        f = {}
        for n, t in self.prog.records[name]["fields"]:
            ct = ctype(t)
            if ct[0] in ("int", "bool", "real"):
                # indeterminate value: any value
                f[n] = self.fresh(ct, "uninit_" + n, st)
            elif ct[0] == "ptr":
                f[n] = Ptr(None, z3.Bool(self.name("uninit_null")))
            elif ct[0] == "rec":
                f[n] = self.default_rec(ct[1], st)
            else:
                f[n] = self.zero(ct, st)
        return Rec(name, f)

    def moved(self, st, loc):
        v = self.read(st, loc)

        def mv(l, v):
            if isinstance(v, Rec):
                for k, x in v.f.items():
                    mv(l.sub(k), x)
            elif isinstance(v, Vec):
                self.write(st, l, self.lib.empty_vec(v.et))
        mv(loc, v)

    def find_ctor(self, e, name, sig, nargs):
        for fn in self.prog.funcs.values():
            if fn["kind"] == "CXXConstructorDecl" and fn["name"] == name:
                if fn.get("isImplicit") or fn.get("explicitlyDefaulted"):
                    continue
                ps = [c for c in json_keys(fn) if c["kind"] == "ParmVarDecl"]
                if len(ps) == nargs and norm_sig(
                        (fn.get("type") or {}).get("qualType", "")) == \
                        norm_sig(sig):
                    return fn
        cands = [fn for fn in self.prog.funcs.values()
                 if fn["kind"] == "CXXConstructorDecl" and fn["name"] == name
                 and not fn.get("isImplicit")
                 and not fn.get("explicitlyDefaulted")
                 and len([c for c in json_keys(fn)
                          if c["kind"] == "ParmVarDecl"]) == nargs]
        if len(cands) == 1 and nargs:
            return cands[0]
        return None

    def call_ctor(self, fn, kids, st, ct):
        args = [self.arg(p, k, st) for p, k in zip(params(fn), kids)]
        this = self.new_root("obj", self.default_rec(ct[1], st), st)
        self.call(fn, args, st, this)
        return self.read(st, this)

    def arg(self, p, e, st):
        t = (p.get("type") or {}).get("qualType", "")
        dt = qt(p)
        if dt.rstrip().endswith("&") or t.rstrip().endswith("&"):
            v = self.ev(e, st)
            if isinstance(v, (Loc, BitRef)):
                return v
            return self.new_root("tmp", v, st)
        return self.val(e, st)

    # --- calls
    def e_CallExpr(self, e, st):
        kids = json_keys(e)
        c = self.ev(kids[0], st)
        if isinstance(c, FnRef):
            fn = self.prog.find_func(c.tu, c.rd)
            if fn is not None:
                args = [self.arg(p, k, st)
                        for p, k in zip(params(fn), kids[1:])]
                return self.call(fn, args, st, None)
            return self.lib.call(c.rd.get("name"), kids[1:], st, e)
        raise Unsupported("indirect call")

    def e_CXXMemberCallExpr(self, e, st):
        kids = json_keys(e)
        me = kids[0]
        while me["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            me = json_keys(me)[0]
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through " + me["kind"])
        nm = me["name"]
        base = self.ev(json_keys(me)[0], st)
        if me.get("isArrow"):
            base = self.deref(st, self.rv(st, base), nm)
        rid = me.get("referencedMemberDecl")
        d = e["_tu"].byid.get(rid)
        if d is not None:
            fn = self.prog.find_func(e["_tu"], d)
            if fn is not None and not fn.get("isImplicit"):
                args = [self.arg(p, k, st)
                        for p, k in zip(params(fn), kids[1:])]
                if not isinstance(base, Loc):
                    base = self.new_root("tmp", base, st)
                return self.call(fn, args, st, base)
        return self.lib.method(nm, base, kids[1:], st, e)

    def e_CXXOperatorCallExpr(self, e, st):
        kids = json_keys(e)
        cal = kids[0]
        while cal["kind"] == "ImplicitCastExpr":
            cal = json_keys(cal)[0]
        rd = cal.get("referencedDecl", {})
        nm = rd.get("name", "")
        d = e["_tu"].byid.get(rd.get("id"))
        if d is not None:
            fn = self.prog.find_func(e["_tu"], d)
            if fn is not None and not fn.get("isImplicit") \
                    and not fn.get("explicitlyDefaulted"):
                if fn["kind"] == "CXXMethodDecl":
                    this = self.ev(kids[1], st)
                    if isinstance(this, Loc) and isinstance(
                            st.mem.get(this.root), Lambda) and not this.path:
                        return self.lib.call_lambda(
                            st.mem[this.root],
                            [self.arg(p, k, st) for p, k in
                             zip(params(fn), kids[2:])], st)
                    args = [self.arg(p, k, st)
                            for p, k in zip(params(fn), kids[2:])]
                    return self.call(fn, args, st, this)
                args = [self.arg(p, k, st)
                        for p, k in zip(params(fn), kids[1:])]
                return self.call(fn, args, st, None)
        if nm == "operator=":
            a = self.ev(kids[1], st)
            bx = self.ev(kids[2], st)
            b = self.rv(st, bx)
            if isinstance(a, BitRef):
                self.write(st, a.loc, self.tobool(b))
                return a
            if isinstance(a, Loc):
                cur = self.read_raw(st, a)
                if isinstance(b, (Rec, Vec, Iter, Lambda, Opaque)) or \
                        type(b) is type(cur):
                    self.write(st, a, b)
                    if "&&" in (rd.get("type") or {}).get("qualType", "") \
                            and isinstance(bx, Loc) and isinstance(b, Vec) \
                            and bx.key() != a.key():
                        self.moved(st, bx)
                    return a
        return self.lib.operator(nm, kids[1:], st, e)

    def read_raw(self, st, loc):
        try:
            return self.read(st, loc)
        except Unsupported:
            return None

    def e_LambdaExpr(self, e, st):
        rec = json_keys(e)[0]
        call = [c for c in json_keys(rec) if c["kind"] == "CXXMethodDecl"
                and c.get("name") == "operator()"]
        if len(call) != 1:
            raise Unsupported("lambda")
        caps = dict(st.env)
        fields = [c for c in json_keys(rec) if c["kind"] == "FieldDecl"]
        inits = json_keys(e)[1:1 + len(fields)]
        seen, unknown = [], []

        def refs(n):
            if n.get("kind") == "DeclRefExpr":
                i = (n.get("referencedDecl") or {}).get("id")
                seen.append(i)
            for c in json_keys(n):
                refs(c)
        refs(call[0])
        local = set()

        def decls(n):
            if n.get("kind", "").endswith("VarDecl"):
                local.add(n["id"])
            for c in json_keys(n):
                decls(c)
        decls(call[0])
        tu = e["_tu"]
        for f, c in zip(fields, inits):
            n = c
            while n.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr",
                                    "ExprWithCleanups", "ParenListExpr",
                                    "InitListExpr") and \
                    len(json_keys(n)) == 1:
                n = json_keys(n)[0]
            i = (n.get("referencedDecl") or {}).get("id")
            if n.get("kind") == "CXXThisExpr":
                continue
            if i is None or i not in seen:
                unknown.append((f, c))           # [name = value]
            elif not qt(f).rstrip().endswith("&"):
                caps[(tu.name, i)] = self.new_root(
                    "cap", self.val(c, st), st)
        if unknown:
            new = []
            for i in seen:
                d = tu.byid.get(i)
                if (tu.name, i) not in caps and i not in local and \
                        i not in new and (d is None or not d.get("mangledName")):
                    new.append(i)
            if len(unknown) != 1 or len(new) != 1:
                raise Unsupported("captures of a lambda")
            f, c = unknown[0]
            v = self.ev(c, st)
            if not qt(f).rstrip().endswith("&"):
                v = self.new_root("cap", self.rv(st, v), st)
            caps[(tu.name, new[0])] = v
        return Lambda((e, call[0]), caps, st.env.get("$this"))

    def e_CXXThrowExpr(self, e, st):
        raise Unsupported("throw inside an expression")

    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get("name") == "sizeof":
            t = strip((e.get("argType") or {}).get("qualType", ""))
            if t in INTS:
                return z3.IntVal(INTS[t][0] // 8)
            if t == "double":
                return z3.IntVal(8)
        raise Unsupported("sizeof")

    # ------------------------------------------------------------ calls
    def call(self, fn, args, st, this):
        nm = func_name(fn)
        c = self.contracts.get(nm)
        if c is not None and c.covers(fn, self):
            self.called.add(nm)
            return self.call_contract(c, fn, args, st, this)
        return self.inline(fn, args, st, this)

    def inline(self, fn, args, st, this):
        nm = func_name(fn)
        if self.depth > 12 or self.callpath.count(nm) > 0:
            raise Unsupported("recursion through " + nm)
        self.inlined.add(nm)
        env0 = st.env
        st.env = {}
        if this is not None:
            st.env["$this"] = this
        self.depth += 1
        cp = self.callpath
        self.callpath = cp + (nm,)
        line = self.line
        try:
            st.env["$fn"] = fn
            self.bind(fn, args, st)
            rets = self.run_body(fn, st)
        finally:
            self.depth -= 1
            self.callpath = cp
        if not rets:
            # never returns normally on this path
            st.asm = st.asm + (("p", FALSE),)
            st.env = env0
            self.line = line
            rt = (fn.get("type") or {}).get("qualType", "").split("(")[0]
            return self.fresh_ret(fn, st)
        m, v = merge_all(rets)
        st.mem, st.asm = m.mem, m.asm
        st.env = env0
        self.line = line
        return v

    def fresh_ret(self, fn, st):
        t = (fn.get("type") or {}).get("qualType", "void").split("(")[0]
        ct = ctype(t)
        if ct[0] == "void":
            return None
        return self.fresh(ct, "dead", st)

    def bind(self, fn, args, st):
        tu = fn["_tu"].name
        ps = params(fn)
        if len(args) < len(ps):
            raise Unsupported("default arguments")
        for p, a in zip(ps, args):
            if isinstance(a, (Loc, BitRef)) :
                t = (p.get("type") or {}).get("qualType", "")
                if t.rstrip().endswith("&") or qt(p).rstrip().endswith("&"):
                    st.env[(tu, p["id"])] = a
                    continue
                a = self.rv(st, a)
            st.env[(tu, p["id"])] = self.new_root(
                p.get("name", "arg"), a, st)

    def run_body(self, fn, st):
        """execute a bound function; returns [(state, value)] and leaves
        exceptional outcomes in self.exc[-1]."""
        rets = []
        if fn["kind"] == "CXXConstructorDecl":
            for ini in json_keys(fn):
                if ini["kind"] == "CXXCtorInitializer":
                    self.ctor_init(ini, st)
        body = [c for c in json_keys(fn)
                if c["kind"] in ("CompoundStmt", "CXXTryStmt")][0]
        o = self.exec(body, st)
        for s, v in o.get("next", []):
            rets.append((s, None))
        for s, v in o.get("return", []):
            rets.append((s, v))
        return rets

    def ctor_init(self, ini, st):
        f = (ini.get("anyInit") or {}).get("name")
        kids = json_keys(ini)
        if f is None:
            raise Unsupported("base initialiser")
        loc = st.env["$this"].sub(f)
        if not kids:
            return
        v = self.val(kids[0], st)
        self.write(st, loc, v)

    def call_contract(self, c, fn, args, st, this):
        from specs import Ctx
        line = self.line
        old = dict(st.mem)
        cx = Ctx(self, c, fn, args, this, st, old)
        if not self.dry:
            cx.check_shape()
            for name, f in c.pre(cx):
                self.oblige("precondition", "%s requires %s" % (
                    c.short, name), f, st)
        tc = c.throws(cx)
        for loc in c.modifies(cx):
            v = self.read(st, loc)
            self.write(st, loc, self.havoc_like(v, "m_" + str(
                loc.path[-1] if loc.path else loc.root), st))
        t = (fn.get("type") or {}).get("qualType", "void")
        if fn["kind"] == "CXXConstructorDecl":
            ret = None
        else:
            t = c.rettype or t.split("(")[0]
            ret = c.make_ret(cx, ctype(t)) if ctype(t)[0] != "void" else None
        cx.new = dict(st.mem)
        cx.ret = ret
        cx.st = st
        if tc is not None:
            for ty, cond in tc.items():
                s2 = State(dict(old), dict(st.env), st.asm)
                s2.pc(cond)
                self.exc[-1].append((s2, ("throw", ty)))
            st.pc(z3.Not(z3.Or(*tc.values())))
        if not self.dry or c.light:
            for name, f in c.post(cx):
                st.fact(f)
        self.line = line
        return ret

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        k = s["kind"]
        if s.get("_line"):
            self.line = s["_line"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s, st)
        # expression statement
        o = Outcome()
        if k == "CXXThrowExpr" or (k == "ExprWithCleanups" and
                                   is_throw(s)):
            t = s
            while t["kind"] != "CXXThrowExpr":
                t = json_keys(t)[0]
            self.throw(t, st)
            return o
        self.ev(s, st)
        o.add("next", st)
        return o

    def throw(self, t, st):
        kids = json_keys(t)
        if not kids:
            raise Unsupported("rethrow")
        ty = strip(qt(kids[0])).split("::")[-1]
        x = st.copy()
        # the message is evaluated for its obligations only
        try:
            self.ev(kids[0], x)
        except Unsupported:
            raise
        self.exc[-1].append((x, ("throw", ty)))

    def s_CompoundStmt(self, s, st):
        out = Outcome()
        cur = st
        for n, c in enumerate(json_keys(s)):
            o = self.exec(c, cur)
            out.merge_in(o, skip=("next",))
            nx = o.get("next", [])
            if not nx:
                return out
            if len(nx) > 1 and self.separate():
                # paths that built different objects are followed on their own
                rest = json_keys(s)[n + 1:]
                for x, _ in self.grouped(nx):
                    if x.asm and is_false(x.asm[-1][1]):
                        continue
                    out.merge_in(self.s_CompoundStmt(
                        {"kind": "CompoundStmt", "inner": rest}, x))
                return out
            cur, _ = merge_all(nx)
            if cur.asm and is_false(cur.asm[-1][1]):
                return out
        out.add("next", cur)
        return out

    def separate(self):
        return getattr(self.curfn, "separate_paths", False) \
            and self.depth == 0 and not self.loopdepth

    def grouped(self, nx):
        """states joined where they hold the same objects"""
        gs = {}
        for x, v in nx:
            k = frozenset(r for r, w in x.mem.items() if isinstance(w, Rec)
                          and not r.startswith(("$obj", "$tmp")))
            k = (k, str(x.mem["OFILE"].f["opened"]) if "OFILE" in x.mem
                 else "")
            gs.setdefault(k, []).append((x, v))
        return [merge_all(g) for g in gs.values()]

    def s_NullStmt(self, s, st):
        o = Outcome()
        o.add("next", st)
        return o

    def s_DeclStmt(self, s, st):
        o = Outcome()
        for d in json_keys(s):
            if d["kind"] != "VarDecl":
                if d["kind"] in ("TypedefDecl", "UsingDecl", "TypeAliasDecl",
                                 "StaticAssertDecl", "EmptyDecl",
                                 "UsingDirectiveDecl", "CXXRecordDecl"):
                    continue
                raise Unsupported("declaration " + d["kind"])
            self.decl(d, st)
        o.add("next", st)
        return o

    def decl(self, d, st):
        key = (d["_tu"].name, d["id"])
        t = (d.get("type") or {}).get("qualType", "")
        if d.get("storageClass") == "static" and not (
                t.startswith("const") or d.get("constexpr")):
            st.env.pop(key, None)
            return        # unknown content on every read
        init = [c for c in json_keys(d) if c and (
            c.get("kind", "").endswith(("Expr", "Literal", "Operator"))
            or c.get("kind", "") in ("ExprWithCleanups",))]
        ct = ctype(qt(d))
        if ct == ("stream", "out") and "fstream" in qt(d):
            # the file system keeps what is written: the variable is a name
            # of the one output file
            v = self.ev(init[0], st) if init else self.lib.default(ct, st)
            if isinstance(v, Loc):
                st.env[key] = v
                return
            raise Unsupported("output file stream")
        if qt(d).rstrip().endswith("&") or t.rstrip().endswith("&"):
            v = self.ev(init[0], st)
            if isinstance(v, (Loc, BitRef)):
                st.env[key] = v
            else:
                st.env[key] = self.new_root(d["name"], v, st)
            return
        if init:
            v = self.val(init[0], st)
        elif ct[0] in ("int", "bool", "real"):
            v = self.fresh(ct, "uninit_" + d["name"], st)
        elif ct[0] == "rec" and ct[1] in self.prog.records:
            v = self.default_rec(ct[1], st)
        elif ct[0] == "ptr":
            v = Ptr(None, z3.Bool(self.name("uninit_null")))
        else:
            v = self.zero(ct, st)
        st.env[key] = self.new_root(d["name"], v, st)

    def s_IfStmt(self, s, st):
        kids = json_keys(s)
        out = Outcome()
        i = 0
        if s.get("hasInit"):
            self.exec(kids[0], st)
            i += 1
        if s.get("hasVar"):
            self.exec(kids[i], st)
            i += 1
        c = self.cond(kids[i], st)
        th = kids[i + 1]
        el = kids[i + 2] if len(kids) > i + 2 else None
        res = []
        if not is_false(c):
            s1 = st.copy()
            s1.pc(c) if not is_true(c) else None
            o = self.exec(th, s1)
            out.merge_in(o, skip=("next",))
            res += o.get("next", [])
        if not is_true(c):
            s2 = st.copy()
            s2.pc(z3.Not(c)) if not is_false(c) else None
            if el is not None:
                o = self.exec(el, s2)
                out.merge_in(o, skip=("next",))
                res += o.get("next", [])
            else:
                res.append((s2, None))
        if self.separate():
            for x, _ in self.grouped(res):
                out.add("next", x)
        elif res:
            out.add("next", merge_all(res)[0])
        return out

    def s_ReturnStmt(self, s, st):
        o = Outcome()
        kids = json_keys(s)
        v = None
        if kids:
            fn = st.env.get("$fn")
            rt = (fn.get("type") or {}).get("qualType", "").split("(")[0] \
                if fn else ""
            if rt.rstrip().endswith("&"):
                v = self.ev(kids[0], st)
            else:
                v = self.val(kids[0], st)
        o.add("return", st, v)
        return o

    def s_BreakStmt(self, s, st):
        o = Outcome()
        o.add("break", st)
        return o

    def s_ContinueStmt(self, s, st):
        o = Outcome()
        o.add("continue", st)
        return o

    def s_CXXTryStmt(self, s, st):
        kids = json_keys(s)
        out = Outcome()
        self.exc.append([])
        try:
            o = self.exec(kids[0], st)
        finally:
            ex = self.exc.pop()
        out.merge_in(o)
        for h in kids[1:]:
            var = [c for c in json_keys(h) if c and c.get("kind") == "VarDecl"]
            body = [c for c in json_keys(h) if c and c.get("kind") == "CompoundStmt"]
            ty = strip(qt(var[0])).split("::")[-1] if var else None
            hit = [(x, w) for x, w in ex if ty is None or
                   catches(ty, w[1])]
            ex = [(x, w) for x, w in ex if not (ty is None or
                                                catches(ty, w[1]))]
            for x, w in hit:
                x = x.copy()
                x.env = dict(st.env)
                if var:
                    x.env[(var[0]["_tu"].name, var[0]["id"])] = \
                        self.new_root("exc", Opaque("exception"), x)
                o2 = self.exec(body[0], x)
                out.merge_in(o2)
        self.exc[-1].extend(ex)
        if "next" in out:
            out["next"] = self.grouped(out["next"]) if self.separate() \
                else [merge_all(out["next"])]
        return out

    def s_SwitchStmt(self, s, st):
        kids = [k for k in json_keys(s) if k]
        v = self.val(kids[0], st)
        body = kids[1]
        out = Outcome()
        cases, cur = [], None
        for c in json_keys(body):
            n = c
            labels = []
            while n["kind"] in ("CaseStmt", "DefaultStmt"):
                ks = json_keys(n)
                labels.append(None if n["kind"] == "DefaultStmt" else ks[0])
                n = ks[-1]
            if labels:
                cases.append((labels, [n]))
            elif cases:
                cases[-1][1].append(n)
        conds = []
        for labels, _ in cases:
            cs = [None if l is None else
                  self.binop(st, "==", self.toint(v),
                             self.toint(self.val(l, st)), None)
                  for l in labels]
            conds.append(cs)
        allc = [c for cs in conds for c in cs if c is not None]
        nodef = z3.Not(z3.Or(*allc)) if allc else TRUE
        ends = []
        fall = None
        seen_default = False
        for (labels, stmts), cs in zip(cases, conds):
            g = z3.Or(*[nodef if c is None else c for c in cs])
            seen_default = seen_default or any(c is None for c in cs)
            x = st.copy()
            x.pc(g)
            if fall is not None:
                x = merge(fall, x)
            cur = x
            dead = False
            for q in stmts:
                o = self.exec(q, cur)
                out.merge_in(o, skip=("next", "break"))
                ends += o.get("break", [])
                if not o.get("next"):
                    dead = True
                    break
                cur = merge_all(o["next"])[0]
            fall = None if dead else cur
        if fall is not None:
            ends.append((fall, None))
        if not seen_default:
            x = st.copy()
            x.pc(nodef)
            ends.append((x, None))
        if ends:
            out.add("next", merge_all(ends)[0])
        return out

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, s, st):
        init, cv, cond, inc, body = json_keys(s)
        if init:
            o = self.exec(init, st)
            st = o["next"][0][0]
        if cv:
            raise Unsupported("condition variable")
        return self.loop(s, st, cond or None, inc or None, body, True)

    def s_WhileStmt(self, s, st):
        kids = json_keys(s)
        if s.get("hasVar"):
            raise Unsupported("condition variable")
        return self.loop(s, st, kids[0], None, kids[1], True)

    def s_DoStmt(self, s, st):
        body, cond = json_keys(s)
        # do B while(c)  ==  B; while(c) B
        o = self.exec(body, st)
        out = Outcome()
        out.merge_in(o, skip=("next", "continue", "break"))
        nx = o.get("next", []) + o.get("continue", [])
        ends = list(o.get("break", []))
        if nx:
            cur, _ = merge_all(nx)
            o2 = self.loop(s, cur, cond, None, body, True)
            out.merge_in(o2, skip=("next",))
            ends += o2.get("next", [])
        if ends:
            out.add("next", merge_all(ends)[0])
        return out

    def s_CXXForRangeStmt(self, s, st):
        kids = [k for k in json_keys(s)]
        # [init, range decl, begin decl, end decl, cond, inc, loopvar, body]
        if len(kids) != 8:
            raise Unsupported("range-for")
        ini, rng, beg, end, cond, inc, var, body = kids
        if ini:
            self.exec(ini, st)
        for d in (rng, beg, end):
            self.exec(d, st)
        comb = {"kind": "CompoundStmt", "inner": [var, body],
                "_line": s.get("_line"), "_tu": s["_tu"]}
        return self.loop(s, st, cond, inc, comb, True)

    def guard(self, cond, st):
        if cond is None:
            return TRUE
        return self.cond(cond, st)

    def loop(self, node, st, cond, inc, body, pre):
        self.loopdepth += 1
        try:
            r = self.try_unroll(node, st, cond, inc, body)
            if r is not None:
                return r
            return self.loop_inv(node, st, cond, inc, body)
        finally:
            self.loopdepth -= 1

    def try_unroll(self, node, st, cond, inc, body, limit=16):
        nobs = len(self.obs)
        nexc = len(self.exc[-1])
        wsave = dict(self.writes) if self.writes is not None else None
        cur = st.copy()
        out, ends = Outcome(), []
        for it in range(limit + 1):
            g = self.guard(cond, cur)
            g = simp(g)
            if z3.is_false(g):
                ends.append((cur, None))
                break
            if not z3.is_true(g) or it == limit:
                if not z3.is_true(g) and it > 0 and self.prove_quick(
                        cur, z3.Not(g)):
                    ends.append((cur, None))
                    break
                del self.obs[nobs:]
                del self.exc[-1][nexc:]
                if wsave is not None:
                    self.writes.clear()
                    self.writes.update(wsave)
                return None
            up = self.unrolled
            self.unrolled = up + (it,)
            try:
                o = self.exec(body, cur)
            finally:
                self.unrolled = up
            out.merge_in(o, skip=("next", "continue", "break"))
            ends += o.get("break", [])
            nx = o.get("next", []) + o.get("continue", [])
            if not nx:
                break
            cur = merge_all(nx)[0]
            if inc:
                self.ev(inc, cur)
        if ends:
            out.add("next", merge_all(ends)[0])
        return out

    def iterate(self, head, cond, inc, body):
        """one iteration from `head`; returns (backedge states, exit outcomes,
        other outcomes, guard)"""
        s = head.copy()
        g = self.guard(cond, s)
        ends, back = [], []
        out = Outcome()
        if not is_true(g):
            x = s.copy()
            x.pc(z3.Not(g))
            ends.append((x, None))
        if not is_false(g):
            if not is_true(g):
                s.pc(g)
            ghead = s.copy()
            o = self.exec(body, s)
            out.merge_in(o, skip=("next", "continue", "break"))
            ends += o.get("break", [])
            nx = o.get("next", []) + o.get("continue", [])
            for b, _ in nx:
                if inc:
                    self.ev(inc, b)
                back.append(b)
        return back, ends, out, g

    def havoc_set(self, st, wset):
        s = st.copy()
        for key, loc in sorted(wset.items(), key=lambda t: str(t[0])):
            if loc.root not in s.mem:
                continue
            path = []
            for p in loc.path:
                if not isinstance(p, str):
                    break
                path.append(p)
            l = Loc(loc.root, path)
            if l.path != loc.path:      # write to an element
                v = self.read(s, l)
                nm = str(path[-1] if path else loc.root)
                nv = Vec(z3.Const(self.name("h_" + nm), v.arr.sort()),
                         v.size, v.et)
            else:
                v = self.read_raw(s, l)
                nv = self.havoc_like(v, "h_" + str(
                    path[-1] if path else loc.root).strip("$"), s,
                    self.leaf_type(s, l))
            w, self.writes = self.writes, None
            self.write(s, l, nv)
            self.writes = w
        return s

    def leaf_type(self, st, loc):
        v = st.mem[loc.root]
        ct = self.root_types.get(loc.root) if hasattr(self, "root_types") \
            else None
        for p in loc.path:
            if isinstance(v, Rec) and v.name in self.prog.records:
                ct = ctype(dict(self.prog.records[v.name]["fields"])[p])
                v = v.f[p]
            else:
                return None
        return ct

    def closed_writes(self, wset):
        """drop entries that are covered by a shorter path; element writes and
        whole writes to the same leaf -> whole write"""
        return wset

    def write_set(self, st, cond, inc, body):
        wset = {}
        self.dry += 1
        save_w, save_r = self.writes, self.recording
        self.recording = False
        try:
            for _ in range(6):
                self.writes = {}
                h = self.havoc_set(st, wset)
                self.exc.append([])
                nob = len(self.obs)
                try:
                    back, ends, out, g = self.iterate(h, cond, inc, body)
                finally:
                    self.exc.pop()
                    del self.obs[nob:]
                new = {k: l for k, l in self.writes.items()
                       if l.root in st.mem}
                grown = False
                for k, l in new.items():
                    if k not in wset:
                        wset[k] = l
                        grown = True
                    else:
                        o = wset[k]
                        if any(not isinstance(p, str) for p in o.path) and \
                                all(isinstance(p, str) for p in l.path):
                            wset[k] = l
                            grown = True
                if not grown:
                    break
        finally:
            self.writes, self.recording = save_w, save_r
            self.dry -= 1
        # reduce: remove entries below a whole-written prefix
        red = {}
        for k, l in wset.items():
            if any(k2 != k and k[:len(k2)] == k2 and all(
                    isinstance(p, str) for p in wset[k2].path)
                    for k2 in wset):
                continue
            red[k] = l
        if self.writes is not None:
            for k, l in red.items():
                self.writes.setdefault(k, l)
        return red

    def leaves(self, st, wset):
        """scalar / array leaves below the written locations"""
        out = []

        def go(l, v):
            if isinstance(v, Rec):
                for k, x in v.f.items():
                    go(l.sub(k), x)
            elif v is not None:
                out.append((l, v))
        for k, loc in sorted(wset.items(), key=lambda t: str(t[0])):
            path = []
            for p in loc.path:
                if not isinstance(p, str):
                    break
                path.append(p)
            l = Loc(loc.root, path)
            v = self.read_raw(st, l)
            go(l, v)
        return out

    def loop_inv(self, node, st, cond, inc, body):
        self.line = node.get("_line") or self.line
        line = self.line
        wset = self.write_set(st, cond, inc, body)
        if self.dry:
            # only the write set matters
            self.dry_loop_exit = None
            h = self.havoc_set(st, wset)
            self.exc.append([])
            back, ends, out, g = self.iterate(h, cond, inc, body)
            ex = self.exc.pop()
            self.exc[-1].extend(ex)
            if ends:
                out.add("next", merge_all(ends)[0])
            return out
        L = Loop()
        L.I, L.entry, L.node = self, st, node
        L.wset = wset
        L.stack = list(self.loopstack)
        # ---- shape of one iteration (for counters and guards)
        self.dry += 1
        rec, self.recording = self.recording, False
        w, self.writes = self.writes, None
        self.exc.append([])
        try:
            h = self.havoc_set(st, wset)
            back, ends, out, g = self.iterate(h, cond, inc, body)
        finally:
            self.exc.pop()
            self.dry -= 1
            self.recording, self.writes = rec, w
        L.ghead, L.guard_expr = h, g
        L.leaves = self.leaves(h, wset)
        L.ints = [l for l, v in L.leaves
                  if isinstance(v, z3.ExprRef) and z3.is_int(v)]
        L.bools = [l for l, v in L.leaves
                   if isinstance(v, z3.ExprRef) and z3.is_bool(v)]
        L.reals = [l for l, v in L.leaves
                   if isinstance(v, z3.ExprRef) and z3.is_real(v)]
        L.vecs = [l for l, v in L.leaves if isinstance(v, Vec)]
        L.counters = []
        L.strided = []
        for l in L.ints:
            v0 = self.read(h, l)
            ds = []
            for b in back:
                ds.append(simp(self.read(b, l) - v0))
            if ds and all(z3.is_int_value(d) for d in ds):
                vals = {d.as_long() for d in ds}
                if vals == {1} or vals == {-1}:
                    L.counters.append(Counter(l, self.read(st, l),
                                              vals.pop()))
                elif all(x > 0 for x in vals) or all(x < 0 for x in vals):
                    L.strided.append(Counter(l, self.read(st, l), None))
        # iterators used as counters (range-for)
        for l, v in L.leaves:
            if isinstance(v, Iter):
                ds = [simp(self.read(b, l).pos - v.pos) for b in back]
                if ds and all(z3.is_int_value(d) and d.as_long() == 1
                              for d in ds):
                    c = Counter(l, self.read(st, l).pos, 1)
                    c.iter = True
                    L.counters.append(c)
        L.nest = [c for lp in L.stack for c in lp.counters[:1]]
        ck = (self.curfn.name if self.curfn else "?", node["id"],
              self.callpath, self.unrolled, self.phase1,
              tuple(lp.node["id"] for lp in L.stack))
        prev = self.hcache.get(ck)
        hk = "%s#%d%s" % ("/".join(self.callpath), self.ordinal(node, st.env.get("$fn")),
                          "".join("[%s]" % u for u in self.unrolled))
        hint = None if self.hints is None else self.hints.get(hk)
        rec, self.recording = self.recording, False
        self.loopstack.append(L)

        def houdini(cands, base):
            """largest inductive subset of cands (base is already inductive)"""
            if prev is not None:
                cands = [c for c in cands if c[0] in prev]
            if hint is not None:
                # (the recorded outcome; it is verified like any other)
                return [c for c in cands if c[0] in hint["live"]]
            live = []
            fms = []
            for nm, f in cands:
                try:
                    fm = f(st)
                except KeyError:
                    continue
                if fm is None:
                    continue
                fms.append((nm, f, fm))
            ok = self.prove_many([(st, fm) for _, _, fm in fms])
            live = [(nm, f) for (nm, f, _), r in zip(fms, ok) if r]
            for rnd in range(12):
                if not live:
                    break
                h = self.havoc_set(st, wset)
                for nm, f in base + live:
                    h.fact(f(h))
                L.head = h
                self.exc.append([])
                nob = len(self.obs)
                try:
                    back, ends, out, g = self.iterate(h, cond, inc, body)
                finally:
                    self.exc.pop()
                    del self.obs[nob:]
                qs = [(b, f(b)) for nm, f in live for b in back]
                ok = self.prove_many(qs)
                nb = len(back)
                keep = [c for n, c in enumerate(live)
                        if all(ok[n * nb:(n + 1) * nb])]
                if os.environ.get("DVDBG"):
                    print("HOUD", hk, self.phase1, rnd, [c[0] for c in live], [c[0] for c in keep])
                if len(keep) == len(live):
                    break
                live = keep
            names = {nm for nm, _ in live}
            return [(nm, f) for nm, f in live if ":flag" not in nm
                    or nm.split(":flag")[0] not in names]
        try:
            ph = self.phase1
            self.phase1 = True
            live = houdini(self.generic_candidates(L), [])
            self.phase1 = ph
            names = {nm for nm, _ in live}
            L.allbools = L.bools
            L.bools = [b for n, b in enumerate(L.allbools)
                       if "bool%d=entry" % n not in names]
            if self.curfn is not None and not self.phase1:
                live = live + houdini(self.special_candidates(L), live)
            self.hcache[ck] = {nm for nm, _ in live}
            L.live = live
            # ---- final pass
            self.recording = rec
            h = self.havoc_set(st, wset)
            for nm, f in live:
                h.fact(f(h))
            L.head = h
            # (the candidates that survived are inductive: record them)
            if self.recording:
                self.line = line
                for nm, f in live:
                    self.oblige_inv("invariant-entry", nm, f(st), st)
            back, ends, out, g = self.iterate(h, cond, inc, body)
            if self.recording:
                self.line = line
                for nm, f in live:
                    for b in back:
                        self.oblige_inv("invariant-preserved", nm, f(b), b)
                self.line = line
                m = self.termination(L, h, g, back, hint)
                self.loops[ck] = [nm for nm, _ in live]
                self.found[hk] = {"live": [nm for nm, _ in live],
                                  "measure": m}
        finally:
            self.loopstack.pop()
            self.recording = rec
        if self.recording:
            pass
        if ends:
            m = merge_all(ends)[0]
            out.add("next", m)
        return out

    rl = 3000000

    def oblige_inv(self, kind, nm, goal, st):
        self.obs.append(Obl(self.curfn.name if self.curfn else "?", kind,
                            nm, self.line, st.formulas(), goal))

    def guard_atoms(self, g):
        """[(lo, hi, strict)] meaning lo < hi / lo <= hi"""
        out = []

        def go(e, pos):
            if z3.is_and(e) and pos:
                for c in e.children():
                    go(c, True)
            elif z3.is_or(e) and not pos:
                for c in e.children():
                    go(c, False)
            elif z3.is_not(e):
                go(e.arg(0), not pos)
            elif z3.is_lt(e) or z3.is_le(e) or z3.is_gt(e) or z3.is_ge(e):
                a, b = e.arg(0), e.arg(1)
                if not z3.is_int(a):
                    return
                if z3.is_gt(e) or z3.is_ge(e):
                    a, b = b, a
                strict = z3.is_lt(e) or z3.is_gt(e)
                if not pos:
                    a, b, strict = b, a, not strict
                out.append((a, b, strict))
            elif z3.is_distinct(e) or (z3.is_eq(e) and not pos) or \
                    (z3.is_distinct(e)):
                a, b = e.arg(0), e.arg(1)
                if z3.is_int(a):
                    out.append((a, b, None))
        go(g, True)
        return out

    def ordinal(self, node, fn):
        """number of the loop in its function"""
        k = node["id"]
        if k not in self.ords:
            n = 0
            todo = [fn]
            while todo:
                x = todo.pop()
                if not isinstance(x, dict):
                    continue
                if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt",
                                     "CXXForRangeStmt"):
                    self.ords.setdefault(x["id"], n)
                    n += 1
                todo.extend(reversed(x.get("inner", [])))
        return self.ords.get(k, -1)

    def prove_many(self, qs):
        """prove_quick for many (state, goal), in forked children"""
        n = min(self.jobs, (len(qs) + 1) // 2)
        if n < 2:
            return [self.prove_quick(s, g, ground=False, rl=self.rl)
                    for s, g in qs]
        import os
        res = [False] * len(qs)
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    self.jobs = 1
                    out = "".join("%d " % i for i in range(k, len(qs), n)
                                  if self.prove_quick(*qs[i], ground=False,
                                                      rl=self.rl))
                    os.write(w, ("ok " + out).encode())
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            b = b""
            while True:
                x = os.read(r, 65536)
                if not x:
                    break
                b += x
            os.close(r)
            os.waitpid(pid, 0)
            for i in b.decode().split()[1:]:
                res[int(i)] = True
        prover.STAT["queries"] += len(qs)
        return res

    def termination(self, L, h, g, back, hint=None):
        if not back:
            return None
        s = h.copy()
        if not is_true(g):
            s.pc(g)
        cands = []
        subst_h = []
        for l, v in L.leaves:
            subst_h.append((l, self.read(h, l)))
        for a, b, strict in self.guard_atoms(g):
            cands.append(("guard", simp(b - a)))
            if strict is None:
                cands.append(("guard", simp(a - b)))
        for nm, f in (self.curfn.measures(L) if self.curfn else []):
            cands.append((nm, f))

        def at(m, b):
            if callable(m) and not isinstance(m, z3.ExprRef):
                return m(b)
            subs = []
            for l, v in L.leaves:
                hv, bv = self.read(h, l), self.read(b, l)
                if isinstance(hv, z3.ExprRef):
                    subs.append((hv, bv))
                elif isinstance(hv, Vec):
                    subs.append((hv.arr, bv.arr))
                    if z3.is_const(hv.size) and not z3.is_int_value(hv.size):
                        subs.append((hv.size, bv.size))
                elif isinstance(hv, Iter):
                    subs.append((hv.pos, bv.pos))
            return z3.substitute(m, *subs)
        if hint is not None and hint["measure"] is not None and \
                hint["measure"] < len(cands):
            m = cands[hint["measure"]][1]
            for b in back:
                self.oblige_inv("termination", "measure " + str(
                    cands[hint["measure"]][0]), z3.And(
                        at(m, h) >= 0, at(m, b) < at(m, h)), b)
            return hint["measure"]
        for nc, (nm, m) in enumerate(cands):
            m0 = at(m, h)
            if all(self.prove_quick(
                    b, z3.And(m0 >= 0, at(m, b) < m0), ground=False,
                    rl=self.rl) for b in back):
                for b in back:
                    self.oblige_inv("termination", "measure " + str(nm),
                                    z3.And(m0 >= 0, at(m, b) < m0), b)
                return nc
        # no measure found: record a failing obligation
        ms = [at(m, h) for _, m in cands]
        for b in back:
            self.oblige_inv("termination", "no decreasing measure found",
                            FALSE if not cands else z3.And(
                                ms[0] >= 0, at(cands[0][1], b) < ms[0]), b)

    def generic_candidates(self, L):
        I = self
        out = []

        def add(nm, f):
            out.append((nm, f))
        atoms = self.guard_atoms(L.guard_expr)
        hv = {}
        for l in L.ints:
            hv[l.key()] = self.read(L.ghead, l)

        def at_state(expr, s):
            subs = []
            for l, v in L.leaves:
                a = I.read(L.ghead, l)
                b = I.read(s, l)
                if isinstance(a, z3.ExprRef):
                    subs.append((a, b))
                elif isinstance(a, Vec):
                    subs.append((a.arr, b.arr))
                    if z3.is_const(a.size) and not z3.is_int_value(a.size):
                        subs.append((a.size, b.size))
                elif isinstance(a, Iter):
                    subs.append((a.pos, b.pos))
            return z3.substitute(expr, *subs) if subs else expr
        L.at_state = at_state

        def rd(l):
            def f(s):
                v = I.read(s, l)
                return v.pos if isinstance(v, Iter) else v
            return f
        for n, c in enumerate(L.counters):
            r = rd(c.loc)
            init = c.init
            if c.dir > 0:
                add("counter%d>=init" % n, lambda s, r=r, i=init: r(s) >= i)
            else:
                add("counter%d<=init" % n, lambda s, r=r, i=init: r(s) <= i)
        for n, c in enumerate(L.strided):
            r = rd(c.loc)
            add("stride%d>=init" % n,
                lambda s, r=r, i=c.init: r(s) >= i)
        for n, (a, b, strict) in enumerate(atoms):
            add("guard%d" % n, lambda s, a=a, b=b: at_state(a, s)
                <= at_state(b, s))
        for n, l in enumerate(L.ints):
            if any(c.loc.key() == l.key() for c in L.counters):
                continue
            e0 = self.read(L.entry, l)
            add("int%d=entry" % n, lambda s, l=l, e0=e0: I.read(s, l) == e0)
            add("int%d>=entry" % n, lambda s, l=l, e0=e0: I.read(s, l) >= e0)
            add("int%d<=entry" % n, lambda s, l=l, e0=e0: I.read(s, l) <= e0)
        for n, l in enumerate(L.bools):
            e0 = self.read(L.entry, l)
            add("bool%d=entry" % n, lambda s, l=l, e0=e0: I.read(s, l) == e0)
            for m, c in enumerate(L.counters):
                r = rd(c.loc)
                for pol in (True, False):
                    add("progress%d=>bool%d=%s" % (m, n, pol),
                        lambda s, l=l, r=r, c=c, pol=pol: z3.Implies(
                            r(s) != c.init,
                            I.read(s, l) == z3.BoolVal(pol)))
        for n, l in enumerate(L.vecs):
            e0 = self.read(L.entry, l)
            hvv = self.read(L.ghead, l)
            if not same(hvv.size, e0.size):
                add("vec%d.size=entry" % n,
                    lambda s, l=l, e0=e0: I.read(s, l).size == e0.size)
                for m, c in enumerate(L.counters):
                    r = rd(c.loc)
                    add("vec%d.size=counter%d" % (n, m),
                        lambda s, l=l, r=r: I.read(s, l).size == r(s))
        return out

    def special_candidates(self, L):
        out, seen = [], set()
        for nm, f in self.curfn.invariants(L):
            k = nm
            while k in seen:
                k += "'"
            seen.add(k)
            out.append((k, f))
        return out


def params(fn):
    return [c for c in json_keys(fn) if c["kind"] == "ParmVarDecl"]


def norm_sig(s):
    return s.replace("struct ", "").replace("sp::image::", "").replace(
        "sp::types::", "").replace("sp::graph::disparity::", "").replace(
        "sp::graph::lowest_penalties::", "").replace(" ", "").replace(
        "ULONG", "unsignedlong").replace("FLOAT", "double")


def is_throw(e):
    while e["kind"] in ("ExprWithCleanups", "ParenExpr"):
        e = json_keys(e)[0]
    return e["kind"] == "CXXThrowExpr"


EXC_BASE = {"multiple_occurrences": "error_with_option_name",
            "unknown_option": "error_with_option_name",
            "error_with_option_name": "error", "error": "logic_error",
            "bad_any_cast": "bad_cast", "bad_cast": "exception",
            "invalid_argument": "logic_error", "out_of_range": "logic_error",
            "length_error": "logic_error", "domain_error": "logic_error",
            "logic_error": "exception", "runtime_error": "exception",
            "bad_alloc": "exception", "exception": None}


def catches(handler, thrown):
    t = thrown
    while t is not None:
        if t == handler:
            return True
        t = EXC_BASE.get(t)
    return False
