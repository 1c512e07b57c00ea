"""The domain of symbolic floating-point values: real arithmetic (rounding is treated as absent; every check that uses
this domain says so).  A value is a polynomial with rational coefficients over atoms: inputs, sines and cosines of base
angles, square roots, inverse trigonometric angles, integer terms.  Identities are decided by a normal form
(sin^2 + cos^2 = 1, sqrt(x)^2 = x, angle addition, r cos(atan2(y, x)) = x); order and branch conditions go to z3."""
import itertools, math
from fractions import Fraction as Fr
import z3
from sx import Unsupported, band, bor, bnot, is_false, is_true, State, zb, zi

ONE = ()
HALFPI = Fr(math.pi) / 2


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r


def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); x = r.get(k, 0) + c * d
            if x: r[k] = x
            else: r.pop(k, None)
    return r


def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}


def const(p):
    if not p: return Fr(0)
    if len(p) == 1 and ONE in p: return p[ONE]
    return None


class RV:
    """polynomial value"""
    __slots__ = ("p",)

    def __init__(s, p): s.p = p

    def __repr__(s): return "RV(%d terms)" % len(s.p)


class RAlt:
    """value by cases: [(condition, RV)], conditions exhaustive and exclusive under the path condition"""
    __slots__ = ("alts",)

    def __init__(s, alts): s.alts = alts


class Atom:
    __slots__ = ("name", "kind", "arg", "z", "lo", "hi", "id")


class RealDom:
    concrete_ok = True

    def __init__(s):
        s.atoms = []; s.ex = None; s.angles = []; s.sq = []; s.roots = []; s.prods = {}; s.cands = []; s.obls = 0
        s.guard = True; s.clear_atan = False; s.clr = {}; s.hints = []; s.pw = {}; s.hyp = []; s.logs = []; s.invt = {}; s.ints = {}; s.floors = []; s.quots = []; s.lins = {}; s.linm = {}
        s.maxalts = 600; s.known = []; s.sgn = {}; s.nvals = ({}, {})

    # -------------------------------------------------------------- atoms
    def atom(s, name, kind="in", arg=None, lo=None, hi=None, z=None):
        a = Atom(); a.name = name; a.kind = kind; a.arg = arg; a.lo = lo; a.hi = hi; a.id = len(s.atoms)
        a.z = z if z is not None else z3.Real(name if kind == "in" else "%s#%d" % (name, a.id))
        s.atoms.append(a)
        if s.ex is not None and z is None:
            if lo is not None: s.ex.axioms.append(a.z >= s.q(lo))
            if hi is not None: s.ex.axioms.append(a.z <= s.q(hi))
        return a

    def q(s, x):
        x = Fr(x)
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))

    def v(s, a): return RV({((a.id, 1),): Fr(1)})

    def input(s, ex, name, lo=None, hi=None):
        s.ex = ex; ex.fdom = s
        a = s.atom(name, "in", None, lo, hi)
        ex.inputs[name] = a.z
        return s.v(a)

    def lift(s, x):
        if isinstance(x, (RV, RAlt)): return x
        if isinstance(x, float):
            if x != x or x in (math.inf, -math.inf): raise Unsupported("infinite or undefined constant")
            return RV({ONE: Fr(x)} if x else {})
        if isinstance(x, (int, Fr)): return RV({ONE: Fr(x)} if x else {})
        raise Unsupported("not a real value: %r" % (x,))

    # -------------------------------------------------------------- z3
    def z(s, v):
        v = s.lift(v)
        if isinstance(v, RAlt):
            r = s.z(v.alts[-1][1])
            for g, x in v.alts[:-1][::-1]: r = z3.If(zb(g), s.z(x), r)
            return r
        ts = []
        for m in sorted(v.p):
            t = None
            for a, e in m:
                for _ in range(e): t = s.atoms[a].z if t is None else t * s.atoms[a].z
            c = v.p[m]
            ts.append(s.q(c) if t is None else t if c == 1 else s.q(c) * t)
        if not ts: return s.q(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def bounds(s, v):
        """interval of a polynomial, None for an open end"""
        if isinstance(v, RAlt):
            b = [s.bounds(x) for _, x in v.alts]
            return (None if any(x[0] is None for x in b) else min(x[0] for x in b), None if any(x[1] is None for x in b) else max(x[1] for x in b))
        if s.sgn:
            g = s.sign(v.p)
            if g is not None and not g.p.keys() - {ONE}: return (Fr(1, 10 ** 60), None) if g.p[ONE] > 0 else (None, -Fr(1, 10 ** 60))
        INF = math.inf

        def mu(x, y): return 0 if x == 0 or y == 0 else x * y if abs(x) != INF and abs(y) != INF else math.copysign(INF, x) * math.copysign(1, y)

        def iv(a, b, c, d):
            q = [mu(a, c), mu(a, d), mu(b, c), mu(b, d)]
            return min(q), max(q)
        lo = hi = Fr(0)
        for m, c in v.p.items():
            a, b = Fr(1), Fr(1)
            for k, e in m:
                A = s.atoms[k]; x = -INF if A.lo is None else Fr(A.lo); y = INF if A.hi is None else Fr(A.hi); u, w = Fr(1), Fr(1)
                for _ in range(e): u, w = iv(u, w, x, y)
                if e % 2 == 0: u = max(u, Fr(0))
                a, b = iv(a, b, u, w)
            a, b = iv(a, b, c, c)
            if a == -INF: lo = -INF
            elif lo != -INF: lo += a
            if b == INF: hi = INF
            elif hi != INF: hi += b
        return None if lo == -INF else lo, None if hi == INF else hi

    # -------------------------------------------------------------- arithmetic
    def feasible(s, ex, st, g):
        if is_false(g): return False
        if is_true(g) or st is None: return True
        return ex.feasible(tuple(st.pc) + (g,))

    def alts(s, v): return v.alts if isinstance(v, RAlt) else [(True, v)]

    def mk(s, alts):
        """collapse equal values"""
        out = []
        for g, v in alts:
            if is_false(g): continue
            for i, (h, w) in enumerate(out):
                if w.p == v.p: out[i] = (bor(h, g), w); break
            else: out.append((g, v))
        if len(out) == 1: return out[0][1]
        if len(out) > s.maxalts: raise Unsupported("too many cases in a real value")
        return RAlt(out)

    def map2(s, ex, st, a, b, f):
        a, b = s.lift(a), s.lift(b)
        if isinstance(a, RV) and isinstance(b, RV):
            r = f(a, b)
            return r
        A, B = s.alts(a), s.alts(b)
        if len(A) == len(B) and all(s.same(x[0], y[0]) for x, y in zip(A, B)):
            prs = [(g, x, y) for (g, x), (_, y) in zip(A, B)]
        else:
            prs = []
            for g, x in A:
                for h, y in B:
                    c = band(g, h)
                    if len(A) > 1 and len(B) > 1 and not s.feasible(ex, st, c): continue
                    prs.append((c, x, y))
        out = []; g0 = s.guard
        for g, x, y in prs:
            s.guard = band(g0, g); r = f(x, y); s.guard = g0
            for h, w in s.alts(r): out.append((band(g, h), w))
        return s.mk(out)

    def same(s, a, b):
        if a is True or b is True: return a is b
        if isinstance(a, bool) or isinstance(b, bool): return a is b
        return a.eq(b)

    def map1(s, ex, st, a, f):
        a = s.lift(a)
        if isinstance(a, RV): return f(a)
        out = []; g0 = s.guard
        for g, x in a.alts:
            if not s.feasible(ex, st, g): continue
            s.guard = band(g0, g); r = f(x); s.guard = g0
            for h, w in s.alts(r): out.append((band(g, h), w))
        return s.mk(out)

    def ob(s, ex, st, goal, name, inst):
        ex.oblige(st if st is None or s.guard is True else st.also(s.guard), goal, name, inst)

    def bin(s, ex, st, o, a, b, ty, inst):
        s.ex = ex
        S = s.simp if s.known else lambda v: v
        if o == "fadd": return s.map2(ex, st, a, b, lambda x, y: S(RV(padd(x.p, y.p))))
        if o == "fsub": return s.map2(ex, st, a, b, lambda x, y: S(RV(padd(x.p, y.p, -1))))
        if o == "fmul": return s.map2(ex, st, a, b, lambda x, y: S(RV(s.red(pmul(x.p, y.p)))))
        if o == "fdiv": return s.map2(ex, st, a, b, lambda x, y: S(s.div(ex, st, x, y, inst)))
        if o == "frem": return s.fmod(ex, st, a, b, inst)
        raise Unsupported(o)

    def add(s, a, b): return s.bin(s.ex, None, "fadd", a, b, None, None)
    def sub(s, a, b): return s.bin(s.ex, None, "fsub", a, b, None, None)
    def mul(s, a, b): return s.bin(s.ex, None, "fmul", a, b, None, None)

    def div(s, ex, st, x, y, inst):
        c = const(y.p)
        if c is not None:
            if c == 0: raise Unsupported("division by zero")
            return RV(pscale(x.p, 1 / c))
        if not x.p:
            lo, hi = s.bounds(y)
            if not (lo is not None and lo > 0 or hi is not None and hi < 0): s.ob(ex, st, s.z(y) != 0, "divisor is not zero", inst)
            return RV({})
        for n, d, q in s.quots:
            if n == x.p and d == y.p: return s.v(q)
        q = s.atom("quot", "quot", (x, y)); s.clr[q.id] = (x.p, y.p)
        s.quots.append((x.p, y.p, q))
        lo, hi = s.bounds(y); T = Fr(1, 10 ** 60)
        sgn = lambda l, h: 1 if l is not None and l >= T else -1 if h is not None and h <= -T else 0     # T stands for: not zero
        sy = sgn(lo, hi)
        if sy:
            sx = sgn(*s.bounds(x)) * sy
            if sx > 0: q.lo = T; ex.axioms.append(q.z > 0)
            elif sx < 0: q.hi = -T; ex.axioms.append(q.z < 0)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            ex.auto += 1; zn = s.z(x) if lo is not None and lo > 0 else -s.z(x)
            ex.axioms.append(z3.And(z3.Implies(zn > 0, q.z > 0), z3.Implies(zn < 0, q.z < 0), z3.Implies(zn == 0, z3.And(q.z == 0, q.z * q.z == 0))))
        else: s.ob(ex, st, s.z(y) != 0, "divisor is not zero", inst)
        ex.axioms.append(z3.Implies(s.z(y) != 0, q.z * s.z(y) == s.z(x)))
        if len(y.p) == 1:
            (m, k), = y.p.items()
            if len(m) == 1 and m[0][1] == 1: s.prods[tuple(sorted((q.id, m[0][0])))] = pscale(x.p, 1 / k)
        return s.v(q)

    def num(s, a, k):
        """value of an atom at the k-th sample point"""
        v = s.nvals[k]
        if a in v: return v[a]
        import random
        A = s.atoms[a]; ev = lambda p: s.evp(p, k); r = None
        try:
            if A.kind == "in":
                lo = float(A.lo) if A.lo is not None else -3.0; hi = float(A.hi) if A.hi is not None else 3.0
                x = random.Random(a * 7 + k).random()
                if lo > 0 and hi > 30 * lo: lo, hi = max(lo, .5), min(hi, 2.5)
                elif hi - lo > 30: lo, hi = max(lo, -3.0), min(hi, 3.0)
                r = lo + (hi - lo) * x
            elif a in s.clr: r = ev(s.clr[a][0]) / ev(s.clr[a][1])
            elif A.kind == "quot": r = ev(A.arg[0].p) / ev(A.arg[1].p)
            elif A.kind == "sin" and A.arg is not None: r = math.sin(ev(A.arg.p))
            elif A.kind == "cos" and A.arg is not None: r = math.cos(ev(A.arg.p))
            elif A.kind == "sqrt": r = math.sqrt(max(0.0, ev(A.arg.p)))
            elif A.kind in ("sinh", "cosh", "asinh", "log", "exp"): r = getattr(math, A.kind)(ev(A.arg.p))
            elif A.kind == "cbrt": x = ev(A.arg.p); r = math.copysign(abs(x) ** (1 / 3), x)
            elif A.kind == "angle" and a in s.invt: r = math.atan2(ev(s.invt[a][0].p), ev(s.invt[a][1].p))
        except (ArithmeticError, TypeError, ValueError): pass
        if r is None: r = math.nan
        v[a] = r
        return r

    def evp(s, p, k):
        r = 0.0
        for m, c in p.items():
            x = float(c)
            for a, e in m: x *= s.num(a, k) ** e
            r += x
        return r

    def simp(s, v):
        """a value the specification names, if v is identically equal to one"""
        f = [s.evp(v.p, k) for k in (0, 1)]
        for w, g in s.known:
            if w.p == v.p: return w
            if all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(f, g)) and s.is_zero(padd(v.p, w.p, -1)): return w
        return v

    def know(s, vs):
        for v in vs: v = RV(s.nf(s.lift(v).p)); s.known.append((v, [s.evp(v.p, k) for k in (0, 1)]))

    def positive(s, *vs):
        """the caller's path condition says that these values are positive"""
        for v in vs: s.sgn[frozenset(s.nf(s.lift(v).p).items())] = s.lift(1.0)

    def scaled(s, k, *vs):
        """k is positive: k v has the sign of v"""
        for v in vs: s.sgn[frozenset(s.nf(s.mul(k, v).p).items())] = s.lift(v)

    def sign(s, p):
        """a value of the same sign as p, if one was named"""
        if const(p) is not None: return None
        g = s.sgn.get(frozenset(p.items()))
        if g is not None: return g
        g = s.sgn.get(frozenset((m, -c) for m, c in p.items()))
        return None if g is None else RV(pscale(g.p, Fr(-1)))

    def neg(s, ex, v): return s.map1(ex, None, v, lambda x: RV(pscale(x.p, Fr(-1))))

    def ite(s, ex, c, a, b):
        s.ex = ex
        a, b = s.lift(a), s.lift(b)
        return s.mk([(band(c, g), x) for g, x in s.alts(a)] + [(band(bnot(c), g), x) for g, x in s.alts(b)])

    def cmp(s, ex, st, p, a, b, inst):
        s.ex = ex
        q = p[1:]
        if p == "ord": return True
        if p == "uno": return False
        if p in ("true", "false"): return p == "true"
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b: return p[0] == "u"
        for x, y, k in ((a, b, 1), (b, a, -1)):
            if isinstance(x, float) and abs(x) == math.inf:
                big = x > 0
                return {"eq": False, "ne": True, "lt": not big if k > 0 else big, "le": not big if k > 0 else big,
                        "gt": big if k > 0 else not big, "ge": big if k > 0 else not big}[q]

        def one(x, y):
            d = padd(x.p, y.p, -1)
            c = const(d)
            if c is not None:
                return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[q]
            lo, hi = s.bounds(RV(d))
            if lo is not None and lo > 0: return q in ("ne", "gt", "ge")
            if hi is not None and hi < 0: return q in ("ne", "lt", "le")
            if lo is not None and lo >= 0 and q in ("lt", "ge"): return q == "ge"
            if hi is not None and hi <= 0 and q in ("gt", "le"): return q == "le"
            if s.sgn:
                g = s.sign(d)
                if g is not None and g.p != d: return one(g, RV({}))
            for w in (x, y):
                if const(w.p) is None and not any(w.p == t.p for t in s.cands): s.cands.append(w)
            u, w = s.z(x), s.z(y)
            return {"eq": u == w, "ne": u != w, "lt": u < w, "le": u <= w, "gt": u > w, "ge": u >= w}[q]
        a, b = s.lift(a), s.lift(b)
        if isinstance(a, RV) and isinstance(b, RV): return one(a, b)
        rs = []
        for g, x in s.alts(a):
            for h, y in s.alts(b):
                c = band(band(g, h), one(x, y))
                if not is_false(c): rs.append(c)
        r = False
        for c in rs: r = bor(r, c)
        return r

    def convert(s, ex, st, op, t1, t2, v):
        if isinstance(v, (float, Fr)):
            if op == "fptrunc" and t2.w == 32:
                import struct
                return struct.unpack("<f", struct.pack("<f", v))[0]
            if op == "fptrunc" and t2.w == 64: return float(v)
            return v
        return v            # rounding of a conversion is rounding: absent here

    # -------------------------------------------------------------- integers
    def from_int(s, ex, st, v, ty):
        s.ex = ex
        if isinstance(v, int): return s.lift(v)
        k = v.get_id()
        if k not in s.ints:
            lo, hi = ex.r(v)
            s.ints[k] = (s.atom("int", "int", v, lo, hi, z=z3.ToReal(v)), v)
        return s.v(s.ints[k][0])

    def unint(s, x):
        """integer term if x is an integer-coefficient combination of integer atoms"""
        t = None
        for m, c in x.p.items():
            if c.denominator != 1: return None
            if m == ONE: u = int(c)
            elif len(m) == 1 and m[0][1] == 1 and s.atoms[m[0][0]].kind == "int": u = s.atoms[m[0][0]].arg * int(c)
            else: return None
            t = u if t is None else t + u
        return 0 if t is None else t

    def floor_of(s, ex, st, x, inst, what):
        n = s.unint(x)
        if n is not None:
            if z3.is_expr(n):
                lo, hi = s.bounds(x)
                ex.setr(n, int(lo), int(hi))
            return n
        c = const(x.p)
        if c is not None: return math.floor(c)
        # integer part plus a remainder in 0..1
        ip = {m: k for m, k in x.p.items() if len(m) == 1 and m[0][1] == 1 and k.denominator == 1 and s.atoms[m[0][0]].kind == "int"}
        if ip:
            rest = padd(x.p, ip, -1); lo, hi = s.bounds(RV(rest))
            if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
                ip = padd(ip, {ONE: Fr(math.floor(lo))}); n = s.unint(RV(ip)); lo, hi = s.bounds(RV(ip))
                ex.setr(n, int(lo), int(hi))
                return n
        n = z3.Int("floor!%d" % next(ex.fresh_n))
        zx = s.z(x)
        ex.axioms.append(z3.And(z3.ToReal(n) <= zx, zx < z3.ToReal(n) + 1)); s.floors.append((n, x))
        lo, hi = s.bounds(x)
        L = math.floor(lo) if lo is not None else -(1 << 62); H = math.floor(hi) if hi is not None else 1 << 62
        ex.setr(n, L, H)
        return n

    def to_int(s, ex, st, v, t1, t2, op, inst):
        s.ex = ex
        if isinstance(v, float): v = s.lift(v)

        def one(x, g=True):
            c = const(x.p)
            if c is not None: return int(c)
            fl = s.floor_of(ex, st, x, inst, "conversion")
            if s.unint(x) is not None: n = fl
            else:
                lo, hi = s.bounds(x)
                if lo is not None and lo >= 0: n = fl
                else:
                    n = z3.If(z3.Or(s.z(x) >= 0, z3.ToReal(fl) == s.z(x)), fl, fl + 1)
                    a, b = ex.r(fl); ex.setr(n, a, b + 1)
            mn, mx = (0, (1 << t2.w) - 1) if op == "fptoui" else (-(1 << (t2.w - 1)), (1 << (t2.w - 1)) - 1)
            if z3.is_expr(n):
                a, b = ex.r(n)
                if a < mn or b > mx:
                    ex.oblige(st if g is True else st.also(g), z3.And(n >= mn, n <= mx), "float fits the integer it is converted to", inst)
                    ex.setr(n, max(a, mn), min(b, mx))
            if op == "fptoui" and z3.is_expr(n) and ex.r(n)[1] >= 1 << (t2.w - 1):
                n = z3.If(n >= 1 << (t2.w - 1), n - (1 << t2.w), n)
            return n
        if isinstance(v, RV): return one(v)
        r = None
        for g, x in v.alts[::-1]:
            n = one(x, g)
            r = n if r is None else ex.merge_val(g, n, r)
        return r

    # -------------------------------------------------------------- functions
    def call(s, ex, st, name, a, inst):
        s.ex = ex
        f = getattr(s, "f_" + name.rstrip("l") if name not in ("ceil", "ceill", "tgammal") else "f_ceil", None)
        if f is None: raise Unsupported("real function " + name)
        return f(ex, st, inst, *a)

    def f_fabs(s, ex, st, inst, x):
        def one(v):
            lo, hi = s.bounds(v)
            if lo is not None and lo >= 0: return v
            if hi is not None and hi <= 0: return RV(pscale(v.p, Fr(-1)))
            c = s.z(v) >= 0
            return RAlt([(c, v), (bnot(c), RV(pscale(v.p, Fr(-1))))])
        return s.map1(ex, st, x, one)
    f_fab = f_fabs

    def f_floor(s, ex, st, inst, x):
        return s.map1(ex, st, x, lambda v: s.from_int(ex, st, s.floor_of(ex, st, v, inst, "floor"), None))
    f_floo = f_floor

    def f_ceil(s, ex, st, inst, x):
        return s.neg(ex, s.f_floor(ex, st, inst, s.neg(ex, x)))

    def fmod(s, ex, st, a, b, inst):
        q = s.bin(ex, st, "fdiv", a, b, None, inst)

        def tr(v):
            c = const(v.p)
            if c is not None: return s.lift(int(c))
            fl = s.floor_of(ex, st, v, inst, "fmod"); lo, hi = s.bounds(v)
            if lo is not None and lo >= 0: return s.from_int(ex, st, fl, None)
            n = z3.If(z3.Or(s.z(v) >= 0, z3.ToReal(fl) == s.z(v)), fl, fl + 1) if z3.is_expr(fl) else fl
            if z3.is_expr(n):
                x, y = ex.r(fl); ex.setr(n, x, y + 1)
            return s.from_int(ex, st, n, None)
        t = s.map1(ex, st, q, tr)
        return s.bin(ex, st, "fsub", a, s.bin(ex, st, "fmul", t, b, None, inst), None, inst)

    def f_fmod(s, ex, st, inst, a, b): return s.fmod(ex, st, a, b, inst)

    def f_sqrt(s, ex, st, inst, x): return s.map1(ex, st, x, lambda v: s.root(ex, st, v, inst))

    def root(s, ex, st, v, inst, check=True):
        p = s.nf(v.p)
        c = const(p)
        if c is not None:
            if c < 0: 
                if abs(c) < Fr(1, 10 ** 12): c = Fr(0)
                else: raise Unsupported("square root of a negative constant")
            return s.lift(math.sqrt(c))
        # a perfect square of a value the code branches on?
        for w in s.cands:
            if s.small(s.nf(padd(v.p, pmul(w.p, w.p), -1))):
                g = s.z(w) >= 0
                ng = RV(pscale(w.p, Fr(-1)))
                if st is not None and not s.feasible(ex, st, bnot(g)): return w
                if st is not None and not s.feasible(ex, st, g): return ng
                return RAlt([(g, w), (bnot(g), ng)])
        for q, a in s.roots:
            if s.small(padd(q, p, -1)): return s.v(a)
        # the square of a value the specification names, or of such a value over a known root
        for w in s.hints:
            for den in [None] + [a for q, a in s.roots]:
                d = pmul(v.p, s.sq_of(den)) if den is not None else v.p
                if not s.is_zero(padd(d, pmul(w.p, w.p), -1)): continue
                g = s.z(s.sign(w.p) or w) >= 0; lo, hi = s.bounds(w)
                w1 = w if den is None else s.div(ex, st, w, s.v(den), inst)
                if lo is not None and lo >= 0: return w1
                ng = RV(pscale(w1.p, Fr(-1)))
                if st is not None and not s.feasible(ex, st, bnot(g)): return w1
                if st is not None and not s.feasible(ex, st, g): return ng
                return RAlt([(g, w1), (bnot(g), ng)])
        a = s.atom("sqrt", "sqrt", RV(p), lo=0)
        lo, hi = s.bounds(RV(p))
        if lo is not None and lo >= Fr(1, 10 ** 60): a.lo = max(Fr(1, 10 ** 60), Fr(math.sqrt(float(lo)) * (1 - 1e-9)) if lo > Fr(1, 10 ** 50) else 0); ex.axioms.append(a.z > 0)
        if hi is not None: a.hi = Fr(math.sqrt(float(hi)) * (1 + 1e-12))
        for w in s.cands:           # p = 1 - w^2: the root is at most 1
            if s.small(s.nf(padd(padd(p, pmul(w.p, w.p)), {ONE: Fr(1)}, -1))):
                a.hi = Fr(1); ex.axioms.append(a.z <= 1)
        s.roots.append((p, a))
        zx = s.z(RV(p))
        ex.axioms.append(z3.Implies(zx >= 0, a.z * a.z == zx))
        s.sq.append((a.id, p))
        return s.v(a)

    def sq_of(s, a): return dict(s.sq)[a.id]

    def clear(s, p):
        """numerator of p: quotients and the sine and cosine of an atan2 angle are replaced by fractions and the
        denominators (which are not zero: obligations of their own) multiplied out"""
        p = s.nf(p); n = 0
        while True:
            ids = {a for m in p for a, _ in m if a in s.clr}
            if not ids: return p
            a = max(ids); num, den = s.clr[a]; K = max(dict(m).get(a, 0) for m in p)
            np_, dp = [{ONE: Fr(1)}], [{ONE: Fr(1)}]
            for _ in range(K): np_.append(s.nf(pmul(np_[-1], num))); dp.append(s.nf(pmul(dp[-1], den)))
            r = {}
            for k in range(K + 1):
                part = {}
                for m, c in p.items():
                    d = dict(m)
                    if d.pop(a, 0) == k: part[tuple(sorted(d.items()))] = part.get(tuple(sorted(d.items())), 0) + c
                if part: r = padd(r, pmul(pmul(part, np_[k]), dp[K - k]))
                if len(r) > 300000: raise Unsupported("numerator too large")
            p = s.nf(r); n += 1

    def is_zero(s, p):
        p = s.nf(p)
        if not p or s.small(p, Fr(1, 10 ** 12)): return True
        if not any(a in s.clr for m in p for a, _ in m): return False
        big = max(abs(c) for c in p.values()); q = s.clear(p)
        return not q or max(abs(c) for c in q.values()) <= Fr(1, 10 ** 12) * min(Fr(1), big)

    # hyperbolic functions, logarithm, cube root
    def hyper(s, v):
        p = v.p; sg = 1
        if p and p[min(p)] < 0: p = pscale(p, Fr(-1)); sg = -1
        for q, S, C in s.hyp:
            if s.close(p, q): break
        else:
            a = s.atom("sinh", "sinh", RV(p)); b = s.atom("cosh", "cosh", RV(p), lo=1)
            s.ex.axioms.append(b.z * b.z == 1 + a.z * a.z); zp = s.z(RV(p))
            s.ex.axioms.append(z3.And(b.z >= 1, z3.Implies(zp >= 0, a.z >= zp), z3.Implies(zp <= 0, a.z <= zp)))
            S, C = s.v(a), s.v(b); s.hyp.append((p, S, C)); s.sq.append((b.id, {ONE: Fr(1), ((a.id, 2),): Fr(1)}))
        return (S if sg > 0 else RV(pscale(S.p, Fr(-1)))), C

    def f_sinh(s, ex, st, inst, x):
        return s.map1(ex, st, x, lambda v: s.lift(math.sinh(const(v.p))) if const(v.p) is not None else s.hyper(v)[0])

    def f_cosh(s, ex, st, inst, x):
        return s.map1(ex, st, x, lambda v: s.lift(math.cosh(const(v.p))) if const(v.p) is not None else s.hyper(v)[1])

    def f_asinh(s, ex, st, inst, x):
        def one(v):
            if const(v.p) is not None: return s.lift(math.asinh(const(v.p)))
            C = s.root(ex, st, RV(padd({ONE: Fr(1)}, pmul(v.p, v.p))), inst)

            def two(c):
                t = s.atom("asinh", "asinh", v); s.hyp.append(({((t.id, 1),): Fr(1)}, v, c)); return s.v(t)
            return s.map1(ex, st, C, two)
        return s.map1(ex, st, x, one)

    def f_log(s, ex, st, inst, x):
        def one(v):
            c = const(v.p)
            if c is not None: return s.lift(math.log(c))
            for a, w in s.logs:
                if w.p == v.p: return s.v(a)
            s.ob(ex, st, s.z(v) > 0, "argument of log is positive", inst)
            a = s.atom("log", "log", v); s.logs.append((a, v)); return s.v(a)
        return s.map1(ex, st, x, one)

    def f_exp(s, ex, st, inst, x):
        def one(v):
            c = const(v.p)
            if c is not None: return s.lift(math.exp(c))
            if len(v.p) == 1:
                (m, k), = v.p.items()
                if len(m) == 1 and m[0][1] == 1 and s.atoms[m[0][0]].kind == "log":
                    w = s.atoms[m[0][0]].arg
                    if k == 1: return w
                    if abs(k - Fr(1, 3)) < Fr(1, 10 ** 15): return s.cuberoot(w)
            a = s.atom("exp", "exp", v); ex.axioms.append(a.z > 0); return s.v(a)
        return s.map1(ex, st, x, one)

    def f_cbrt(s, ex, st, inst, x): return s.map1(ex, st, x, lambda v: s.cuberoot(v))

    def cuberoot(s, v):
        for a in s.atoms:
            if a.kind == "cbrt" and a.arg.p == v.p: return s.v(a)
        a = s.atom("cbrt", "cbrt", v); zv = s.z(v)
        s.ex.axioms.append(z3.And(a.z * a.z * a.z == zv, z3.Implies(zv > 0, a.z > 0), z3.Implies(zv < 0, a.z < 0)))
        s.pw[a.id] = (3, v.p)
        return s.v(a)

    def f_atan(s, ex, st, inst, x): return s.f_atan2(ex, st, inst, x, s.lift(1.0))

    def unit_root(s, ex, v):
        """v = sqrt(1 - w^2) for a value w the code branches on: at most 1"""
        if len(v.p) != 1: return
        (m, c), = v.p.items()
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1: return
        a = s.atoms[m[0][0]]
        if a.kind != "sqrt" or a.hi is not None and a.hi <= 1: return
        for w in s.cands:
            if s.small(s.nf(padd(padd(a.arg.p, pmul(w.p, w.p)), {ONE: Fr(1)}, -1))):
                a.hi = Fr(1); ex.axioms.append(a.z <= 1); return

    # angles: sin/cos as polynomials
    def f_sin(s, ex, st, inst, x): return s.map1(ex, st, x, lambda v: s.sincos(v)[0])
    def f_cos(s, ex, st, inst, x): return s.map1(ex, st, x, lambda v: s.sincos(v)[1])

    def f_tan(s, ex, st, inst, x): return s.bin(ex, st, "fdiv", s.f_sin(ex, st, inst, x), s.f_cos(ex, st, inst, x), None, inst)

    def base(s, p):
        """sin, cos polynomials of a base angle given by polynomial p (leading coefficient positive)"""
        for q, S, C in s.angles:
            if s.close(p, q): return S, C
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in s.invt and c == 1: return s.invt[m[0][0]]
        a = s.atom("sin", "sin", RV(p), -1, 1); b = s.atom("cos", "cos", RV(p), -1, 1)
        s.ex.axioms.append(a.z * a.z + b.z * b.z == 1)
        S, C = s.v(a), s.v(b)
        s.angles.append((p, S, C))
        s.sq.append((a.id, {ONE: Fr(1), ((b.id, 2),): Fr(-1)}))
        return S, C

    def close(s, p, q, rel=Fr(1, 10 ** 12)):
        if p.keys() != q.keys(): return False
        return all(abs(p[m] - q[m]) <= rel * abs(p[m]) for m in p)

    def sincos(s, v):
        p = dict(v.p)
        c = p.pop(ONE, Fr(0))
        for m in [m for m in p if abs(p[m]) < Fr(1, 10 ** 13)]:        # rounding of a conversion factor
            if s.small({m: p[m]}, Fr(1, 10 ** 12)) and all(s.atoms[a].lo is not None and s.atoms[a].hi is not None for a, e in m): p.pop(m)
        for m in [m for m in p if len(m) == 1 and m[0][1] == 1 and s.atoms[m[0][0]].kind == "int"]:
            k = p[m] / (4 * HALFPI)
            if round(k) and abs(k - round(k)) < Fr(1, 10 ** 12): p.pop(m)       # whole turns
        if not p: return s.lift(math.sin(c)), s.lift(math.cos(c))
        S, C = s.lift(0), s.lift(1)

        def addang(S, C, s2, c2):
            return (RV(s.red(padd(pmul(S.p, c2.p), pmul(C.p, s2.p)))), RV(s.red(padd(pmul(C.p, c2.p), pmul(S.p, s2.p), -1))))
        # known whole angle?
        parts = None
        for sg in (1, -1):
            for q, _, _ in s.angles:
                if s.close(pscale(p, Fr(sg)), q): parts = [(q, sg)]
        if parts is None:
            simple = all(len(m) == 1 and m[0][1] == 1 and k.denominator == 1 and abs(k) <= 4 and s.atoms[m[0][0]].kind in ("in", "angle") for m, k in p.items())
            if simple: parts = [({m: Fr(1)}, int(k)) for m, k in sorted(p.items())]
            else:
                # integer multiple of, or sum with, a known angle
                for q, _, _ in s.angles:
                    for k in (2, -2, 3, -3):
                        if s.close(p, pscale(q, Fr(k))): parts = [(q, k)]
                if parts is None:
                    for (q1, _, _), (q2, _, _) in itertools.combinations(s.angles, 2):
                        for a, b in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                            if s.close(p, padd(pscale(q1, Fr(a)), q2, b)): parts = [(q1, a), (q2, b)]
                if parts is None:
                    ang = {m: k for m, k in p.items() if len(m) == 1 and m[0][1] == 1 and k.denominator == 1 and abs(k) <= 4 and s.atoms[m[0][0]].kind in ("in", "angle") and s.atoms[m[0][0]].name.startswith("ang")}
                    rest = {m: k for m, k in p.items() if m not in ang}
                    sg = 1 if not rest or rest[min(rest)] > 0 else -1
                    parts = [({m: Fr(1)}, int(k)) for m, k in sorted(ang.items())] + ([(pscale(rest, Fr(sg)), sg)] if rest else [])
        for q, k in parts:
            bs, bc = s.base(q)
            if k < 0: bs = RV(pscale(bs.p, Fr(-1)))
            for _ in range(abs(k)): S, C = addang(S, C, bs, bc)
        if c:
            n = round(c / HALFPI)
            if abs(c - n * HALFPI) < Fr(1, 10 ** 12):
                for _ in range(n % 4): S, C = C, RV(pscale(S.p, Fr(-1)))
            else: S, C = addang(S, C, s.lift(math.sin(c)), s.lift(math.cos(c)))
        return S, C

    def angle(s, name, S, C, lo, hi):
        a = s.atom(name, "angle", None, lo, hi)
        s.invt[a.id] = (S, C)
        return a

    def f_asin(s, ex, st, inst, x):
        def one(v):
            c = const(v.p)
            if c is not None: return s.lift(math.asin(c))
            s.unit_root(ex, v)
            s.ob(ex, st, z3.And(s.z(v) >= -1, s.z(v) <= 1), "argument of asin within -1..1", inst)
            w = s.root(ex, st, RV(padd({ONE: Fr(1)}, pmul(v.p, v.p), -1)), inst)
            return s.map1(ex, st, w, lambda cv: s.asin_angle(ex, v, cv))
        return s.map1(ex, st, x, one)

    def asin_angle(s, ex, v, cv):
        t = s.angle("asin", v, cv, -HALFPI, HALFPI); zv = s.z(v)
        ex.axioms.append(z3.And(z3.Implies(zv >= 0, t.z >= 0), z3.Implies(zv <= 0, t.z <= 0), z3.Implies(zv > 0, t.z > 0), z3.Implies(zv < 0, t.z < 0)))
        return s.v(t)

    def acos_angle(s, ex, sv, v):
        t = s.angle("acos", sv, v, 0, 2 * HALFPI); zv = s.z(v)
        ex.axioms.append(z3.And(z3.Implies(zv >= 0, t.z <= s.q(HALFPI)), z3.Implies(zv <= 0, t.z >= s.q(HALFPI))))
        return s.v(t)

    def f_asin_clamped(s, ex, st, inst, x):
        """contract of asine(): asin of the argument, which is a component of a unit vector (the check proves that it is)"""
        def one(v):
            c = const(v.p)
            if c is not None: return s.lift(math.asin(max(-1, min(1, c))))
            w = s.root(ex, st, RV(padd({ONE: Fr(1)}, pmul(v.p, v.p), -1)), inst)
            return s.map1(ex, st, w, lambda cv: s.asin_angle(ex, v, cv))
        return s.map1(ex, st, x, one)

    def f_acos(s, ex, st, inst, x):
        def one(v):
            c = const(v.p)
            if c is not None: return s.lift(math.acos(c))
            s.unit_root(ex, v)
            s.ob(ex, st, z3.And(s.z(v) >= -1, s.z(v) <= 1), "argument of acos within -1..1", inst)
            w = s.root(ex, st, RV(padd({ONE: Fr(1)}, pmul(v.p, v.p), -1)), inst)
            return s.map1(ex, st, w, lambda sv: s.acos_angle(ex, sv, v))
        return s.map1(ex, st, x, one)

    def f_atan2(s, ex, st, inst, y, x):
        def one(b, a):
            cb, ca = const(b.p), const(a.p)
            if cb is not None and ca is not None: return s.lift(math.atan2(cb, ca))
            r = s.root(ex, st, RV(padd(pmul(a.p, a.p), pmul(b.p, b.p))), inst)

            def two(rv):
                S = s.atom("sinat", "sin", None, -1, 1); C = s.atom("cosat", "cos", None, -1, 1)
                ex.axioms.append(S.z * S.z + C.z * C.z == 1)
                s.sq.append((S.id, {ONE: Fr(1), ((C.id, 2),): Fr(-1)}))
                zr = s.z(rv)
                if s.clear_atan:
                    s.ob(ex, st, zr != 0, "arguments of atan2 are not both zero", inst)
                    s.clr[S.id] = (b.p, rv.p); s.clr[C.id] = (a.p, rv.p)
                ex.axioms.append(z3.And(zr * S.z == s.z(b), zr * C.z == s.z(a)))
                c = const(rv.p)
                if c is not None and c: 
                    return s.v(s.angle("atan2", RV(pscale(b.p, 1 / c)), RV(pscale(a.p, 1 / c)), -2 * HALFPI, 2 * HALFPI))
                if len(rv.p) == 1:
                    (m, k), = rv.p.items()
                    if len(m) == 1 and m[0][1] == 1:
                        s.prods[tuple(sorted((m[0][0], S.id)))] = pscale(b.p, 1 / k)
                        s.prods[tuple(sorted((m[0][0], C.id)))] = pscale(a.p, 1 / k)
                SV, CV = (s.simp(s.v(S)), s.simp(s.v(C))) if s.known else (s.v(S), s.v(C))
                t = s.angle("atan2", SV, CV, -2 * HALFPI, 2 * HALFPI)
                s.atans = getattr(s, "atans", []) + [(t, rv, b, a)]
                # quadrant facts
                ex.axioms.append(z3.And(z3.Implies(S.z >= 0, t.z >= 0), z3.Implies(S.z < 0, t.z <= 0)))
                return s.v(t)
            return s.map1(ex, st, r, two)
        return s.map2(ex, st, y, x, one)

    # -------------------------------------------------------------- normal form
    def red(s, p):
        """cheap reduction: squares of sines"""
        return s.nf(p) if len(p) > 40 else p

    def nf(s, p):
        sq = {a: (2, q) for a, q in s.sq}; sq.update(s.pw); pr = s.prods
        work = dict(p); out = {}
        n = 0
        while work:
            m, c = work.popitem()
            n += 1
            if n > 2000000: raise Unsupported("polynomial normal form too large")
            hit = None
            for a, e in m:
                if e >= 2 and a in sq and e >= sq[a][0]:
                    d = dict(m); d[a] -= sq[a][0]
                    if not d[a]: del d[a]
                    hit = (tuple(sorted(d.items())), sq[a][1]); break
            if hit is None and pr and len(m) > 1:
                ids = [a for a, _ in m]
                for x, y in itertools.combinations(ids, 2):
                    k = (x, y) if x < y else (y, x)
                    if k in pr:
                        d = dict(m)
                        for t in (x, y):
                            d[t] -= 1
                            if not d[t]: del d[t]
                        hit = (tuple(sorted(d.items())), pr[k]); break
            if hit is None:
                x = out.get(m, 0) + c
                if x: out[m] = x
                else: out.pop(m, None)
            else:
                r, q = hit
                for m2, c2 in q.items():
                    k = mmul(r, m2); x = work.get(k, 0) + c * c2
                    if x: work[k] = x
                    else: work.pop(k, None)
        return out

    def small(s, p, tol=Fr(1, 10 ** 9)):
        """|p| <= tol for all values of the atoms (bounded atoms by their bounds, others counted as of unit size)"""
        t = Fr(0)
        for m, c in p.items():
            b = Fr(1)
            for a, e in m:
                A = s.atoms[a]
                if A.kind in ("sin", "cos"): continue
                if A.lo is not None and A.hi is not None: b *= max(abs(Fr(A.lo)), abs(Fr(A.hi)), Fr(1)) ** e
            t += abs(c) * b
            if t > tol: return False
        return True

    def zero(s, ctx, ex, st, v, name, where="", tol=Fr(1, 10 ** 9), timeout=10):
        """obligation: v == 0 (to tol) on the path st"""
        v = s.lift(v)
        for g, x in s.alts(v):
            p = s.nf(x.p)
            if s.small(p, tol):
                ctx.poly += 1
                continue
            if any(a in s.clr for m in p for a, _ in m) and s.is_zero(p):
                ctx.poly += 1
                continue
            st2 = st if g is True else st.also(g)
            z = s.z(RV(p)); t = s.q(tol)
            r = s.refute(ex, st2, p, tol)
            if r is not None:
                ctx.failed.append({"unit": ctx.unit, "name": name, "where": where, "status": "sat", "kind": "post", "model": r, "goal": "nonzero normal form", "backend": "polynomial normal form", "tags": None})
                continue
            if len(p) > 400:
                ctx.failed.append({"unit": ctx.unit, "name": name, "where": where, "status": "unknown", "kind": "post", "model": None, "goal": "nonzero normal form", "backend": "polynomial normal form", "tags": None})
                continue
            ex.oblige(State(st2.pc), z3.And(z <= t, z >= -t), name, where=where, kind="post")

    # -------------------------------------------------------------- linear relaxation
    def lin(s, e):
        """e with every nonlinear product replaced by a fresh real: unsatisfiable only if e is"""
        memo = s.lins
        k = e.get_id()
        if k in memo: return memo[k][0]
        stack = [(e, False)]
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in memo: continue
            if not z3.is_app(x) or x.num_args() == 0:
                memo[i] = (x, x); continue
            if not done:
                stack.append((x, True))
                for c in x.children():
                    if c.get_id() not in memo: stack.append((c, False))
                continue
            ch = [memo[c.get_id()][0] for c in x.children()]
            if z3.is_mul(x):
                num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
                oth = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
                if len(oth) > 1:
                    # products of the same factors are the same variable
                    fl = []
                    for c in x.children():
                        w = [c]
                        while w:
                            y = w.pop()
                            if z3.is_mul(y): w.extend(y.children())
                            elif not (z3.is_rational_value(y) or z3.is_int_value(y)): fl.append(y.get_id())
                            else: num.append(y) if c is not y else None
                    key = (z3.is_int(x),) + tuple(sorted(fl))
                    if key not in s.linm: s.linm[key] = z3.FreshInt("nl") if z3.is_int(x) else z3.FreshReal("nl")
                    r = s.linm[key]
                    for c in num: r = c * r
                    memo[i] = (r, x); continue
            if z3.is_app_of(x, z3.Z3_OP_DIV) and not (z3.is_rational_value(ch[1])):
                memo[i] = (z3.FreshReal("nl"), x); continue
            memo[i] = (x.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x, x)
        return memo[k][0]

    def lin_solver(s, ex, hyp, ms):
        sol = z3.Solver(); sol.set("timeout", int(ms))
        for a in ex.axioms: sol.add(s.lin(a))
        for h in hyp: sol.add(s.lin(zb(h)))
        return sol

    def lin_unsat(s, ex, hyp, goal, ms=3000):
        return s.lin_solver(ex, list(hyp) + [bnot(goal)], ms).check() == z3.unsat

    def witness(s, pc, n=400):
        import random
        rng = random.Random(7)
        for _ in range(n):
            try: r = s.sample(rng)
            except (ValueError, ZeroDivisionError, OverflowError, KeyError): continue
            if r is None: return False
            sub = s.zsub(*r)
            if all(z3.is_true(z3.simplify(z3.substitute(zb(h), *sub))) for h in pc): return True
        return False

    def zsub(s, val, ev):
        r = []
        for n, x in s.floors:
            try: r.append((n, z3.IntVal(math.floor(ev(x.p)))))
            except (KeyError, TypeError): pass
        return r + [(b.z, s.q(Fr(val[b.id]))) for b in s.atoms if val.get(b.id) is not None and b.kind != "int"]

    def sample(s, rng):
        """values of all atoms at a random input"""
        val = {}

        def ev(p):
            r = 0.0
            for m, c in p.items():
                x = float(c)
                for a, e in m: x *= val[a] ** e
                r += x
            return r
        for a in s.atoms:
            if a.kind == "in":
                lo = float(a.lo) if a.lo is not None else -10.0; hi = float(a.hi) if a.hi is not None else 10.0
                if hi - lo > 100 and lo <= 1500 and hi >= 2500 and rng.random() < .7: lo, hi = 1500.0, 2500.0
                elif hi - lo > 100 and lo < -100 < 100 < hi and rng.random() < .7: lo, hi = -100.0, 100.0
                val[a.id] = rng.uniform(lo, hi)
            elif a.kind == "sin": val[a.id] = math.sin(ev(a.arg.p)) if a.arg is not None else None
            elif a.kind == "cos": val[a.id] = math.cos(ev(a.arg.p)) if a.arg is not None else None
            elif a.kind == "sqrt":
                x = ev(a.arg.p)
                val[a.id] = math.sqrt(x) if x >= 0 else math.sqrt(max(x, 0.0))
            elif a.kind == "quot": val[a.id] = ev(a.arg[0].p) / ev(a.arg[1].p)
            elif a.kind == "sinh": val[a.id] = math.sinh(ev(a.arg.p))
            elif a.kind == "cosh": val[a.id] = math.cosh(ev(a.arg.p))
            elif a.kind == "asinh": val[a.id] = math.asinh(ev(a.arg.p))
            elif a.kind == "log": val[a.id] = math.log(ev(a.arg.p))
            elif a.kind == "exp": val[a.id] = math.exp(ev(a.arg.p))
            elif a.kind == "cbrt": x = ev(a.arg.p); val[a.id] = math.copysign(abs(x) ** (1 / 3), x)
            elif a.kind == "int":
                x = z3.simplify(z3.substitute(a.z, *s.zsub(val, ev)))
                if not z3.is_rational_value(x): return None
                val[a.id] = float(x.as_fraction())
            elif a.kind == "angle" and a.id in s.invt:
                S, C = s.invt[a.id]
                val[a.id] = math.atan2(ev(S.p), ev(C.p))
            elif a.kind == "angle":      # an abstract function of its argument
                x = ev(a.arg.p); val[a.id] = 0.4 + 0.05 * math.sin(x * 1.37 + 0.2)
            else: return None
            if val[a.id] is None and a.id in s.clr: val[a.id] = ev(s.clr[a.id][0]) / ev(s.clr[a.id][1])
            if val[a.id] is None:        # sine or cosine of an atan2 angle
                for t, rv, b, c in getattr(s, "atans", []):
                    S, C = s.invt[t.id]
                    if a.id in [k[0][0] for k in S.p]: val[a.id] = math.sin(math.atan2(ev(b.p), ev(c.p)))
                    elif a.id in [k[0][0] for k in C.p]: val[a.id] = math.cos(math.atan2(ev(b.p), ev(c.p)))
                if val[a.id] is None: return None
        return val, ev

    def refute(s, ex, st, p, tol, n=60):
        """an input at which the polynomial is not zero and the path condition holds, found by evaluation; None if none found"""
        import random
        rng = random.Random(1)
        for _ in range(n):
            try: r = s.sample(rng)
            except (ValueError, ZeroDivisionError, OverflowError, KeyError): continue
            if r is None: return None
            val, ev = r
            if abs(ev(p)) <= float(tol) * 2: continue
            sub = s.zsub(val, ev)
            ok = True
            for h in st.pc:
                x = z3.simplify(z3.substitute(zb(h), *sub))
                if not z3.is_true(x): ok = False; break
            if ok: return {a.name: val[a.id] for a in s.atoms if a.kind == "in"}
        return None


class Peel:
    """Loops over real-valued variables, without an invariant: the state at the header is replaced by an arbitrary one, an
    arbitrary iteration is run from it, and what leaves the loop is what leaves it on entry or after that iteration.  Covers
    every number of iterations; what holds at the exit must follow from the last iteration and the exit condition."""
    def __init__(s, skip=()): s.depth = 0; s.skip = skip

    def wants(s, ex, fr, loop):
        return fr.fn.base not in s.skip and any(i.op == "phi" and i.ty.k == "f" or i.op == "phi" and "double" in str(i.ty) for i in fr.fn.blocks[loop.header])

    def run(s, ex, fr, loop, sts, out):
        for b in loop.blocks:
            for i in fr.fn.blocks[b]:
                if i.op == "store": raise Unsupported("memory written in a real-valued loop")
        sts = ex.merge_states(sts)
        for st in sts:
            h = st.fork()
            for i in fr.fn.blocks[loop.header]:
                if i.op != "phi": break
                if i.ty.k == "i" and i.ty.w == 1: v = z3.Bool("any!%d" % next(ex.fresh_n))
                elif i.ty.k == "i": v = ex.fresh("any", i.ty.w, -(1 << (i.ty.w - 1)), (1 << (i.ty.w - 1)) - 1)
                else: v = ex.fdom.v(ex.fdom.atom("any_%s" % i.res, "in"))
                h.env[(fr.id, i.res)] = v
            ex.run_region(fr, loop, [st], out)
            back = ex.merge_states(ex.run_region(fr, loop, [h], {}))
            s.seen = getattr(s, "seen", 0) + 1
            for b in back:
                if not ex.feasible(b.pc): continue
                ex.run_region(fr, loop, [b], out)
