"""C10: rotations, coordinate frames and precession (miscell.cpp, precess.cpp, obliquit.cpp).
Floating point is taken as real arithmetic; identities hold to 1e-9."""
import ctypes, math, random
from fractions import Fraction as Fr
from check import *
from real import RealDom, RV, RAlt, pscale
from desig import fail

SRC = ["miscell.cpp", "precess.cpp", "obliquit.cpp", "alt_az.cpp", "nutation.cpp", "snprintf.cpp", "date.cpp"]
NAT = SRC + ["delta_t.cpp", "eop_prec.cpp", "spline.cpp"]
ASEC = Fr(math.pi) / 180 / 3600
DBL = DOUBLE


class M:
    """matrices and vectors of real values, as specification terms"""
    def __init__(s, dom): s.d = dom

    def dot(s, a, b):
        r = 0.0
        for x, y in zip(a, b): r = s.d.add(s.d.lift(r), s.d.mul(s.d.lift(x), s.d.lift(y)))
        return r

    def mul(s, A, B): return [s.dot(A[3 * i:3 * i + 3], [B[j], B[3 + j], B[6 + j]]) for i in range(3) for j in range(3)]

    def app(s, A, v): return [s.dot(A[3 * i:3 * i + 3], v) for i in range(3)]

    def T(s, A): return [A[3 * j + i] for i in range(3) for j in range(3)]

    def rot(s, ax, ang):
        """frame rotation: v -> v' with the coordinates turned by ang about axis ax"""
        S, C = s.d.sincos(s.d.lift(ang))
        N = s.d.neg(s.d.ex, S); a, b = (ax + 1) % 3, (ax + 2) % 3
        R = [0.0] * 9; R[4 * ax] = 1.0; R[4 * a] = R[4 * b] = C; R[3 * a + b] = S; R[3 * b + a] = N
        return R

    def unit(s, lon, lat):
        S, C = s.d.sincos(s.d.lift(lon)); S2, C2 = s.d.sincos(s.d.lift(lat))
        return [s.d.mul(C, C2), s.d.mul(S, C2), S2]

    def poly(s, t, *cs):
        """cs[0] + cs[1] t + ... with rational coefficients"""
        r = s.d.lift(0.0)
        for c in cs[::-1]: r = s.d.add(s.d.mul(r, t), s.d.lift(Fr(c)))
        return r


I9 = [1.0, 0, 0, 0, 1.0, 0, 0, 0, 1.0]
# published precession angles (Lieske et al. 1977, epoch J2000, Julian centuries), arcseconds
ETA = (0, Fr("47.0029"), Fr("-0.03302"), Fr("0.000060")); PI_A = (Fr("174.876384") * 3600, Fr("-869.8089"), Fr("0.03536"))
P_A = (0, Fr("5029.0966"), Fr("1.11113"), Fr("-0.000006"))
ZETA = (0, Fr("2306.2181"), Fr("0.30188"), Fr("0.017998")); ZZ = (0, Fr("2306.2181"), Fr("1.09468"), Fr("0.018203")); THETA = (0, Fr("2004.3109"), Fr("-0.42665"), Fr("-0.041833"))
# Laskar's obliquity, arcseconds, in units of 10000 years
LASKAR = [Fr(x) for x in ("84381.448", "-4680.93", "-1.55", "1999.25", "-51.38", "-249.67", "-39.05", "7.12", "27.87", "5.79", "2.45")]


class Rot(Check):
    assumptions = ["floating-point arithmetic is treated as real arithmetic (rounding absent); constants equal to 12 digits are identified, identities hold to 1e-9",
                   "sin, cos, sqrt, asin, acos, atan2 of the C library are the real functions"]

    def setup(s):
        s.prog = Program(SRC); s.nat = None

    # -------------------------------------------------- helpers
    def start(s, ctx):
        dom = RealDom(); ex = ctx.executor(s.prog, fdom=dom); dom.ex = ex
        return dom, ex, M(dom), State()

    def put(s, ex, st, name, vals):
        p = ex.new_obj(st, name, 8 * len(vals))
        for i, v in enumerate(vals):
            if v is not None: ex.store(st, ex.padd(st, p, 8 * i), DBL, v)
        return p

    def get(s, ex, st, p, n): return [ex.load(st, ex.padd(st, p, 8 * i), DBL) for i in range(n)]

    def same(s, ctx, dom, ex, st, got, want, name, where, tol=Fr(1, 10 ** 9)):
        for i, (a, b) in enumerate(zip(got, want)):
            if a is UNDEF:
                ctx.failed.append(fail(name, name + ": output %d is set" % i, {})); continue
            dom.zero(ctx, ex, st, dom.sub(dom.lift(a), dom.lift(b)), "%s [%d]" % (name, i) if len(got) > 1 else name, where, tol)

    def mat(s, dom, ex, name="m", n=9): return [dom.input(ex, "%s%d" % (name, i)) for i in range(n)]


def is_pi(x): return x


class C10(Rot):
    id = "C10"; title = "Rotations and precession are proper rotations, and mutually inverse"

    def native(s):
        if s.nat is None: s.nat = native.build(NAT, "rot")
        return s.nat

    # -------------------------------------------------- vectors and matrices
    def u_matrix(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx)
            call = lambda f, a, st: ex.call_fn(s.prog.get(f), a, st)
            p = s.put(ex, st, "matrix", [None] * 9); _, s2 = call("set_identity_matrix", [p], st)
            s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 9), I9, "identity matrix", "miscell.cpp (set_identity_matrix)")
            A = s.mat(dom, ex); st = State(); p = s.put(ex, st, "matrix", A); _, s2 = call("invert_orthonormal_matrix", [p], st)
            s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 9), m.T(A), "inversion is transposition", "miscell.cpp (invert_orthonormal_matrix)")
            ang = dom.input(ex, "angle"); S, C = dom.sincos(ang); nS = dom.neg(ex, S)
            for ax in range(3):
                v = s.mat(dom, ex, "v", 3); st = State(); p = s.put(ex, st, "vect", v); _, s2 = call("rotate_vector", [p, ang, ax], st)
                s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 3), m.app(m.T(m.rot(ax, ang)), v), "rotation about axis %d" % ax, "miscell.cpp (rotate_vector)")
            for i in range(3):
                for j in range(3):
                    if i == j: continue
                    st = State(); p = s.put(ex, st, "matrix", A); _, s2 = call("spin_matrix", [ex.padd(st, p, 24 * i), ex.padd(st, p, 24 * j), ang], st)
                    R = [float(k // 3 == k % 3) for k in range(9)]; R[4 * i] = R[4 * j] = C; R[3 * i + j] = nS; R[3 * j + i] = S
                    s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 9), m.mul(R, A), "rows %d, %d turned" % (i, j), "miscell.cpp (spin_matrix)")
                    st = State(); p = s.put(ex, st, "matrix", A); _, s2 = call("pre_spin_matrix", [ex.padd(st, p, 8 * i), ex.padd(st, p, 8 * j), ang], st)
                    s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 9), m.mul(A, m.T(R)), "columns %d, %d turned" % (i, j), "miscell.cpp (pre_spin_matrix)")
            ctx.covers += 1
        return Unit("matrix operations", gen, fns=["set_identity_matrix", "invert_orthonormal_matrix", "rotate_vector", "spin_matrix", "pre_spin_matrix"])

    def u_vector(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx)
            call = lambda f, a, st: ex.call_fn(s.prog.get(f), a, st)
            lon, lat = dom.input(ex, "lon"), dom.input(ex, "lat")
            p = s.put(ex, st, "vect", [None] * 3); _, s2 = call("polar3_to_cartesian", [p, lon, lat], st)
            s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 3), m.unit(lon, lat), "unit vector of a direction", "miscell.cpp (polar3_to_cartesian)")
            a, b = s.mat(dom, ex, "a", 3), s.mat(dom, ex, "b", 3)
            st = State(); pa, pb = s.put(ex, st, "a", a), s.put(ex, st, "b", b); pc = s.put(ex, st, "xprod", [None] * 3)
            r, s2 = call("dot_product", [pa, pb], st); s.same(ctx, dom, ex, s2, [r], [m.dot(a, b)], "dot product", "miscell.cpp (dot_product)")
            _, s2 = call("vector_cross_product", [pc, pa, pb], s2)
            c = s.get(ex, s2, pc, 3); w = "miscell.cpp (vector_cross_product)"
            s.same(ctx, dom, ex, s2, [m.dot(a, c), m.dot(b, c)], [0.0, 0.0], "cross product is normal to both vectors", w)
            s.same(ctx, dom, ex, s2, [c[0]], [dom.sub(dom.mul(a[1], b[2]), dom.mul(a[2], b[1]))], "cross product is right handed", w)
            s.same(ctx, dom, ex, s2, [m.dot(c, c)], [dom.sub(dom.mul(m.dot(a, a), m.dot(b, b)), dom.mul(m.dot(a, b), m.dot(a, b)))], "length of the cross product", w)
            st = State(); pa = s.put(ex, st, "vect", a); r, s2 = call("vector3_length", [pa], st)
            s.same(ctx, dom, ex, s2, [dom.mul(r, r)], [m.dot(a, a)], "length of a vector", "miscell.cpp (vector3_length)")
            ex.oblige(State(s2.pc), dom.z(r) >= 0, "length is not negative", where="miscell.cpp (vector3_length)", kind="post")
            st = State().also(dom.z(m.dot(a, a)) > 0); pa = s.put(ex, st, "vect", a); r, s2 = call("normalize_vect3", [pa], st); g = s.get(ex, s2, pa, 3)
            s.same(ctx, dom, ex, s2, [dom.mul(r, r)], [m.dot(a, a)], "normalising returns the length", "miscell.cpp (normalize_vect3)")
            for i in range(3):
                ex.oblige(State(s2.pc), dom.z(dom.mul(dom.lift(g[i]), dom.lift(r))) == dom.z(a[i]), "normalised vector keeps its direction [%d]" % i, where="miscell.cpp (normalize_vect3)", kind="post")
            ctx.covers += 1
        return Unit("vector operations", gen, fns=["polar3_to_cartesian", "dot_product", "vector_cross_product", "vector3_length", "normalize_vect3"])

    def u_ecl(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx)
            call = lambda f, a, st: ex.call_fn(s.prog.get(f), a, st)
            v = s.mat(dom, ex, "v", 3); eps = math.radians(84381.448 / 3600)
            for f, ang in (("equatorial_to_ecliptic", eps), ("ecliptic_to_equatorial", -eps)):
                st = State(); p = s.put(ex, st, "vect", v); _, s2 = call(f, [p], st)
                s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 3), m.app(m.rot(0, ang), v), "turned by the J2000 obliquity", "precess.cpp (%s)" % f)
            for f, g in (("equatorial_to_ecliptic", "ecliptic_to_equatorial"), ("ecliptic_to_equatorial", "equatorial_to_ecliptic")):
                st = State(); p = s.put(ex, st, "vect", v); _, s2 = call(f, [p], st); _, s2 = call(g, [p], s2)
                s.same(ctx, dom, ex, s2, s.get(ex, s2, p, 3), v, "%s undone" % f, "precess.cpp (%s)" % g, Fr(1, 10 ** 14))
            A = s.mat(dom, ex)
            for f, B in (("precess_vector", A), ("deprecess_vector", m.T(A))):
                for inplace in (False, True):
                    st = State(); pm, p = s.put(ex, st, "matrix", A), s.put(ex, st, "v1", v); q = p if inplace else s.put(ex, st, "v2", [None] * 3)
                    _, s2 = call(f, [pm, p, q], st)
                    s.same(ctx, dom, ex, s2, s.get(ex, s2, q, 3), m.app(B, v), "%s%s" % (f, " in place" if inplace else ""), "precess.cpp (%s)" % f)
                    s.same(ctx, dom, ex, s2, s.get(ex, s2, pm, 9), A, "matrix is not changed", "precess.cpp (%s)" % f)
            x = dom.input(ex, "x")
            ctx.covers += 1
        return Unit("frames", gen, fns=["equatorial_to_ecliptic", "ecliptic_to_equatorial", "precess_vector", "deprecess_vector"])

    # -------------------------------------------------- obliquity
    def obl_handler(s, dom):
        """contract of mean_obliquity at its call sites: a function of its argument alone"""
        memo = []

        def h(ex, st, a, inst, fr):
            x = dom.lift(a[0])
            if isinstance(x, RAlt): raise Unsupported("obliquity of a value by cases")
            for p, v in memo:
                if dom.small(dom.nf(__import__("real").padd(p, x.p, -1)), Fr(1, 10 ** 12)): return v
            v = dom.v(dom.atom("ang_eps%d" % len(memo), "angle", x, 0, Fr(1, 2)))
            memo.append((x.p, v))
            return v
        return h

    def obl(s, ex, dom, t):
        """obliquity at t centuries, as the contract names it"""
        return ex.contracts["mean_obliquity"](ex, None, [t], None, None)

    def u_obl(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx)
            call = lambda f, a, st: ex.call_fn(s.prog.get(f), a, st)
            w = "obliquit.cpp (mean_obliquity)"; n = "mean_obliquity"
            t, u = dom.input(ex, "t", -10 ** 6, 10 ** 6), dom.input(ex, "u", -10 ** 6, 10 ** 6)
            spec = lambda x: dom.mul(m.poly(dom.mul(x, dom.lift(Fr(1, 100))), *LASKAR), dom.lift(ASEC))
            dom.roots_tol = 0
            r, s1 = call(n, [0.0], State()); s.same(ctx, dom, ex, s1, [r], [Fr("84381.448") * ASEC], "obliquity at J2000", w)
            inside = lambda x, st: st.also(z3.And(dom.z(x) >= -100, dom.z(x) <= 100, dom.z(x) != 0))
            st = inside(t, State()); r, s1 = call(n, [t], st); ctx.cover(ex, s1, "mean_obliquity")
            for g, x in dom.alts(dom.lift(r)):
                if dom.feasible(ex, s1, g): s.same(ctx, dom, ex, s1 if g is True else s1.also(g), [x], [spec(t)], "Laskar's obliquity", w, Fr(1, 10 ** 9))
            for c in (1, -1):
                st2 = State().also(dom.z(t) * c > 100); r, s2 = call(n, [t], st2)
                s.same(ctx, dom, ex, s2, [r], [dom.lift(sum(k * c ** i for i, k in enumerate(LASKAR)) * ASEC)], "obliquity is held beyond 10000 years", w, Fr(1, 10 ** 6))
            # any sequence of calls: the state after a call is that of the last computed argument, or unchanged
            st = inside(u, s1); st = st.also(dom.z(u) != dom.z(t)); r, s2 = call(n, [u], st)
            for g, x in dom.alts(dom.lift(r)):
                if dom.feasible(ex, s2, g): s.same(ctx, dom, ex, s2 if g is True else s2.also(g), [x], [spec(u)], "obliquity does not depend on earlier calls", w)
            r, s2 = call(n, [t], s1)
            for g, x in dom.alts(dom.lift(r)):
                if dom.feasible(ex, s2, g): s.same(ctx, dom, ex, s2 if g is True else s2.also(g), [x], [spec(t)], "obliquity does not depend on earlier calls (repeated)", w)
        return Unit("obliquity", gen, fns=["mean_obliquity"], replay=s.rp_obl)

    def rp_obl(s, m):
        L = s.native(); f = native.fn(L, "mean_obliquity", ctypes.c_double, ctypes.c_double)
        for t in (m.get("t", 0), m.get("u", 0), 0.0, 1.0, -37.5, 99.0, 150.0, -150.0):
            x = max(-1, min(1, t / 100)); e = float(sum(k * Fr(x) ** i for i, k in enumerate(LASKAR)) * ASEC)
            g = f(t)
            if not abs(g - e) < 1e-7: return {"input": {"mean_obliquity": t}, "expected": e, "observed": g}

    # -------------------------------------------------- precession matrices
    def cen(s, dom, y): return dom.mul(dom.sub(dom.lift(y), dom.lift(2000.0)), dom.lift(Fr(1, 100)))

    def P(s, dom, m, y):
        """ecliptic precession from J2000 to year y: R3(-Pi - p) R1(eta) R3(Pi)"""
        t = s.cen(dom, y); a = lambda c: m.poly(t, *[x * ASEC for x in c])
        pi, eta, p = a(PI_A), a(ETA), a(P_A)
        return m.mul(m.T(m.rot(2, pi)), m.mul(m.T(m.rot(2, p)), m.mul(m.rot(0, eta), m.rot(2, pi))))

    def orth(s, ctx, dom, ex, st, m, A, name, where):
        A = [dom.lift(x) for x in A]
        s.same(ctx, dom, ex, st, m.mul(A, m.T(A)), I9, name + ": rows are orthonormal", where)
        c = [dom.sub(dom.mul(A[1], A[5]), dom.mul(A[2], A[4])), dom.sub(dom.mul(A[2], A[3]), dom.mul(A[0], A[5])), dom.sub(dom.mul(A[0], A[4]), dom.mul(A[1], A[3]))]
        s.same(ctx, dom, ex, st, c, A[6:9], name + ": right handed", where)

    def u_ecl_prec(s, case):
        """case: (from, to) with None symbolic"""
        def gen(ctx):
            dom, ex, m, st = s.start(ctx)
            a = dom.input(ex, "year_from", -10 ** 6, 10 ** 6) if case[0] is None else float(case[0])
            b = dom.input(ex, "year_to", -10 ** 6, 10 ** 6) if case[1] is None else float(case[1])
            w = "precess.cpp (setup_ecliptic_precession)"
            za, zb_ = dom.z(a), dom.z(b)
            far = lambda st, x, y: st.also(z3.Or(x - y > dom.q(Fr(1, 10 ** 5) * 2), y - x > dom.q(Fr(1, 10 ** 5) * 2)))
            for c, z in ((case[0], za), (case[1], zb_)):
                if c is None: st = far(st, z, z3.RealVal(2000))
            st = far(st, za, zb_)
            p = s.put(ex, st, "matrix", [None] * 9)
            _, s1 = ex.call_fn(s.prog.get("setup_ecliptic_precession"), [p, a, b], st)
            ctx.cover(ex, s1, "setup_ecliptic_precession %s" % (case,))
            got = s.get(ex, s1, p, 9)
            want = m.mul(s.P(dom, m, b), m.T(s.P(dom, m, a)))
            want = [dom.lift(x) for x in want]
            live = lambda st, vs: [RAlt([(g, x) for g, x in dom.alts(dom.lift(v)) if dom.feasible(ex, st, g)]) for v in vs]
            s.same(ctx, dom, ex, s1, live(s1, got), want, "ecliptic precession between two epochs is that to J2000 followed by that from J2000", w)
            if case == (None, None): s.orth(ctx, dom, ex, s1, m, s.P(dom, m, b), "published precession", w)
            # caching: repeating the call, and the call with the epochs exchanged, in the state it left
            q = s.put(ex, s1, "matrix2", [None] * 9)
            _, s2 = ex.call_fn(s.prog.get("setup_ecliptic_precession"), [q, a, b], s1)
            s.same(ctx, dom, ex, s2, live(s2, s.get(ex, s2, q, 9)), want, "repeated call gives the same matrix", w)
            q = s.put(ex, s1, "matrix3", [None] * 9)
            _, s3 = ex.call_fn(s.prog.get("setup_ecliptic_precession"), [q, b, a], s1)
            s.same(ctx, dom, ex, s3, live(s3, s.get(ex, s3, q, 9)), m.T(want), "exchanged epochs give the inverse matrix", w)
            q = s.put(ex, s3, "matrix4", [None] * 9)
            _, s4 = ex.call_fn(s.prog.get("setup_ecliptic_precession"), [q, a, b], s3)
            s.same(ctx, dom, ex, s4, live(s4, s.get(ex, s4, q, 9)), want, "repeated call after an exchanged one gives the same matrix", w)
            # a call with other epochs
            for k, (x, y) in enumerate(((None, None), (2000.0, None), (None, 2000.0), ("a", None), (None, "b"), ("b", None), (None, "a"))):
                c = {"a": a, "b": b}.get(x, x) if x is not None else dom.input(ex, "from%d" % k, -10 ** 6, 10 ** 6)
                d = {"a": a, "b": b}.get(y, y) if y is not None else dom.input(ex, "to%d" % k, -10 ** 6, 10 ** 6)
                if isinstance(c, float) and x in ("a", "b") or isinstance(d, float) and y in ("a", "b"): continue
                zc, zd = dom.z(c), dom.z(d); s5 = State(s1.pc, dict(s1.mem), dict(s1.env))
                for v, z in ((x, zc), (y, zd)):
                    if v is None:
                        for o in (z3.RealVal(2000), za, zb_):
                            s5 = far(s5, z, o)
                s5 = far(s5, zc, zd)
                if not ex.feasible(tuple(s5.pc)): continue
                q = s.put(ex, s5, "matrix5", [None] * 9)
                _, s6 = ex.call_fn(s.prog.get("setup_ecliptic_precession"), [q, c, d], s5)
                s.same(ctx, dom, ex, s6, live(s6, s.get(ex, s6, q, 9)), m.mul(s.P(dom, m, d), m.T(s.P(dom, m, c))), "result does not depend on earlier calls (%d)" % k, w)
            s7 = State(); q = s.put(ex, s7, "matrix7", [None] * 9); _, s8 = ex.call_fn(s.prog.get("setup_ecliptic_precession"), [q, a, a], s7)
            s.same(ctx, dom, ex, s8, s.get(ex, s8, q, 9), I9, "equal epochs give the identity", w)
        return Unit("ecliptic precession %s to %s" % tuple("any" if c is None else c for c in case), gen, fns=["setup_ecliptic_precession", "setup_ecliptic_precession_from_j2000"], replay=s.rp_prec, limit=400)

    def rp_prec(s, m):
        if "year_from" in m or "year_to" in m:
            return s.bad_prec(m.get("year_from", 2000.0), m.get("year_to", 2000.0), m)
        return None

    def E(s, dom, m, ex, y):
        """equatorial to ecliptic of date: turned by the mean obliquity"""
        return m.rot(0, s.obl(ex, dom, s.cen(dom, y)))

    def u_equ(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx)
            y = dom.input(ex, "year", -10 ** 6, 10 ** 6); t = s.cen(dom, y); w = "precess.cpp (setup_equatorial_precession_from_j2000)"
            p = s.put(ex, st, "matrix", [None] * 9); _, s1 = ex.call_fn(s.prog.get("setup_equatorial_precession_from_j2000"), [p, y], st)
            a = lambda c: m.poly(t, *[x * ASEC for x in c]); z, zz, th = a(ZETA), a(ZZ), a(THETA)
            want = m.mul(m.T(m.rot(2, zz)), m.mul(m.rot(1, th), m.T(m.rot(2, z))))
            s.same(ctx, dom, ex, s1, s.get(ex, s1, p, 9), want, "published equatorial precession", w)
            s.orth(ctx, dom, ex, s1, m, s.get(ex, s1, p, 9), "equatorial precession", w); ctx.covers += 1
        return Unit("equatorial precession", gen, fns=["setup_equatorial_precession_from_j2000"], replay=s.rp_equ)

    def u_setup(s, case):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx); ex.contracts["mean_obliquity"] = s.obl_handler(dom)
            a = dom.input(ex, "year_from", -10 ** 6, 10 ** 6) if case[0] is None else float(case[0])
            b = dom.input(ex, "year_to", -10 ** 6, 10 ** 6) if case[1] is None else float(case[1])
            w = "precess.cpp (setup_precession)"; far = Fr(2, 10 ** 5); za, zb_ = dom.z(a), dom.z(b)
            sep = lambda st, x, y: st.also(z3.Or(x - y > dom.q(far), y - x > dom.q(far)))
            if case[0] is None: st = sep(st, za, z3.RealVal(2000))
            if case[1] is None: st = sep(st, zb_, z3.RealVal(2000))
            st = sep(st, za, zb_)
            p = s.put(ex, st, "matrix", [None] * 9); _, s1 = ex.call_fn(s.prog.get("setup_precession"), [p, a, b], st)
            ctx.cover(ex, s1, "setup_precession")
            Ea, Eb = s.E(dom, m, ex, a), s.E(dom, m, ex, b)
            got = s.live(dom, ex, s1, s.get(ex, s1, p, 9))
            want = m.mul(m.T(Eb), m.mul(m.mul(s.P(dom, m, b), m.T(s.P(dom, m, a))), Ea))
            s.same(ctx, dom, ex, s1, got, want, "equatorial precession is the ecliptic one between the two obliquities", w)
            q = s.put(ex, s1, "matrix2", [None] * 9); _, s2 = ex.call_fn(s.prog.get("setup_precession"), [q, b, a], s1)
            s.same(ctx, dom, ex, s2, s.live(dom, ex, s2, s.get(ex, s2, q, 9)), m.T(want), "precession back is the inverse", w)
            q = s.put(ex, s1, "matrix3", [None] * 9); s4 = State(); q = s.put(ex, s4, "m", [None] * 9); _, s5 = ex.call_fn(s.prog.get("setup_precession"), [q, a, a], s4)
            s.same(ctx, dom, ex, s5, s.live(dom, ex, s5, s.get(ex, s5, q, 9)), I9, "no precession between equal epochs", w)
        return Unit("precession %s to %s" % tuple("any" if c is None else c for c in case), gen, fns=["setup_precession"], replay=s.rp_prec, limit=400)

    def live(s, dom, ex, st, vs): return [RAlt([(g, x) for g, x in dom.alts(dom.lift(v)) if dom.feasible(ex, st, g)]) for v in vs]

    def nut_handler(s, dom, ex):
        """contract of nutation(): stores some values through the pointers that are not null"""
        def h(ex, st, a, inst, fr):
            for i, nm in ((1, "dpsi"), (2, "deps")):
                if isinstance(a[i], int) or a[i] == NULL: continue
                ex.store(st, a[i], DBL, dom.v(dom.atom(nm, "angle", dom.lift(a[0]), -100, 100)), inst)
            return 0, st
        return h

    def u_nut(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx); ex.contracts["mean_obliquity"] = s.obl_handler(dom); ex.contracts["nutation"] = s.nut_handler(dom, ex)
            y = dom.input(ex, "year", -10 ** 6, 10 ** 6); w = "precess.cpp (setup_precession_with_nutation_delta)"
            d1, d2 = dom.input(ex, "dlon", -1, 1), dom.input(ex, "dobl", -1, 1)
            p = s.put(ex, st, "matrix", [None] * 9); _, s1 = ex.call_fn(s.prog.get("setup_precession_with_nutation_delta"), [p, y, d1, d2], st)
            s.orth(ctx, dom, ex, s1, m, s.get(ex, s1, p, 9), "precession with nutation", w); ctx.covers += 1
        return Unit("precession with nutation", gen, fns=["setup_precession_with_nutation_delta"], replay=s.rp_nut, limit=400)

    def u_gal(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx)
            for f in ("j2000_to_galactic_matrix", "j2000_to_supergalactic_matrix"):
                p, s1 = ex.call_fn(s.prog.get(f), [], st)
                A = s.get(ex, s1, p, 9)
                dom.ex = ex
                G = m.mul(A, m.T(A))
                s.same(ctx, dom, ex, s1, G, I9, f + " is orthonormal", "alt_az.cpp (%s)" % f, Fr(3, 10 ** 8))
                s.same(ctx, dom, ex, s1, [A[1] * A[5] - A[2] * A[4], A[2] * A[3] - A[0] * A[5], A[0] * A[4] - A[1] * A[3]], A[6:], f + " is right handed", "alt_az.cpp (%s)" % f, Fr(3, 10 ** 8))
            # pole and centre of the galactic system (Hipparcos vol. 1, 1.5.3): (192.85948, 27.12825), longitude of the celestial pole 122.93192
            ra, de = (math.radians(x) for x in (192.85948, 27.12825))
            p, s1 = ex.call_fn(s.prog.get("j2000_to_galactic_matrix"), [], st); A = s.get(ex, s1, p, 9)
            s.same(ctx, dom, ex, s1, A[6:], [math.cos(ra) * math.cos(de), math.sin(ra) * math.cos(de), math.sin(de)], "galactic pole", "alt_az.cpp (j2000_to_galactic_matrix)", Fr(1, 10 ** 6))
            s.same(ctx, dom, ex, s1, [A[2], A[5]], [math.cos(de) * math.cos(math.radians(122.93192)), math.cos(de) * math.sin(math.radians(122.93192))], "galactic longitude of the celestial pole", "alt_az.cpp (j2000_to_galactic_matrix)", Fr(1, 10 ** 6))
            # supergalactic (de Vaucouleurs): pole at l = 47.37, b = 6.32, origin at l = 137.37, b = 0
            p, s1 = ex.call_fn(s.prog.get("j2000_to_supergalactic_matrix"), [], st); B = s.get(ex, s1, p, 9)
            u = lambda l, b: [math.cos(b) * math.cos(l), math.cos(b) * math.sin(l), math.sin(b)]
            inv = lambda v: [sum(A[3 * k + i] * v[k] for k in range(3)) for i in range(3)]
            s.same(ctx, dom, ex, s1, B[6:], inv(u(math.radians(47.37), math.radians(6.32))), "supergalactic pole", "alt_az.cpp (j2000_to_supergalactic_matrix)", Fr(1, 10 ** 4))
            s.same(ctx, dom, ex, s1, B[:3], inv(u(math.radians(137.37), 0.0)), "supergalactic origin", "alt_az.cpp (j2000_to_supergalactic_matrix)", Fr(1, 10 ** 4))
            ctx.covers += 1
        return Unit("galactic frames", gen, fns=["j2000_to_galactic_matrix", "j2000_to_supergalactic_matrix"], replay=None)

    def asine_handler(s, dom):
        return lambda ex, st, a, inst, fr: dom.f_asin_clamped(ex, st, inst, a[0])

    def u_radec(s):
        def gen(ctx):
            for back in (0, 1):
                dom, ex, m, st = s.start(ctx); ex.contracts["asine"] = s.asine_handler(dom)
                al, be, ga = (dom.input(ex, n, -4, 4) for n in ("ang1", "ang2", "ang3"))     # every rotation is of this form
                A = m.mul(m.rot(2, al), m.mul(m.rot(0, be), m.rot(2, ga)))
                ra, de = dom.input(ex, "ra", -13, 13), dom.input(ex, "dec", -8, 8)
                pm, pi, po = s.put(ex, st, "matrix", A), s.put(ex, st, "p_in", [ra, de]), s.put(ex, st, "p_out", [None] * 2)
                _, s1 = ex.call_fn(s.prog.get("precess_ra_dec"), [pm, po, pi, back], st)
                w = "precess.cpp (precess_ra_dec)"
                o = s.get(ex, s1, po, 2)
                want = [dom.lift(x) for x in m.app(m.T(A) if back else A, m.unit(ra, de))]
                sq = dom.add(dom.add(dom.mul(want[0], want[0]), dom.mul(want[1], want[1])), dom.mul(want[2], want[2]))
                s.same(ctx, dom, ex, s1, [sq], [1.0], "lemma: turned direction is a unit vector", w)
                for g, x in dom.alts(dom.lift(o[0])):
                    s2 = s1 if g is True else s1.also(g)
                    if not ex.feasible(tuple(s2.pc)): continue
                    # direction: cos(dec) (cos ra, sin ra) and sin(dec)
                    S, C = dom.sincos(x)
                    for h, y in dom.alts(dom.lift(o[1])):
                        s3 = s2 if h is True else s2.also(h)
                        if not ex.feasible(tuple(s3.pc)): continue
                        S2, C2 = dom.sincos(y)
                        got = [dom.mul(C, C2), dom.mul(S, C2), S2]
                        if set(x.p) <= {()}:   # pole: both components vanish on this path
                            ex.oblige(State(s3.pc), z3.And(dom.z(want[0]) == 0, dom.z(want[1]) == 0), "right ascension is set to zero only at a pole", where=w, kind="post")
                            s.same(ctx, dom, ex, s3, [S2], [want[2]], "declination", w)
                        else: s.same(ctx, dom, ex, s3, got, want, "turned direction", w)
                    ex.oblige(State(s2.pc), z3.And(dom.z(x) - dom.z(ra) <= dom.q(Fr(math.pi) + Fr(1, 10 ** 6)), dom.z(x) - dom.z(ra) >= -dom.q(Fr(math.pi) + Fr(1, 10 ** 6))), "right ascension within half a turn of the given one", where=w, kind="post")
                ctx.cover(ex, s1, "precess_ra_dec")
        return Unit("precess_ra_dec", gen, fns=["precess_ra_dec"], limit=400, replay=s.rp_radec)

    # -------------------------------------------------- numeric reference, replay and search on the real code
    def nrot(s, ax, t):
        c, z = math.cos(t), math.sin(t); a, b = (ax + 1) % 3, (ax + 2) % 3
        R = [0.0] * 9; R[4 * ax] = 1.0; R[4 * a] = R[4 * b] = c; R[3 * a + b] = z; R[3 * b + a] = -z
        return R

    def nmul(s, *Ms):
        r = Ms[0]
        for B in Ms[1:]: r = [sum(r[3 * i + k] * B[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]
        return r

    def nT(s, A): return [A[3 * j + i] for i in range(3) for j in range(3)]

    def nP(s, y):
        t = (y - 2000) / 100; f = lambda c: sum(float(k) * t ** i for i, k in enumerate(c)) * float(ASEC)
        pi, eta, p = f(PI_A), f(ETA), f(P_A)
        return s.nmul(s.nrot(2, -pi - p), s.nrot(0, eta), s.nrot(2, pi))

    def neps(s, y):
        x = max(-1.0, min(1.0, (y - 2000) / 10000))
        return float(sum(float(k) * x ** i for i, k in enumerate(LASKAR))) * float(ASEC)

    def call_mat(s, f, *y):
        L = s.native(); b = (ctypes.c_double * 9)()
        g = native.fn(L, f, ctypes.c_int, ctypes.c_void_p, *[ctypes.c_double] * len(y)); g(b, *y)
        return list(b)

    def bad_prec(s, a, b, hist=None):
        if not all(abs(x - 2000) < 50000 for x in (a, b)) or abs(a - b) < 1e-4: return None
        pe = s.nmul(s.nP(b), s.nT(s.nP(a)))
        want = {"setup_ecliptic_precession": pe, "setup_precession": s.nmul(s.nrot(0, -s.neps(b)), pe, s.nrot(0, s.neps(a)))}
        for f, e in want.items():
            def run():
                out = [s.call_mat(f, a, b)]
                out.append(s.call_mat(f, a, b)); out.append(s.nT(s.call_mat(f, b, a))); out.append(s.call_mat(f, a, b))
                for c, d in ((2000.0, b), (a, 2000.0), (b + 3, a), (a, b + 3), (b, a - 7), (2000.0, a)):
                    s.call_mat(f, c, d); out.append(s.call_mat(f, a, b))
                return out
            k, x = native.guarded(run)
            if k != "ok": return {"input": {f: [a, b]}, "observed": (k, x)}
            for i, g in enumerate(x):
                if max(abs(p - q) for p, q in zip(g, e)) > 3e-9: return {"input": {f: [a, b], "call": i}, "expected": e, "observed": g}

    def rp_equ(s, m): return s.bad_equ(m.get("year", 1900.0))

    def bad_equ(s, y):
        if abs(y - 2000) > 20000: return None
        t = (y - 2000) / 100; f = lambda c: sum(float(k) * t ** i for i, k in enumerate(c)) * float(ASEC)
        e = s.nmul(s.nrot(2, -f(ZZ)), s.nrot(1, f(THETA)), s.nrot(2, -f(ZETA))); g = s.call_mat("setup_equatorial_precession_from_j2000", y)
        if max(abs(p - q) for p, q in zip(g, e)) > 3e-9: return {"input": {"setup_equatorial_precession_from_j2000": y}, "expected": e, "observed": g}

    def rp_nut(s, m): return s.bad_nut(m.get("year", 1900.0), m.get("dlon", 0.1), m.get("dobl", 0.1))

    def bad_nut(s, y, a, b):
        if abs(y - 2000) > 20000: return None
        g = s.call_mat("setup_precession_with_nutation_delta", y, a, b)
        e = s.nmul(g, s.nT(g)); c = [g[1] * g[5] - g[2] * g[4], g[2] * g[3] - g[0] * g[5], g[0] * g[4] - g[1] * g[3]]
        if max(abs(p - q) for p, q in zip(e, I9)) > 1e-9 or max(abs(p - q) for p, q in zip(c, g[6:])) > 1e-9:
            return {"input": {"setup_precession_with_nutation_delta": [y, a, b]}, "expected": "a rotation matrix", "observed": g}

    def rp_radec(s, m): return s.bad_radec([m.get(k, 0.3) for k in ("ang1", "ang2", "ang3", "ra", "dec")])

    def bad_radec(s, v):
        A = s.nmul(s.nrot(2, v[0]), s.nrot(0, v[1]), s.nrot(2, v[2])); L = s.native()
        f = native.fn(L, "precess_ra_dec", ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int)
        u = lambda a, b: [math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b)]
        for back in (0, 1):
            o = (ctypes.c_double * 2)(); i = (ctypes.c_double * 2)(v[3], v[4]); M9 = (ctypes.c_double * 9)(*A)
            k, x = native.guarded(lambda: (f(M9, o, i, back), list(o))[1])
            B = s.nT(A) if back else A; w = u(v[3], v[4]); e = [sum(B[3 * r + c] * w[c] for c in range(3)) for r in range(3)]
            if k != "ok" or max(abs(p - q) for p, q in zip(u(*x), e)) > 1e-6 or abs(x[0] - v[3]) > math.pi + 1e-6:
                return {"input": {"precess_ra_dec": {"matrix": A, "p_in": v[3:], "backward": back}}, "expected direction": e, "observed": (k, x)}

    def bad_small(s, rng):
        """the small functions at random arguments"""
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p; r = lambda: rng.uniform(-3, 3)
        def vec(f, v, *a, n=3):
            b = (D * n)(*v); native.fn(L, f, None, V, *[D if isinstance(x, float) else ctypes.c_int if isinstance(x, int) else V for x in a])(b, *a); return list(b)
        dif = lambda a, b: max(abs(x - y) for x, y in zip(a, b)) > 1e-9
        app = lambda A, v: [sum(A[3 * i + k] * v[k] for k in range(3)) for i in range(3)]
        v = [r(), r(), r()]; ang = r(); A = [r() for _ in range(9)]
        for ax in range(3):
            g = vec("rotate_vector", v, ang, ax)
            if dif(g, app(s.nrot(ax, -ang), v)): return {"input": {"rotate_vector": [v, ang, ax]}, "observed": g}
        eps = math.radians(84381.448 / 3600)
        for f, e in (("equatorial_to_ecliptic", eps), ("ecliptic_to_equatorial", -eps)):
            g = vec(f, v)
            if dif(g, app(s.nrot(0, e), v)): return {"input": {f: v}, "observed": g}
        g = vec("set_identity_matrix", A, n=9)
        if dif(g, I9): return {"input": "set_identity_matrix", "observed": g}
        g = vec("invert_orthonormal_matrix", A, n=9)
        if dif(g, s.nT(A)): return {"input": {"invert_orthonormal_matrix": A}, "observed": g}
        for f, B in (("precess_vector", A), ("deprecess_vector", s.nT(A))):
            for inpl in (0, 1):
                m9 = (D * 9)(*A); i = (D * 3)(*v); o = i if inpl else (D * 3)()
                native.fn(L, f, ctypes.c_int, V, V, V)(m9, i, o)
                if dif(list(o), app(B, v)): return {"input": {f: [A, v], "in place": inpl}, "observed": list(o)}
        for i in range(3):
            for j in range(3):
                if i == j: continue
                R = list(I9); R[4 * i] = R[4 * j] = math.cos(ang); R[3 * i + j] = -math.sin(ang); R[3 * j + i] = math.sin(ang)
                for f, st, e in (("spin_matrix", 24, s.nmul(R, A)), ("pre_spin_matrix", 8, s.nmul(A, s.nT(R)))):
                    b = (D * 9)(*A); ad = ctypes.addressof(b)
                    native.fn(L, f, None, V, V, D)(ad + st * i, ad + st * j, ang)
                    if dif(list(b), e): return {"input": {f: [A, i, j, ang]}, "observed": list(b)}
        g = vec("polar3_to_cartesian", v, ang, v[0])
        if dif(g, [math.cos(ang) * math.cos(v[0]), math.sin(ang) * math.cos(v[0]), math.sin(v[0])]): return {"input": {"polar3_to_cartesian": [ang, v[0]]}, "observed": g}
        w = A[:3]; x = (D * 3)(); native.fn(L, "vector_cross_product", None, V, V, V)(x, (D * 3)(*v), (D * 3)(*w))
        if dif(list(x), [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]): return {"input": {"vector_cross_product": [v, w]}, "observed": list(x)}
        n = math.sqrt(sum(a * a for a in v))
        for f, e in (("vector3_length", n), ("normalize_vect3", n)):
            b = (D * 3)(*v); g = native.fn(L, f, D, V)(b)
            if abs(g - e) > 1e-9 or (f[0] == "n" and dif(list(b), [a / n for a in v])): return {"input": {f: v}, "observed": [g, list(b)]}
        g = native.fn(L, "dot_product", D, V, V)((D * 3)(*v), (D * 3)(*w))
        if abs(g - sum(a * b for a, b in zip(v, w))) > 1e-9: return {"input": {"dot_product": [v, w]}, "observed": g}

    def probe(s, rng):
        y = lambda: rng.choice((2000.0, rng.uniform(1800, 2200), rng.uniform(-3000, 6000), rng.uniform(-9000, 13000)))
        return s.bad_small(rng) or s.bad_prec(y(), y()) or s.bad_equ(y()) or s.bad_nut(y(), rng.uniform(-1, 1), rng.uniform(-1, 1)) or s.rp_obl({"t": rng.uniform(-120, 120)}) or \
            s.bad_radec([rng.uniform(-4, 4) for _ in range(3)] + [rng.uniform(-12, 12), rng.uniform(-1.6, 1.6)])

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            while time.time() < end:
                note("random probe")
                r = s.probe(rng)
                if r: return r
        return w

    def sanity(s):
        rng = random.Random(s.seed)
        for i in range(40):
            r = s.probe(rng)
            if r: return i, r
        return 40, None

    def units(s):
        cs = ((None, None), (2000, None), (None, 2000))
        return [s.u_ecl_prec(c) for c in cs] + [s.u_setup(c) for c in cs] + [s.u_nut(), s.u_radec(), s.u_matrix(), s.u_vector(), s.u_ecl(), s.u_obl(), s.u_equ(), s.u_gal()]


CHECKS = {"C10": C10}
