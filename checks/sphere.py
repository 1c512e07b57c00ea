"""C11: distance and position angle on the sphere (dist_pa.cpp)"""
import ctypes, math, random
from fractions import Fraction as Fr
from check import *
from real import RealDom, RV, RAlt, pscale
from desig import fail
from rot import Rot, M

SRC = ["dist_pa.cpp"]
PI = Fr(math.pi)
TOL = Fr(1, 10 ** 9)


class C11(Rot):
    id = "C11"; title = "Angular distance and position angle are right, and lead back to the point"
    assumptions = ["floating-point arithmetic is treated as real arithmetic; identities hold to 1e-9",
                   "sin, cos, sqrt, asin, acos, atan2 of the C library are the real functions"]

    def setup(s):
        s.prog = Program(SRC); s.nat = None

    def native(s):
        if s.nat is None: s.nat = native.build(SRC, "dpa")
        return s.nat

    def comps(s, dom, m, p1, p2):
        """x = sin D sin(-A), y = sin D cos A, z = cos D, from the unit vectors"""
        S, C = dom.sincos(dom.sub(p2[0], p1[0])); s1, c1 = dom.sincos(p1[1]); s2, c2 = dom.sincos(p2[1])
        x = dom.mul(S, c2); y = dom.sub(dom.mul(s2, c1), dom.mul(dom.mul(s1, c2), C)); z = dom.add(dom.mul(s1, s2), dom.mul(dom.mul(c1, c2), C))
        return x, y, z

    def alts(s, dom, ex, st, r):
        for g, x in dom.alts(dom.lift(r)):
            s2 = st if g is True else st.also(g)
            if g is True or ex.feasible(tuple(s2.pc)): yield s2, x

    def u_dist(s, pa):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx); w = "dist_pa.cpp (calc_dist_and_posn_ang)"
            ra1, d1, ra2, d2 = (dom.input(ex, n, -13, 13) for n in ("ra1", "dec1", "ra2", "dec2"))
            p1, p2 = s.put(ex, st, "p1", [ra1, d1]), s.put(ex, st, "p2", [ra2, d2]); pd = s.put(ex, st, "dist", [None])
            pp = s.put(ex, st, "posn_ang", [None]) if pa else NULL
            r, s1 = ex.call_fn(s.prog.get("calc_dist_and_posn_ang"), [p1, p2, pd, pp], st); ctx.cover(ex, s1, "calc_dist_and_posn_ang")
            x, y, z = s.comps(dom, m, [ra1, d1], [ra2, d2]); q = dom.add(dom.mul(x, x), dom.mul(y, y))
            s.same(ctx, dom, ex, s1, [dom.add(q, dom.mul(z, z))], [1.0], "lemma: the components are those of a unit vector", w)
            s.same(ctx, dom, ex, s1, s.get(ex, s1, p1, 2) + s.get(ex, s1, p2, 2), [ra1, d1, ra2, d2], "points are not changed", w)
            (D,) = s.get(ex, s1, pd, 1)
            for s2, v in s.alts(dom, ex, s1, D):
                SD, CD = dom.sincos(v)
                s.same(ctx, dom, ex, s2, [CD], [z], "cosine of the distance", w)
                ex.oblige(State(s2.pc), z3.And(dom.z(v) >= -dom.q(TOL), dom.z(v) <= dom.q(PI + TOL)), "distance within 0 and half a turn", where=w, kind="post")
                if not pa: continue
                (A,) = s.get(ex, s1, pp, 1)
                for s3, a in s.alts(dom, ex, s2, A):
                    ex.oblige(State(s3.pc), z3.And(dom.z(a) >= 0, dom.z(a) < dom.q(2 * PI)), "position angle within 0 and a whole turn", where=w, kind="post")
                    if not a.p:
                        continue
                    SA, CA = dom.sincos(a)
                    s.same(ctx, dom, ex, s3, [dom.mul(SD, CA)], [y], "position angle: north component", w)
                    s.same(ctx, dom, ex, s3, [dom.mul(SD, SA)], [dom.neg(ex, x)], "position angle: east component", w)
            if pa:
                undef = z3.And(dom.z(x) == 0, dom.z(y) == 0)
                (A,) = s.get(ex, s1, pp, 1)
                zx, zy = dom.z(x), dom.z(y)
                ex.oblige(State(s1.pc), zi(r) == z3.If(s.undef(dom, ex, s1, x, y), z3.IntVal(-1), z3.IntVal(0)), "-1 exactly when the position angle is undefined", where=w, kind="post")
            else: ex.oblige(State(s1.pc), zi(r) == 0, "no error without a position angle", where=w, kind="post")
        return Unit("distance%s" % (" and position angle" if pa else ""), gen, fns=["calc_dist_and_posn_ang"], replay=s.rp, limit=300)

    def undef(s, dom, ex, st, x, y):
        """both components vanish, in the terms the code compares"""
        c = []
        for v in (x, y):
            n = dom.nf(v.p)
            c.append(dom.z(RV(n)) == 0)
            for w in dom.cands:
                if dom.small(dom.nf(RV(__import__("real").padd(w.p, v.p, -1)).p)): c[-1] = dom.z(w) == 0
        return z3.And(*c)

    def u_reverse(s):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx); w = "dist_pa.cpp (reverse_dist_and_posn_ang)"
            ra, de = dom.input(ex, "ra", -13, 13), dom.input(ex, "dec", -13, 13); D, A = dom.input(ex, "dist", -13, 13), dom.input(ex, "posn_ang", -13, 13)
            pf, pt = s.put(ex, st, "from", [ra, de]), s.put(ex, st, "to", [None] * 2)
            _, s1 = ex.call_fn(s.prog.get("reverse_dist_and_posn_ang"), [pt, pf, D, A], st); ctx.cover(ex, s1, "reverse_dist_and_posn_ang")
            SD, CD = dom.sincos(D); SA, CA = dom.sincos(A); sl, cl = dom.sincos(de)
            x = dom.sub(dom.mul(cl, CD), dom.mul(dom.mul(sl, SD), CA)); y = dom.mul(SD, SA); z = dom.add(dom.mul(sl, CD), dom.mul(dom.mul(cl, SD), CA))
            q = dom.add(dom.add(dom.mul(x, x), dom.mul(y, y)), dom.mul(z, z))
            s.same(ctx, dom, ex, s1, [q], [1.0], "lemma: the components are those of a unit vector", w)
            # seen from 'from', a point with cos(dec') cos(dra) = x, cos(dec') sin(dra) = -y, sin(dec') = z is at distance D and position angle A
            s.same(ctx, dom, ex, s1, [dom.add(dom.mul(sl, z), dom.mul(cl, x))], [CD], "lemma: distance of that point", w)
            s.same(ctx, dom, ex, s1, [dom.sub(dom.mul(z, cl), dom.mul(sl, x))], [dom.mul(SD, CA)], "lemma: position angle of that point", w)
            R, E = s.get(ex, s1, pt, 2)
            s.same(ctx, dom, ex, s1, s.get(ex, s1, pf, 2), [ra, de], "starting point is not changed", w)
            for s2, r in s.alts(dom, ex, s1, R):
                dr = dom.sub(r, ra)
                Sr, Cr = dom.sincos(dr)
                for s3, e in s.alts(dom, ex, s2, E):
                    Se, Ce = dom.sincos(e)
                    s.same(ctx, dom, ex, s3, [Se], [z], "declination of the destination", w)
                    ex.oblige(State(s3.pc), z3.And(dom.z(e) >= -dom.q(PI / 2 + TOL), dom.z(e) <= dom.q(PI / 2 + TOL)), "declination within a quarter turn of the equator", where=w, kind="post")
                    for s4, ce in s.alts(dom, ex, s3, Ce):
                        if not dr.p:      # a pole: both components vanish on this path
                            ex.oblige(State(s4.pc), s.undef(dom, ex, s4, x, y), "right ascension is kept only at a pole", where=w, kind="post")
                        else: s.same(ctx, dom, ex, s4, [dom.mul(ce, Cr), dom.mul(ce, Sr)], [x, dom.neg(ex, y)], "direction of the destination", w)
        return Unit("point at a distance and position angle", gen, fns=["reverse_dist_and_posn_ang"], replay=s.rp_rev, limit=300)

    def units(s): return [s.u_dist(True), s.u_dist(False), s.u_reverse()]

    # -------------------------------------------------- real code
    def ang(s, a, b):
        """difference of two angles"""
        d = (a - b) % (2 * math.pi)
        return min(d, 2 * math.pi - d)

    def bad(s, v):
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p
        f = native.fn(L, "calc_dist_and_posn_ang", ctypes.c_int, V, V, V, V)
        u = lambda a, b: [math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b)]
        a, b = u(*v[:2]), u(*v[2:])
        d, p = D(9), D(9); k, x = native.guarded(lambda: (f((D * 2)(*v[:2]), (D * 2)(*v[2:]), ctypes.addressof(d), ctypes.addressof(p)), d.value, p.value, f((D * 2)(*v[:2]), (D * 2)(*v[2:]), ctypes.addressof(d), None)))
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        e = math.atan2(math.sqrt(sum(t * t for t in c)), sum(s * t for s, t in zip(a, b)))
        X = math.sin(v[2] - v[0]) * math.cos(v[3]); Y = math.sin(v[3]) * math.cos(v[1]) - math.cos(v[3]) * math.sin(v[1]) * math.cos(v[2] - v[0])
        pa = math.atan2(-X, Y) % (2 * math.pi)
        info = {"input": {"calc_dist_and_posn_ang": v}, "expected": [e, pa], "observed": (k, x)}
        if k != "ok" or not abs(x[1] - e) < 1e-7: return info
        if math.hypot(X, Y) > 1e-6 and (x[0] != 0 or s.ang(x[2], pa) > 1e-6 or not 0 <= x[2] <= 2 * math.pi): return info
        if v[:2] == v[2:] and (x[0] != -1 or x[2] != 0): return dict(info, expected=[0, 0, "returns -1"])
        if x[3] != 0: return dict(info, expected="returns 0 without position angle")

    def bad_rev(s, v):
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p
        f = native.fn(L, "reverse_dist_and_posn_ang", None, V, V, D, D); to = (D * 2)(); k, x = native.guarded(lambda: (f(to, (D * 2)(*v[:2]), v[2], v[3]), list(to))[1])
        cl, sl = math.cos(v[1]), math.sin(v[1]); SD, CD = math.sin(v[2]), math.cos(v[2]); CA, SA = math.cos(v[3]), math.sin(v[3])
        e = [cl * CD - sl * SD * CA, -SD * SA, sl * CD + cl * SD * CA]
        info = {"input": {"reverse_dist_and_posn_ang": v}, "expected direction": e, "observed": (k, x)}
        if k != "ok" or not abs(x[1]) <= math.pi / 2 + 1e-9: return info
        g = [math.cos(x[1]) * math.cos(x[0] - v[0]), math.cos(x[1]) * math.sin(x[0] - v[0]), math.sin(x[1])]
        if max(abs(p - q) for p, q in zip(g, e)) > 1e-6: return info

    def rp(s, m): return s.bad([m.get(k, .1) for k in ("ra1", "dec1", "ra2", "dec2")])
    def rp_rev(s, m): return s.bad_rev([m.get(k, .1) for k in ("ra", "dec", "dist", "posn_ang")])

    def probe(s, rng):
        r = lambda: rng.choice((rng.uniform(-6.3, 6.3), rng.uniform(-1.5, 1.5), 0.0, math.pi / 2, -math.pi / 2, math.pi))
        v = [r() for _ in range(4)]
        if rng.random() < .3: v[2] = v[0] + rng.uniform(-.01, .01); v[3] = v[1] + rng.uniform(-.01, .01)
        if rng.random() < .2: v[2] = v[0] + math.pi + rng.uniform(-.1, .1); v[3] = -v[1]
        if rng.random() < .1: v[2:] = v[:2]
        return s.bad(v) or s.bad_rev(v)

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            while time.time() < end:
                note("random probe"); r = s.probe(rng)
                if r: return r
        return w

    def sanity(s):
        rng = random.Random(s.seed)
        for i in range(300):
            r = s.probe(rng)
            if r: return i, r
        return 300, None


CHECKS = {"C11": C11}
