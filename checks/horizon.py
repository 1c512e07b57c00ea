"""C15: hour angle / declination to altitude / azimuth and back (alt_az.cpp)"""
import ctypes, math, random
from fractions import Fraction as Fr
from check import *
from real import RealDom, RV, RAlt, pscale, padd, pmul, ONE
from desig import fail
from rot import Rot, M, SRC, NAT, DBL

PI = Fr(math.pi)
TOL = Fr(1, 10 ** 9)
OBL = math.cos(math.radians(84381.448 / 3600))


class C15(Rot):
    id = "C15"; title = "Altitude and azimuth are those of the direction, and lead back to it"
    assumptions = ["floating-point arithmetic is treated as real arithmetic; identities hold to 1e-9",
                   "sin, cos, sqrt, asin, acos of the C library are the real functions, with fmod's whole quotient; asine() and acose() are those where arguments are shown to be within -1..1 (their own units prove that)",
                   "green_sidereal_time(), nutation() and precess_pt() return arbitrary values here (precession: C10)",
                   "directions other than the zenith, the nadir and the celestial poles (azimuth or hour angle undefined there)"]

    def setup(s):
        s.prog = Program(SRC); s.nat = None

    def native(s):
        if s.nat is None: s.nat = native.build(NAT, "hor")
        return s.nat

    def pieces(s, dom, ex, st, lat, a, b):
        """(sin of the new height, its cosine, north or south component, sideways component) of height a, bearing b"""
        sl, cl = lat; sa, ca = dom.sincos(a); sb, cb = dom.sincos(b); mul, add, sub = dom.mul, dom.add, dom.sub
        z = add(mul(sl, sa), mul(mul(cl, ca), cb)); n = sub(mul(sa, cl), mul(mul(ca, cb), sl)); w = mul(ca, sb)
        c = dom.root(ex, st, RV(dom.nf(sub(dom.lift(1.0), mul(z, z)).p)), None)
        return z, c, n, w, ca

    def common(s, ctx, pole):
        dom, ex, m, st = s.start(ctx)
        if pole: lat = dom.lift(0.0); sl, cl = dom.lift(float(pole)), dom.lift(0.0); latv = pole * math.pi / 2
        else: latv = dom.input(ex, "ang_lat", -PI / 2, PI / 2); sl, cl = dom.sincos(latv); st = st.also(dom.z(cl) > dom.q(Fr(2, 10 ** 5)))
        ex.contracts["asine"] = lambda ex, st, a, i, fr: dom.f_asin(ex, st, i, a[0])
        ex.contracts["acose"] = lambda ex, st, a, i, fr: dom.f_acos(ex, st, i, a[0])
        th = dom.v(dom.atom("sidereal", "in", None, -100, 100)); ex.contracts["green_sidereal_time"] = lambda ex, st, a, i, fr: th
        return dom, ex, m, st, latv, sl, cl, th

    def prep(s, ctx, dom, ex, st, z, c, n, w, cx, sx, cl, pole):
        c_, = [v for g, v in dom.alts(c)] if not isinstance(c, RV) else (c,)
        st = st.also(dom.z(c_) > 0).also(dom.z(cx) > 0)
        dom.positive(c_, cx); dom.hints += [c_, cx, sx]
        N, W = dom.div(ex, st, n, c_, None), dom.div(ex, st, w, c_, None)
        dom.know([N, W, dom.neg(ex, N), dom.neg(ex, W), c_, z]); dom.scaled(cx, sx); dom.scaled(c_, W)
        if not pole: dom.positive(cl, dom.mul(cl, c_)); dom.hints.append(cl)
        dom.hints += [N, W]
        # n^2 + w^2 = c^2 = 1 - z^2 (identities, checked here), hence N^2 + W^2 = 1 and N, W, z are within -1..1
        nw = padd(pmul(n.p, n.p), pmul(w.p, w.p))
        if not dom.is_zero(padd(nw, pmul(c_.p, c_.p), -1)) or not dom.is_zero(padd(padd(nw, pmul(z.p, z.p)), {ONE: Fr(1)}, -1)): ctx.failed.append(fail("lemma", "the components are those of a unit vector", {}))
        for v in (N, W, z): st = st.also(z3.And(dom.z(v) >= -1, dom.z(v) <= 1))
        return st, c_, N, W

    def u_to(s, pole, precess):
        def gen(ctx):
            dom, ex, m, st, latv, sl, cl, th = s.common(ctx, pole); w_ = "alt_az.cpp (full_ra_dec_to_alt_az)"
            ha, dec = dom.input(ex, "ang_ha", -13, 13), dom.input(ex, "ang_dec", -PI / 2, PI / 2); lon = dom.input(ex, "lon", -7, 7); jd = dom.input(ex, "jd", -10 ** 9, 10 ** 9)
            nut = dom.v(dom.atom("nutation", "in", None, -100, 100)); calls = []

            def h(ex, st, a, i, fr):
                calls.append(a[0])
                if not (isinstance(a[1], int) or a[1] == NULL): ex.store(st, a[1], DBL, nut, i)
                return 0, st
            ex.contracts["nutation"] = h
            z, c, n, w, cd = s.pieces(dom, ex, st, (sl, cl), dec, ha)
            st, c, N, W = s.prep(ctx, dom, ex, st, z, c, n, w, cd, dom.sincos(ha)[0], cl, pole)
            x = dom.neg(ex, dom.add(dom.add(ha, th), dom.add(lon, dom.mul(nut, dom.lift(Fr(OBL * math.pi / 180 / 3600))))))
            pl = s.put(ex, st, "loc_epoch", [None, None] if precess else [x, dec]); pr = NULL
            if precess:
                pr = s.put(ex, st, "ra_dec", [dom.input(ex, "ra0", -13, 13), dom.input(ex, "dec0", -2, 2)])

                def pp(ex, st, a, i, fr):
                    s.same(ctx, dom, ex, st, [a[2], a[3]], [2000.0, dom.add(dom.lift(2000.0), dom.mul(dom.sub(jd, dom.lift(2451545)), dom.lift(Fr(1) / Fr("365.25"))))], "precessed from 2000 to the date", w_)
                    if a[1] != pr: ctx.failed.append(fail("precession", "the given direction is precessed", {}))
                    ex.store(st, a[0], DBL, x, i); ex.store(st, ex.padd(st, a[0], 8), DBL, dec, i); return None, st
                ex.contracts["precess_pt"] = pp
            pa = s.put(ex, st, "alt_az", [None, None]); pt = s.put(ex, st, "latlon", [lon, latv]); ph = s.put(ex, st, "hr_ang", [None])
            _, s1 = ex.call_fn(s.prog.get("full_ra_dec_to_alt_az"), [pr, pa, pl, pt, jd, ph], st); ctx.cover(ex, s1, "full_ra_dec_to_alt_az")
            s.same(ctx, dom, ex, s1, calls, [dom.mul(dom.sub(jd, dom.lift(2451545)), dom.lift(Fr(1, 36525)))] * len(calls), "nutation of this date", w_)
            s.same(ctx, dom, ex, s1, s.get(ex, s1, pl, 2), [x, dec], "place at epoch", w_)
            az, alt = s.get(ex, s1, pa, 2); (hr,) = s.get(ex, s1, ph, 1)
            for s2, v in s.sp(dom, ex, s1, hr):
                S, C = dom.sincos(v); s.same(ctx, dom, ex, s2, [S, C], list(dom.sincos(ha)), "hour angle: sidereal time minus right ascension, westward negative", w_)
                ex.oblige(State(s2.pc), z3.And(dom.z(v) >= -dom.q(PI + TOL), dom.z(v) <= dom.q(PI + TOL)), "hour angle within half a turn", where=w_, kind="post")
            s.angles(ctx, dom, ex, s1, alt, az, z, c, dom.neg(ex, N), dom.neg(ex, W), "altitude", "azimuth from south", w_)
        return Unit("altitude and azimuth%s%s" % (" after precession" if precess else "", {0: "", 1: " at the north pole", -1: " at the south pole"}[pole]), gen, fns=["full_ra_dec_to_alt_az", "ra_dec_to_alt_az"], replay=s.rp, limit=300)

    def sp(s, dom, ex, st, v):
        for g, x in dom.alts(dom.lift(v)):
            s2 = st if g is True else st.also(g)
            if g is True or ex.feasible(tuple(s2.pc)): yield s2, x

    def angles(s, ctx, dom, ex, st, h, b, z, c, N, W, hn, bn, w_):
        for s2, v in s.sp(dom, ex, st, h):
            S, C = dom.sincos(v); s.same(ctx, dom, ex, s2, [S], [z], "sine of the " + hn, w_)
            ex.oblige(State(s2.pc), z3.And(dom.z(v) >= -dom.q(PI / 2 + TOL), dom.z(v) <= dom.q(PI / 2 + TOL)), hn + " within a quarter turn", where=w_, kind="post")
        for s2, v in s.sp(dom, ex, st, b):
            S, C = dom.sincos(v); s.same(ctx, dom, ex, s2, [S, C], [W, N], bn, w_)

    def u_clamp(s, fn):
        def gen(ctx):
            dom, ex, m, st = s.start(ctx); x = dom.input(ex, "arg", -5, 5); w_ = "miscell.cpp (%s)" % fn; lo, hi = (-PI / 2, PI / 2) if fn == "asine" else (Fr(0), PI)
            v, s1 = ex.call_fn(s.prog.get(fn), [x], st); ctx.cover(ex, s1, fn)
            for s2, r in s.sp(dom, ex, s1, v):
                ex.oblige(State(s2.pc), z3.And(dom.z(r) >= dom.q(lo - TOL), dom.z(r) <= dom.q(hi + TOL)), "range", where=w_, kind="post")
                S, C = dom.sincos(r); y = dom.z(S if fn == "asine" else C); zx = dom.z(x); e = dom.q(TOL)
                ex.oblige(State(s2.pc), z3.Implies(z3.And(zx >= -1, zx <= 1), z3.And(y - zx <= e, zx - y <= e)), "inverse of the %s" % ("sine" if fn == "asine" else "cosine"), where=w_, kind="post")
                ex.oblige(State(s2.pc), z3.And(z3.Implies(zx > 1, z3.And(y <= 1 + e, y >= 1 - e)), z3.Implies(zx < -1, z3.And(y >= -1 - e, y <= -1 + e))), "arguments beyond 1 are taken as 1", where=w_, kind="post")
        return Unit(fn, gen, fns=[fn], replay=s.rp, limit=120)

    def u_from(s, pole, over=0):
        def gen(ctx):
            dom, ex, m, st, latv, sl, cl, th = s.common(ctx, pole); w_ = "alt_az.cpp (full_alt_az_to_ra_dec)"
            az, alt = dom.input(ex, "ang_az", -13, 13), dom.input(ex, "ang_alt", *{0: (-PI / 2, PI / 2), 1: (PI / 2, PI), -1: (-PI, -PI / 2)}[over]); lon = dom.input(ex, "lon", -7, 7); jd = dom.input(ex, "jd", -10 ** 9, 10 ** 9)
            z, c, n, w, ca = s.pieces(dom, ex, st, (sl, cl), alt, az)
            sz = dom.sincos(az)[0]
            if over: ca, sz = dom.neg(ex, ca), dom.neg(ex, sz); st = st.also(dom.z(alt) > dom.q(PI / 2) if over > 0 else dom.z(alt) < -dom.q(PI / 2))
            st, c, N, W = s.prep(ctx, dom, ex, st, z, c, n, w, ca, sz, cl, pole)
            got = []

            def pp(ex, st, a, i, fr):
                s.same(ctx, dom, ex, st, [a[2], a[3]], [dom.add(dom.lift(2000.0), dom.mul(dom.sub(jd, dom.lift(2451545)), dom.lift(Fr(1) / Fr("365.25")))), 2000.0], "precessed from the date to 2000", w_)
                x, y = s.get(ex, st, a[1], 2)
                # minus the right ascension; hour angle = sidereal time + longitude - right ascension, with sin H cos dec = -cos alt sin az
                neg_ha = dom.neg(ex, dom.add(dom.lift(x), dom.add(th, lon)))
                s.angles(ctx, dom, ex, st, y, neg_ha, z, c, N, W, "declination", "hour angle", w_); got.append(a[0])
                return None, st
            ex.contracts["precess_pt"] = pp
            po = s.put(ex, st, "ra_dec", [None, None]); pa = s.put(ex, st, "alt_az", [az, alt]); pt = s.put(ex, st, "latlon", [lon, latv])
            _, s1 = ex.call_fn(s.prog.get("full_alt_az_to_ra_dec"), [po, pa, jd, pt], st); ctx.cover(ex, s1, "full_alt_az_to_ra_dec")
            if not got or any(g != po for g in got): ctx.failed.append(fail("precession", "the result is precessed to 2000", {}))
        return Unit("right ascension and declination%s%s" % ({0: "", 1: " at the north pole", -1: " at the south pole"}[pole], {0: "", 1: ", altitude beyond the zenith", -1: ", altitude beyond the nadir"}[over]), gen, fns=["full_alt_az_to_ra_dec", "alt_az_to_ra_dec"], replay=s.rp, limit=300)

    def units(s): return [s.u_to(k, p) for k in (0, 1, -1) for p in (0, 1)] + [s.u_from(k, o) for k in (0, 1, -1) for o in (0, 1, -1)] + [s.u_clamp(f) for f in ("asine", "acose")]

    # -------------------------------------------------- real code
    def bad_to(s, lat, lon, ha, dec, jd):
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p
        f = native.fn(L, "full_ra_dec_to_alt_az", None, V, V, V, V, D, V); g = native.fn(L, "green_sidereal_time", D, D); nu = native.fn(L, "nutation", ctypes.c_int, D, V, V)
        def run():
            d = D(); nu((jd - 2451545) / 36525, ctypes.addressof(d), None)
            loc = (D * 2)(-(ha + g(jd) + lon + OBL * d.value * math.pi / 180 / 3600), dec); aa, hr = (D * 2)(), D()
            f(None, aa, loc, (D * 2)(lon, lat), jd, ctypes.addressof(hr)); a2 = (D * 2)(); f(None, a2, loc, (D * 2)(lon, lat), jd, None)
            return aa[0], aa[1], hr.value, list(a2)
        k, x = native.guarded(run)
        z = math.sin(lat) * math.sin(dec) + math.cos(lat) * math.cos(dec) * math.cos(ha); n = math.sin(dec) * math.cos(lat) - math.cos(dec) * math.cos(ha) * math.sin(lat); w = math.cos(dec) * math.sin(ha)
        info = {"input": {"full_ra_dec_to_alt_az": dict(lat=lat, lon=lon, hour_angle=ha, dec=dec, jd=jd)}, "expected": [math.atan2(-w, -n), math.asin(max(-1, min(1, z))), math.remainder(ha, 2 * math.pi)], "observed": (k, x)}
        if k != "ok" or x[3] != list(x[:2]) or not abs(x[1]) <= math.pi / 2 + 1e-9 or not abs(x[2]) <= math.pi + 1e-9 or not abs(math.sin((x[2] - ha) / 2)) < 1e-6: return info
        c = math.cos(x[1])
        if not abs(math.sin(x[1]) - z) < 1e-6 or not abs(c * math.cos(x[0]) + n) < 2e-5 or not abs(c * math.sin(x[0]) + w) < 2e-5: return info

    def bad_from(s, lat, lon, alt, az, jd=2451545.0):
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p
        f = native.fn(L, "full_alt_az_to_ra_dec", None, V, V, D, V); g = native.fn(L, "green_sidereal_time", D, D)
        def run():
            o = (D * 2)(); f(o, (D * 2)(az, alt), jd, (D * 2)(lon, lat)); return o[0], o[1], g(jd)
        k, x = native.guarded(run)
        z = math.sin(lat) * math.sin(alt) + math.cos(lat) * math.cos(alt) * math.cos(az); n = math.sin(alt) * math.cos(lat) - math.cos(alt) * math.cos(az) * math.sin(lat); w = math.cos(alt) * math.sin(az)
        info = {"input": {"full_alt_az_to_ra_dec": dict(lat=lat, lon=lon, alt=alt, az=az, jd=jd)}, "expected": {"declination": math.asin(max(-1, min(1, z))), "hour angle": math.atan2(-w, n)}, "observed": (k, x)}
        if k != "ok": return info
        H = x[0] + x[2] + lon; c = math.cos(x[1])
        if not abs(math.sin(x[1]) - z) < 1e-6 or not abs(c * math.cos(H) - n) < 2e-5 or not abs(c * math.sin(H) + w) < 2e-5: return info

    def rp(s, m):
        g = lambda k, d: float(m.get(k, d)); r = None
        for lat in (g("ang_lat", .7), math.pi / 2, -math.pi / 2):
            r = r or s.bad_to(lat, g("lon", 1), g("ang_ha", .4), g("ang_dec", .3), 2451545.0) or s.bad_from(lat, g("lon", 1), g("ang_alt", .4), g("ang_az", .3))
        rng = random.Random(4)
        for i in range(400): r = r or s.probe(rng)
        return r

    def probe(s, rng):
        U = rng.uniform; lat = rng.choice((U(-1.55, 1.55), U(-1.55, 1.55), U(-1.55, 1.55), math.pi / 2, -math.pi / 2)); b = U(-9, 9); h = U(-1.5, 1.5); lon = U(-3.2, 6.3)
        if rng.random() < .5: return s.bad_to(lat, lon, b, h, 2451545.0 + U(-1e5, 1e5))
        return s.bad_from(lat, lon, h if rng.random() < .6 else h * 2, b, 2451545.0)

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            while time.time() < end:
                note("random probe"); r = s.probe(rng)
                if r: return r
        return w

    def sanity(s):
        rng = random.Random(s.seed)
        for i in range(300):
            r = s.probe(rng)
            if r: return i, r
        return 300, None


CHECKS = {"C15": C15}
