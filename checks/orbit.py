"""C14: two-body motion (astfuncs.cpp, classel.cpp).  Floating point is taken as real arithmetic."""
import ctypes, math, random
from fractions import Fraction as Fr
from check import *
import real
from real import RealDom, RV, RAlt, pscale, padd, pmul, const, ONE, Peel
from rot import Rot, M
from desig import fail

SRC = ["astfuncs.cpp", "classel.cpp", "miscell.cpp"]
FIELDS = ("perih_time", "q", "ecc", "incl", "arg_per", "asc_node", "epoch", "mean_anomaly", "lon_per", "minor_to_major", "perih_vec", "sideways",
          "angular_momentum", "major_axis", "t0", "w0", "gm")
X = '''#include <stddef.h>
#include <stdint.h>
#include "watdefs.h"
#include "comets.h"
double kepler( const double ecc, double mean_anom);
extern "C" { int el_size( void) { return (int)sizeof( ELEMENTS); }
double x_kepler( double e, double m) { return kepler( e, m); }
int el_off( int i) { static const size_t o[] = { %s }; return (int)o[i]; } }
''' % ", ".join("offsetof( ELEMENTS, %s)" % f for f in FIELDS)
THR = Fr(1, 10 ** 12)
PI = Fr(math.pi)
TOL = Fr(1, 10 ** 9)


class C14(Rot):
    id = "C14"; title = "Two-body orbits: elements, positions and velocities obey Kepler's laws"
    assumptions = ["floating-point arithmetic is treated as real arithmetic; identities hold to 1e-9",
                   "sin, cos, sinh, cosh, asinh, exp, log, sqrt, atan2, asin, acos of the C library are the real functions; |sin a - sin b| <= |a - b|, cosh(a + d) <= e^|d| cosh a",
                   "kepler(): partial correctness - that the iteration ends (its own assertion: within 20 steps) is not proved",
                   "near_parabolic() and remaining_terms() are proved equal to their series for eccentric anomalies up to 4 (elliptic) and 16 (hyperbolic), and assumed to be so beyond",
                   "eccentricities 0 to 100; calc_classical_elements: 0, or 1e-9 to 100 and, unless 1, not within 1e-13 of 1 (the code takes |e^2 - 1| < 1e-14 as 1)",
                   "inclination not exactly a quarter turn (no double is); not both arguments of an atan2 zero; calc_classical_elements with ref = 1"]

    def setup(s):
        s.prog = Program(SRC); s.nat = None; L = s.native()
        s.prog.role("near_parabolic", "double(double,double)", ["kepler"]); s.prog.role("remaining_terms", "double(double)", ["calc_classical_elements"])
        s.off = {f: L.el_off(i) for i, f in enumerate(FIELDS)}; s.size = L.el_size()

    def native(s):
        if s.nat is None:
            s.nat = native.build(SRC + ["snprintf.cpp", "date.cpp", "delta_t.cpp", "eop_prec.cpp", "spline.cpp", "precess.cpp", "obliquit.cpp", "nutation.cpp", "alt_az.cpp"], "orb", extra_c=X)
            s.nat.x_kepler.restype = ctypes.c_double; s.nat.x_kepler.argtypes = [ctypes.c_double] * 2
        return s.nat

    # ------------------------------------------------------------------ helpers
    def begin(s, ctx):
        dom, ex, m, st = s.start(ctx); dom.clear_atan = True
        ex.contracts["__assert_fail"] = lambda ex, st, a, i, fr: (None, None)
        ex.contracts["llvm.is.fpclass.f64"] = lambda ex, st, a, i, fr: bool(a[1] & 0x1f8)      # values are finite: real arithmetic
        return dom, ex, m, st

    def elem(s, ex, st, vals):
        p = ex.new_obj(st, "elem", s.size)
        for f, v in vals.items():
            for k, x in enumerate(v if isinstance(v, list) else [v]): ex.store(st, ex.padd(st, p, s.off[f] + 8 * k), DOUBLE, x)
        return p

    def fld(s, ex, st, p, f, n=0):
        r = [ex.load(st, ex.padd(st, p, s.off[f] + 8 * k), DOUBLE) for k in range(n or 1)]
        return r if n else r[0]

    def ob(s, ex, st, g, name, w): ex.oblige(State(st.pc), g, name, where=w, kind="post")

    def split(s, dom, ex, st, v):
        for g, x in dom.alts(dom.lift(v)):
            s2 = st if g is True else st.also(g)
            if g is True or ex.feasible(tuple(s2.pc)): yield s2, x

    # ------------------------------------------------------------------ elements to vectors
    def u_setup(s, kind):
        def gen(ctx):
            dom, ex, m, st = s.begin(ctx); w = "astfuncs.cpp (derive_quantities)"
            om, inc, node = (dom.input(ex, "ang_" + n, -13, 13) for n in ("arg_per", "incl", "asc_node"))
            q = dom.input(ex, "q", Fr(1, 10 ** 6), 10 ** 6); gm = dom.input(ex, "gm", Fr(1, 10 ** 30), 10 ** 12)
            e = {"elliptic": lambda: dom.input(ex, "ecc", 0, 1 - Fr(1, 10 ** 30)), "hyperbolic": lambda: dom.input(ex, "ecc", 1 + Fr(1, 10 ** 30), 100), "parabolic": lambda: 1.0}[kind]()
            sw, cw = dom.sincos(om); si, ci = dom.sincos(inc); sn, cn = dom.sincos(node)
            st = st.also(dom.z(ci) != 0); dom.hints = [ci]
            p = s.elem(ex, st, {"q": q, "ecc": e, "incl": inc, "arg_per": om, "asc_node": node, "gm": gm})
            _, s1 = ex.call_fn(s.prog.get("derive_quantities"), [p, gm], st); ctx.cover(ex, s1, "derive_quantities")
            mul, add, sub = dom.mul, dom.add, dom.sub
            P = [sub(mul(cn, cw), mul(mul(sn, sw), ci)), add(mul(sn, cw), mul(mul(cn, sw), ci)), mul(sw, si)]
            Q = [sub(dom.neg(ex, mul(cn, sw)), mul(mul(sn, cw), ci)), sub(mul(mul(cn, cw), ci), mul(sn, sw)), mul(cw, si)]
            s.same(ctx, dom, ex, s1, s.fld(ex, s1, p, "perih_vec", 3), P, "direction of periapsis", w)
            s.same(ctx, dom, ex, s1, s.fld(ex, s1, p, "sideways", 3), Q, "direction of motion at periapsis", w)
            s.same(ctx, dom, ex, s1, s.fld(ex, s1, p, "q") and [s.fld(ex, s1, p, f) for f in ("q", "ecc", "incl", "arg_per", "asc_node")], [q, e, inc, om, node], "elements are not changed", w)
            b = s.fld(ex, s1, p, "minor_to_major"); e_ = dom.lift(e); sg = 1.0 if kind != "hyperbolic" else -1.0
            one_e2 = mul(dom.lift(sg), sub(dom.lift(1.0), mul(e_, e_)))
            s.same(ctx, dom, ex, s1, [mul(b, b)], [one_e2], "ratio of the axes: its square is |1 - e^2|", w)
            s.ob(ex, s1, dom.z(b) >= 0, "ratio of the axes is not negative", w)
            h = s.fld(ex, s1, p, "angular_momentum")
            s.same(ctx, dom, ex, s1, [mul(h, h)], [mul(mul(gm, q), add(dom.lift(1.0), e_))], "angular momentum: h^2 = GM q (1 + e)", w)
            s.ob(ex, s1, dom.z(h) >= 0, "angular momentum is not negative", w)
            if kind == "parabolic":
                w0 = s.fld(ex, s1, p, "w0")
                s.same(ctx, dom, ex, s1, [mul(mul(w0, w0), mul(q, mul(q, q)))], [mul(dom.lift(Fr(9, 2)), gm)], "Barker's constant: w0^2 q^3 = 4.5 GM", w)
                s.ob(ex, s1, dom.z(w0) >= 0, "Barker's constant is positive", w)
            else:
                a = s.fld(ex, s1, p, "major_axis"); t0 = s.fld(ex, s1, p, "t0")
                s.same(ctx, dom, ex, s1, [mul(a, mul(dom.lift(sg), sub(dom.lift(1.0), e_)))], [q], "semimajor axis: a |1 - e| = q", w)
                s.same(ctx, dom, ex, s1, [mul(mul(t0, t0), gm)], [mul(a, mul(a, a))], "Kepler's third law: t0^2 GM = a^3", w)
                for s2, x in s.split(dom, ex, s1, t0): s.ob(ex, s2, dom.z(x) >= 0, "t0 is not negative", w)
        return Unit("vectors of an orbit (%s)" % kind, gen, fns=["derive_quantities", "setup_orbit_vectors", "vector_cross_product"], replay=s.rp, limit=300)

    # ------------------------------------------------------------------ position and velocity
    def u_posn(s, kind, vel=True):
        def gen(ctx):
            dom, ex, m, st = s.begin(ctx); w = "astfuncs.cpp (comet_posn_and_vel)"; mul, add, sub, neg = dom.mul, dom.add, dom.sub, lambda v: dom.neg(ex, v)
            one = dom.lift(1.0)
            e = {"elliptic": lambda: dom.input(ex, "ecc", 0, 1 - Fr(1, 10 ** 30)), "hyperbolic": lambda: dom.input(ex, "ecc", 1 + Fr(1, 10 ** 30), 100), "parabolic": lambda: one}[kind]()
            e1 = e if kind != "parabolic" else 1.0
            sg = -1.0 if kind == "hyperbolic" else 1.0; e2 = mul(dom.lift(sg), sub(one, mul(e, e)))
            b = dom.root(ex, st, e2, None) if kind != "parabolic" else dom.lift(0.0)
            q = dom.input(ex, "q", Fr(1, 10 ** 6), 10 ** 6); h = dom.input(ex, "h", Fr(1, 10 ** 9), 10 ** 9)
            T = dom.input(ex, "perih_time", -10 ** 8, 10 ** 8); t = dom.input(ex, "t", -10 ** 8, 10 ** 8)
            t0 = dom.input(ex, "t0", Fr(1, 10 ** 6), 10 ** 9); w0 = dom.input(ex, "w0", Fr(1, 10 ** 9), 10 ** 9)
            P = [dom.input(ex, "P%d" % i, -1, 1) for i in range(3)]; Q = [dom.input(ex, "Q%d" % i, -1, 1) for i in range(3)]
            E = dom.input(ex, "ang_E"); calls = []

            def kep(ex, st, a, i, fr):
                calls.append((st, a)); return E
            ex.contracts["kepler"] = kep
            p = s.elem(ex, st, {"perih_time": T, "q": q, "ecc": e1, "minor_to_major": b, "perih_vec": P, "sideways": Q, "angular_momentum": h, "t0": t0, "w0": w0, "mean_anomaly": 0.0, "lon_per": 0.0})
            pl = s.put(ex, st, "loc", [None] * 4); pv = s.put(ex, st, "vel", [None] * 3) if vel else NULL
            if kind == "elliptic": S, C = dom.sincos(E); R = sub(one, mul(e, C)); dom.hints = [R]; xx, yy = sub(C, e), mul(S, b)
            elif kind == "hyperbolic": S, C = dom.hyper(E); R = sub(mul(e, C), one); dom.hints = [R]; xx, yy = sub(e, C), mul(S, b)
            _, s1 = ex.call_fn(s.prog.get("comet_posn_and_vel"), [p, t, pl, pv], st); ctx.cover(ex, s1, "comet_posn_and_vel")
            loc = s.get(ex, s1, pl, 4)
            dt = sub(t, T)
            if kind != "parabolic":
                if len(calls) != 1: raise Unsupported("kepler() is called %d times" % len(calls))
                (cs, (ke, km)), = calls
                s.same(ctx, dom, ex, cs, [dom.lift(ke)], [e], "Kepler's equation is solved for this eccentricity", w)
                Mq = dom.div(ex, st, dt, t0, None)
                for s2, x in s.split(dom, ex, cs, km):
                    if kind == "hyperbolic": s.same(ctx, dom, ex, s2, [x], [Mq], "mean anomaly is (t - T) / t0", w); continue
                    d = {k: c / (2 * PI) for k, c in padd(x.p, Mq.p, -1).items()}
                    r = {k: Fr(round(c)) for k, c in d.items()}
                    if any(abs(d[k] - r[k]) > Fr(1, 10 ** 12) for k in d) or dom.unint(RV({k: c for k, c in r.items() if c})) is None:
                        ctx.failed.append(fail("mean anomaly", "mean anomaly is (t - T) / t0 up to whole turns", {}))
                    s.ob(ex, s2, z3.And(dom.z(x) >= -dom.q(PI + TOL), dom.z(x) <= dom.q(PI + TOL)), "mean anomaly within half a turn", w)
                # r = q R / |1 - e|, position (q / |1 - e|) (x, y)
                k = mul(dom.lift(sg), sub(one, e))
                s.same(ctx, dom, ex, s1, [mul(loc[3], k)], [mul(q, R)], "distance is a (1 - e cos E)", w)
                for i in range(3):
                    s.same(ctx, dom, ex, s1, [mul(loc[i], k)], [mul(q, add(mul(P[i], xx), mul(Q[i], yy)))], "position is a (cos E - e), b sin E in the orbit's axes [%d]" % i, w)
                # velocity: the derivative of that, with r^2 dnu/dt = h, i.e. dE/dt = h / (b a r)
                dx, dy = (neg(S), mul(b, C)) if kind == "elliptic" else (neg(S), mul(b, C))
                if vel:
                    for i, v in enumerate(s.get(ex, s1, pv, 3)):
                        # v b a R = (dx P + dy Q) h ; a = q / k
                        s.same(ctx, dom, ex, s1, [mul(mul(mul(v, b), q), R)], [mul(mul(h, k), add(mul(P[i], dx), mul(Q[i], dy)))], "velocity is the derivative of the position [%d]" % i, w)
            else:
                cb = [a for a in dom.atoms if a.kind == "cbrt"]
                y = dom.v(cb[0]) if cb else one
                yi = dom.div(ex, st, one, y, None); sv = sub(y, yi)     # tan(nu / 2)
                s.same(ctx, dom, ex, s1, [add(mul(sv, mul(sv, sv)), mul(dom.lift(3.0), sv))], [mul(w0, dt)], "Barker's equation: s^3 + 3 s = w0 (t - T)", w)
                r1 = mul(q, add(one, mul(sv, sv)))
                s.same(ctx, dom, ex, s1, [loc[3]], [r1], "distance is q (1 + s^2)", w)
                for i in range(3):
                    s.same(ctx, dom, ex, s1, [loc[i]], [mul(q, add(mul(P[i], sub(one, mul(sv, sv))), mul(Q[i], mul(dom.lift(2.0), sv))))], "position is q (1 - s^2), 2 q s in the orbit's axes [%d]" % i, w)
                if vel:
                    for i, v in enumerate(s.get(ex, s1, pv, 3)):     # ds/dt = h / (2 q r)
                        s.same(ctx, dom, ex, s1, [mul(v, r1)], [mul(h, sub(Q[i], mul(sv, P[i])))], "velocity is the derivative of the position [%d]" % i, w)
        return Unit("position%s (%s)" % (" and velocity" if vel else "", kind), gen, fns=["comet_posn_and_vel", "comet_posn_part_ii"], replay=s.rp, limit=400)

    # ------------------------------------------------------------------ Kepler's equation
    def u_kepler(s, kind, lo, hi, mlo, mhi):
        def gen(ctx):
            dom, ex, m, st = s.begin(ctx); w = "astfuncs.cpp (kepler)"; mul, add, sub = dom.mul, dom.add, dom.sub
            e = dom.input(ex, "ecc", lo, hi); Mn = dom.input(ex, "mean_anomaly", mlo, mhi)
            ex.inv = Peel(skip=("near_parabolic",)); hyp = kind == "hyperbolic"

            def nearp(ex, st, a, i, fr):
                x, ee = dom.lift(a[0]), dom.lift(a[1])
                r = dom.v(dom.atom("near", "in"))

                def one(v):
                    S = dom.hyper(v)[0] if hyp else dom.sincos(v)[0]
                    f = sub(v, mul(ee, S))
                    return z3.And(dom.z(r) - dom.z(f) <= dom.q(Fr(1, 10 ** 14)), dom.z(f) - dom.z(r) <= dom.q(Fr(1, 10 ** 14)))
                for g, v in dom.alts(x): ex.axioms.append(z3.Implies(zb(g), one(v)))
                return r
            ex.contracts["near_parabolic"] = nearp
            r, s1 = ex.call_fn(s.prog.get("kepler"), [e, Mn], st); ctx.cover(ex, s1, "kepler")
            outs = list(s.split(dom, ex, s1, r)); goals = []
            if hyp: tau = THR if hi <= 2 else THR * 100
            for s2, E in outs:
                if hyp:
                    S, C = dom.hyper(E) if E.p else (dom.lift(0.0), dom.lift(1.0)); f = sub(sub(mul(e, S), E), Mn)
                    t = dom.z(RV(pscale(mul(e, C).p, 4 * tau)))
                else: S, C = dom.sincos(E); f = sub(sub(E, mul(e, S)), Mn); t = dom.q(4 * THR)
                goals.append((s2, z3.And(dom.z(f) <= t, dom.z(f) >= -t)))
            s.lemmas(dom, ex, e, hyp, tau if hyp else THR)
            for s2, g in goals: s.ob(ex, s2, g, "result solves Kepler's equation", w)
        return Unit("Kepler's equation (%s, mean anomaly %g to %g)" % (kind, mlo, mhi), gen, fns=["kepler"], replay=s.rp, limit=400)

    def lemmas(s, dom, ex, e, hyp, tau):
        """instances of the mean value theorem for sin, sinh and of 0 <= e <= 1, |cos| <= 1; the quotients multiplied out"""
        ab = lambda x, b: z3.And(x <= b, x >= -b)
        pos = lambda d: z3.If(d >= 0, d, -d); e_z = dom.z(e)
        for n, d, q in dom.quots:
            ex.axioms.append(z3.Implies(dom.z(RV(d)) != 0, dom.z(RV(pmul(d, {((q.id, 1),): Fr(1)}))) == dom.z(RV(n))))
            for mm in d:
                if mm != ONE:
                    x = dom.z(RV(pmul({mm: Fr(1)}, {((q.id, 1),): Fr(1)})))
                    if not hyp:
                        ex.axioms.append(ab(x, pos(q.z)))
                        if len(mm) == 2 and list(e.p)[0][0] in mm: ex.axioms.append(ab(dom.z(RV({mm: Fr(1)})), e_z))       # |e cos E| <= e
                    elif len(mm) == 2 and list(e.p)[0][0] in mm: ex.axioms.append(dom.z(RV({mm: Fr(1)})) >= e_z)       # e cosh F >= e
                    for p2, S2, C2 in dom.hyp if hyp else ():        # |q| <= tau: |q e cosh x| <= 1.001 tau e cosh x', |x - x'| <= |q|
                        ch = [c for c in (C2,) if True][0]
                        pp = [p for p, S, C in dom.hyp if any(k in dict(m).keys() for m in C.p for k in dict(m) if k in dict(mm))]
                        for p in pp:
                            dd = dom.z(RV(padd(p, p2, -1))); d2 = dom.z(RV(padd(p, p2)))
                            lim = dom.z(RV(pscale(pmul(e.p, C2.p), Fr(1001, 1000) * tau)))
                            ex.axioms.append(z3.Implies(z3.And(z3.Or(ab(dd, dom.q(tau)), ab(d2, dom.q(tau))), ab(q.z, dom.q(tau))), ab(x, lim)))
        L = dom.hyp if hyp else dom.angles + [({((a, 1),): Fr(1)}, S, C) for a, (S, C) in dom.invt.items()]
        for i, (p, S, C) in enumerate(L):
            for p2, S2, C2 in L[:i] + L[i + 1:]:
                for sg in (1, -1):
                    dp = padd(p, p2, -sg)
                    if len(dp) != 1 or not any(dom.atoms[a].kind == "quot" for mm in dp for a, _ in mm): continue
                    z = dom.z(RV(dp)); x = dom.z(RV(padd(pmul(e.p, S.p), pmul(e.p, S2.p), -sg)))
                    if not hyp: ex.axioms.append(ab(x, pos(z)))
                    else: ex.axioms.append(z3.Implies(ab(z, dom.q(tau)), z3.And(ab(x, dom.z(RV(pscale(pmul(e.p, C2.p), Fr(1001, 1000) * tau)))), ab(x, dom.z(RV(pscale(pmul(e.p, C.p), Fr(1001, 1000) * tau)))))))

    def u_near(s, kind, lo, hi):
        def gen(ctx):
            dom, ex, m, st = s.begin(ctx); w = "astfuncs.cpp (near_parabolic)"; hyp = kind == "hyperbolic"
            x = dom.input(ex, "x", lo, hi); e = dom.input(ex, "ecc", 1, Fr(101, 100)) if hyp else dom.input(ex, "ecc", Fr(9, 10), 1)
            if hyp: st = st.also(dom.z(e) > 1)
            xi, ei = list(x.p)[0][0][0], list(e.p)[0][0][0]; fn = s.prog.get("near_parabolic")
            r, s1 = ex.call_fn(fn, [x, e], st); ctx.cover(ex, s1, fn.base)
            for s2, v in s.split(dom, ex, s1, r):
                mono = lambda n, k=1: tuple(sorted([(xi, n)] + ([(ei, k)] if k else [])))
                p = dict(v.p); n = max([dict(mm).get(xi, 0) for mm in p] or [0]); want = {mono(1, 0): Fr(1), mono(1): Fr(-1)}; sg = 1
                for j in range(3, n + 1, 2):
                    sg = 1 if hyp else -sg; want[mono(j)] = Fr(-sg, math.factorial(j))
                d = padd(p, want, -1); B = max(abs(lo), abs(hi))
                if n < 3 or n % 2 == 0 or sum(abs(c) * Fr(B) ** dict(mm).get(xi, 0) * Fr(102, 100) for mm, c in d.items()) > Fr(1, 10 ** 15) * (1 if B <= 4 else 10 ** 9):
                    ctx.failed.append(fail("series", "sum is the Taylor polynomial of x - e %s" % ("sinh x" if hyp else "sin x"), {})); continue
                # remainder: not above twice the first term left out, where the terms fall by half
                T = lambda k: dom.z(RV({mono(k): Fr(1)})); ab = lambda z: z3.If(z >= 0, z, -z)
                ex.axioms.append(z3.And(ab(T(n + 2)) <= dom.q(Fr(B) ** 2) * ab(T(n)), ab(T(n)) >= dom.q((Fr(min(abs(lo), abs(hi))) ** (n - 1)) * Fr(9, 10)) * ab(dom.z(x))))
                s.ob(ex, s2, z3.Or(dom.z(x) == 0, ab(T(n + 2)) * dom.q(Fr(2, math.factorial(n + 2))) <= dom.q(Fr(1, 10 ** 14))), "terms left out of the series are negligible [%d]" % n, w)
                if B * B * 2 > (n + 4) * (n + 5): s.ob(ex, s2, dom.z(RV({((xi, 2),): Fr(1)})) * 2 <= (n + 4) * (n + 5), "the series is summed until its terms fall by half [%d]" % n, w)
        return Unit("series for nearly parabolic orbits (%s, eccentric anomaly %g to %g)" % (kind, lo, hi), gen, fns=["near_parabolic"], replay=s.rp, limit=400)

    def u_rest(s, lo, hi):
        def gen(ctx):
            dom, ex, m, st = s.begin(ctx); fn = s.prog.get("remaining_terms"); w = "classel.cpp (remaining_terms)"
            x = dom.input(ex, "z", lo, hi); xi = list(x.p)[0][0][0]; B = max(abs(lo), abs(hi)); b = min(abs(lo), abs(hi)); ab = lambda z: z3.If(z >= 0, z, -z)
            r, s1 = ex.call_fn(fn, [x], st); ctx.cover(ex, s1, fn.base)
            for s2, v in s.split(dom, ex, s1, r):
                n = max([dict(mm).get(xi, 0) for mm in v.p] or [0]); want = {((xi, k),): Fr(1, math.factorial(2 * k + 1)) for k in range(1, n + 1)}
                if n < 1 or sum(abs(c) * Fr(B) ** dict(mm).get(xi, 0) for mm, c in padd(v.p, want, -1).items()) > Fr(1, 10 ** 15) * (1 if B <= 16 else 10 ** 9):
                    ctx.failed.append(fail("series", "sum is the Taylor polynomial z / 3! + z^2 / 5! + ...", {})); continue
                T = dom.z(RV({((xi, n),): Fr(1)})); ex.axioms.append(ab(T) >= dom.q(Fr(b) ** (n - 1)) * ab(dom.z(x)))
                s.ob(ex, s2, ab(T) * dom.q(Fr(1, math.factorial(2 * n + 1))) <= dom.q(Fr(1, 10 ** 15)), "terms left out of the series are negligible [%d]" % n, w)
                s.ob(ex, s2, ab(dom.z(x)) * 2 <= (2 * n + 2) * (2 * n + 3), "the series is summed until its terms fall by half [%d]" % n, w)
        return Unit("series z/3! + z^2/5! + ... (z %g to %g)" % (lo, hi), gen, fns=["remaining_terms"], replay=s.rp, limit=400)

    def keps(s):
        B = 10 ** 6; n = Fr(1, 10 ** 30)
        ms = [(-PI, PI), (PI, B), (-B, -PI)]
        return [s.u_kepler("low", 0, Fr(9, 10), a, b) for a, b in ms] + [s.u_kepler("high", Fr(9, 10), 1 - n, a, b) for a, b in ms] + \
            [s.u_kepler("hyperbolic", lo, hi, a, b) for lo, hi in ((1 + n, 2), (2, 100)) for a, b in ((0, B), (-B, 0))]

    def units(s):
        return [s.u_elem("circular", 0, 0, k) for k in (0, 1, -1)] + [s.u_elem("elliptic", Fr(1, 10 ** 9), Fr(.9), k) for k in (1, -1)] + [s.u_elem(*a) for a in (("elliptic", Fr(1, 10 ** 9), Fr(math.nextafter(.9, 0))), ("elliptic", Fr(.9), Fr(.99999)), ("elliptic", Fr(math.nextafter(.99999, 2)), 1 - Fr(1, 10 ** 13)), ("parabolic", 1, 1), ("hyperbolic", 1 + Fr(1, 10 ** 13), Fr(math.nextafter(1.00001, 0))), ("hyperbolic", Fr(1.00001), 100))] + [s.u_setup(k) for k in ("elliptic", "hyperbolic", "parabolic")] + [s.u_posn(k) for k in ("elliptic", "hyperbolic", "parabolic")] + s.keps() + \
            ([s.u_near(*a) for a in (("elliptic", 0, 4), ("elliptic", -4, 0), ("hyperbolic", 0, 4), ("hyperbolic", -4, 0), ("hyperbolic", 4, 16))] if s.prog.get("near_parabolic", False) else []) + \
            ([s.u_rest(*a) for a in ((-10, 0), (0, 16), (16, 256))] if s.prog.get("remaining_terms", False) else [])

    # ------------------------------------------------------------------ elements of a state vector
    def u_elem(s, kind, lo, hi, plane=0):
        def gen(ctx):
            dom, ex, m, st = s.begin(ctx); w = "classel.cpp (calc_classical_elements)"; mul, add, sub, neg = dom.mul, dom.add, dom.sub, lambda v: dom.neg(ex, v)
            L = dom.lift; one = L(1.0); circ = kind == "circular"
            om, inc, node, nu = (dom.input(ex, "ang_" + n, -13, 13) for n in ("arg_per", "incl", "asc_node", "true_anom"))
            d = dom.input(ex, "d", Fr(1, 10 ** 6), 10 ** 6); mu = dom.input(ex, "gm_over_h", Fr(1, 10 ** 12), 10 ** 12); t = dom.input(ex, "t", -10 ** 8, 10 ** 8)
            e = L(lo) if lo == hi else dom.input(ex, "ecc", lo, hi)
            (sw, cw), (si, ci), (sn, cn) = (dom.sincos(a) for a in (om, inc, node)); s_, c = (L(0.0), one) if circ else dom.sincos(nu)
            if plane: si, ci, sn, cn = L(0.0), L(float(plane)), L(0.0), one       # in the xy plane, prograde or retrograde
            P = [sub(mul(cn, cw), mul(mul(sn, sw), ci)), add(mul(sn, cw), mul(mul(cn, sw), ci)), mul(sw, si)]
            Q = [sub(neg(mul(cn, sw)), mul(mul(sn, cw), ci)), sub(mul(mul(cn, cw), ci), mul(sn, sw)), mul(cw, si)]
            W = [mul(sn, si), neg(mul(cn, si)), ci]
            u = add(one, mul(e, c)); D = mul(d, add(one, e)); q = RV(dom.nf(mul(d, u).p)); h = RV(dom.nf(mul(mul(mu, add(one, e)), q).p)); gm = mul(mu, h)
            st = st.also(dom.z(u) > 0).also(dom.z(q) > 0).also(dom.z(h) > 0)
            if not plane: st = st.also(dom.z(si) > 0).also(dom.z(ci) != 0)
            B = [add(mul(c, p), mul(s_, r)) for p, r in zip(P, Q)]
            V = [add(mul(neg(s_), p), mul(add(e, c), r)) for p, r in zip(P, Q)]
            r6 = [mul(D, b) for b in B] + [mul(mu, v) for v in V]
            A = [add(mul(add(e, c), p), mul(s_, r)) for p, r in zip(P, Q)]      # v x h / GM
            sg = -1.0 if kind == "hyperbolic" else 1.0; hyp = kind == "hyperbolic"
            one_e = sub(one, e); e2 = mul(L(sg), mul(one_e, add(one, e)))
            dom.hints = [D, h, mul(h, si), e, add(one, e), si, ci, sw, cw]
            dom.positive(D, q, h, gm, u); invA = dom.div(ex, st, one_e, q, None); b = dom.root(ex, st, e2, None); sE, cE = (dom.div(ex, st, mul(b, s_), u, None), dom.div(ex, st, add(e, c), u, None)) if not circ else (L(0.0), one)
            rv = mul(mul(D, mu), mul(e, s_)); v2 = mul(mul(mu, mu), add(add(one, mul(L(2.0), mul(e, c))), mul(e, e))); h2 = mul(h, h); a = dom.div(ex, st, q, one_e, None) if kind != "parabolic" else L(0.0); T = dom.div(ex, st, s_, add(one, c), None) if kind == "parabolic" else one
            dom.hints += [one]; dom.know([invA, neg(invA), b, sE, neg(sE), cE, rv, v2, mu, h2, mul(h2, mul(si, si)), a, mul(mu, add(one, e)), mul(si, si)])
            dom.positive(D, q, h, gm, h2, v2, u)
            if not plane: dom.positive(si, mul(h, si), mul(h2, si), mul(h2, mul(si, si))); dom.scaled(h, ci); dom.scaled(si, sw)
            if kind != "parabolic": dom.positive(mul(L(sg), invA), mul(L(sg), a), b)
            else: dom.hints.append(T); dom.know([T, mul(T, T)]); dom.positive(add(one, c))
            if hyp: dom.hints.append(cE); dom.positive(cE)
           
            dom.scaled(mul(D, mu), mul(e, s_))
            dom.know([D, q, h, gm] + P + Q + [neg(x) for x in Q] + [mul(neg(h), x) for x in Q] + B + A + [mul(h, x) for x in W] + [mul(h, x) for x in Q] + [mul(e, p) for p in P] + [si, cw, sw, neg(sw), one, L(0.0), mul(D, c), mul(D, s_), mul(L(sg), e2), mul(e, e)])
            p = s.elem(ex, st, {"gm": gm, "perih_time": 0.0, "q": 0.0, "lon_per": 0.0}); pr = s.put(ex, st, "state", r6)

            rests = []

            def rest(ex, st, a, i, fr):
                """z/3! + z^2/5! + ... at z = -x^2 or x^2: sin x / x - 1 or sinh x / x - 1"""
                def f(v):
                    (mm, k), = v.p.items()
                    if len(mm) != 1 or mm[0][1] != 2 or abs(k) != 1: raise Unsupported("series at an unexpected argument")
                    x = RV({((mm[0][0], 1),): Fr(1)})
                    if (x.p, k) not in [(y, j) for y, j, _ in rests]:
                        d_ = sub(dom.sincos(x)[0] if k < 0 else dom.hyper(x)[0], x); R = dom.atom("rest", "quot", (d_, x)); rests.append((x.p, k, R))
                        dom.prods[tuple(sorted((mm[0][0], R.id)))] = d_.p
                    return dom.v([R for y, j, R in rests if (y, j) == (x.p, k)][0])
                return dom.map1(ex, st, a[0], f)
            ex.contracts["remaining_terms"] = rest
            _, s1 = ex.call_fn(s.prog.get("calc_classical_elements"), [p, pr, t, 1], st); ctx.cover(ex, s1, "calc_classical_elements")
            F = lambda f, n=0: s.fld(ex, s1, p, f, n); sm = lambda got, want, name, s2=s1: s.same(ctx, dom, ex, s2, got, want, name, w)
            sm([F("ecc"), F("q")], [e, q], "eccentricity and periapsis distance"); sm([F("minor_to_major")], [b], "ratio of the axes is sqrt |1 - e^2|")
            sm([F("angular_momentum")], [mul(L(sg), h)], "angular momentum"); sm([F("gm")], [gm], "GM is not changed")
            sm(F("perih_vec", 3), P, "direction of periapsis"); sm(F("sideways", 3), [mul(L(sg), x) for x in Q], "direction of motion at periapsis")
            for f, (S, C), top, name in (("incl", (si, ci), PI, "inclination"), ("asc_node", (sn, cn), None, "ascending node"), ("arg_per", (sw, cw), 2 * PI, "argument of periapsis")):
                for s2, v in s.split(dom, ex, s1, F(f)):
                    for s3, x in s.split(dom, ex, s2, v):
                        sm(list(dom.sincos(x)), [S, C], name, s3)
                        if top: s.ob(ex, s3, z3.And(dom.z(x) >= -dom.q(TOL), dom.z(x) <= dom.q(top + TOL)), name + ": range", w)
            dt = sub(t, F("perih_time"))
            if kind != "parabolic":
                A_, t0, Mn = F("major_axis"), F("t0"), F("mean_anomaly")
                sm([mul(A_, one_e)], [q], "semimajor axis: a (1 - e) = q"); sm([mul(mul(t0, t0), gm)], [mul(L(sg), mul(A_, mul(A_, A_)))], "Kepler's third law: t0^2 GM = |a|^3")
                s.ob(ex, s1, dom.z(mul(L(sg), t0)) > 0, "sign of t0", w)
                sm([dt], [mul(Mn, mul(L(sg), t0))], "time since periapsis is mean anomaly times t0")
                Ev = mul(L(sg), add(Mn, mul(e, mul(L(sg), sE))))
                for s2, x in s.split(dom, ex, s1, Ev):
                    x = RV(dom.nf(x.p))
                    if hyp:
                        sm(list(dom.hyper(x)), [sE, cE], "mean anomaly is e sinh F - F", s2)
                    else:
                        sm(list(dom.sincos(x)), [sE, cE], "mean anomaly is E - e sin E", s2)
                        s.ob(ex, s2, z3.And(dom.z(x) >= -dom.q(PI + TOL), dom.z(x) <= dom.q(PI + TOL)), "eccentric anomaly within half a turn", w)
            else:
                w0 = F("w0")
                sm([mul(mul(w0, w0), mul(q, mul(q, q)))], [mul(L(Fr(9, 2)), gm)], "Barker's constant: w0^2 q^3 = 4.5 GM"); s.ob(ex, s1, dom.z(w0) > 0, "Barker's constant is positive", w)
                sm([mul(w0, dt)], [add(mul(T, mul(T, T)), mul(L(3.0), T))], "Barker's equation")
            # and back again: position and velocity computed from these elements
            st = s1
            if kind != "parabolic":
                Mn, Ev = (dom.map1(ex, st, x, lambda v: RV(dom.nf(v.p))) for x in (Mn, Ev))
                def kep(ex, st, a, i, fr):
                    def f(x):
                        for k in (1, -1):
                            d = padd(x.p, Mn.p, -k); n = {mm: v / (2 * PI) for mm, v in d.items()}
                            if all(abs(v - round(v)) < Fr(1, 10 ** 12) for v in n.values()) and (hyp and not n or not hyp and dom.unint(RV({mm: Fr(round(v)) for mm, v in n.items() if round(v)})) is not None):
                                return RV(dom.nf(pscale(Ev.p, Fr(k))))
                        ctx.failed.append(fail("round trip", "Kepler's equation is solved for the mean anomaly of these elements", {"arg": str(x.p)[:200], "want": str(Mn.p)[:200]})); return RV({})
                    return dom.map1(ex, st, a[1], f)
                ex.contracts["kepler"] = kep; R = dom.div(ex, st, e2, u, None); dom.hints.append(R); dom.know([Mn, neg(Mn), R, mul(D, c), mul(D, s_), s_, c, neg(s_), RV(dom.nf(mul(q, add(one, e)).p))]); dom.positive(R, mul(D, D), mul(D, mul(q, add(one, e))))
                pl, pv = s.put(ex, st, "loc", [None] * 4), s.put(ex, st, "vel", [None] * 3)
                w2 = "astfuncs.cpp (comet_posn_and_vel)"
                _, s4 = ex.call_fn(s.prog.get("comet_posn_and_vel"), [p, t, pl, pv], st)
                s.same(ctx, dom, ex, s4, s.get(ex, s4, pl, 4), r6[:3] + [D], "round trip: position", w2)
                s.same(ctx, dom, ex, s4, s.get(ex, s4, pv, 3), r6[3:], "round trip: velocity", w2)
        return Unit("elements of a state vector (%s, e %g to %g%s)" % (kind, lo, hi, {0: "", 1: ", in the xy plane", -1: ", in the xy plane, retrograde"}[plane]), gen, fns=["calc_classical_elements", "comet_posn_and_vel"], replay=s.rp, limit=400)

    # ------------------------------------------------------------------ real code
    def kep_ref(s, e, M):
        import mpmath as mp
        mp.mp.dps = 40; e, M = mp.mpf(e), mp.mpf(M)
        if e < 1:
            k = mp.nint(M / (2 * mp.pi)); M = M - 2 * mp.pi * k; f = lambda x: x - e * mp.sin(x) - M; lo, hi = M - 1, M + 1; g = lambda x: 1 - e * mp.cos(x)
        else: k = 0; f = lambda x: e * mp.sinh(x) - x - M; h = mp.asinh(abs(M) / e) + (6 * abs(M)) ** (mp.mpf(1) / 3) + 1; lo, hi = -h, h; g = lambda x: e * mp.cosh(x) - 1
        x = (lo + hi) / 2
        for i in range(200):
            y = f(x)
            if y > 0: hi = x
            else: lo = x
            d = g(x); n = x - y / d if d else lo
            if not lo < n < hi: n = (lo + hi) / 2
            if abs(n - x) <= mp.mpf(10) ** -32 * (1 + abs(x)): x = n; break
            x = n
        return x + 2 * mp.pi * k

    def state_ref(s, q, e, om, inc, node, gm, dt):
        import mpmath as mp
        mp.mp.dps = 40; q, e, om, inc, node, gm, dt = map(mp.mpf, (q, e, om, inc, node, gm, dt))
        if e == 1:
            w = mp.sqrt(mp.mpf(9) / 2 * gm / q ** 3) * dt / 2; y = mp.cbrt(abs(w) + mp.sqrt(w * w + 1)); T = (y - 1 / y) * (1 if w >= 0 else -1)
            c, s_ = (1 - T * T) / (1 + T * T), 2 * T / (1 + T * T)
        else:
            a = q / abs(1 - e); E = s.kep_ref(e, dt * mp.sqrt(gm / a ** 3)); b = mp.sqrt(abs(1 - e * e))
            if e < 1: R = 1 - e * mp.cos(E); c, s_ = (mp.cos(E) - e) / R, b * mp.sin(E) / R
            else: R = e * mp.cosh(E) - 1; c, s_ = (e - mp.cosh(E)) / R, b * mp.sinh(E) / R
        D = q * (1 + e) / (1 + e * c); mu = mp.sqrt(gm / (q * (1 + e)))
        cw, sw, ci, si, cn, sn = mp.cos(om), mp.sin(om), mp.cos(inc), mp.sin(inc), mp.cos(node), mp.sin(node)
        P = [cn * cw - sn * sw * ci, sn * cw + cn * sw * ci, sw * si]; Q = [-cn * sw - sn * cw * ci, cn * cw * ci - sn * sw, cw * si]
        return [float(D * (c * x + s_ * y)) for x, y in zip(P, Q)], [float(mu * (-s_ * x + (e + c) * y)) for x, y in zip(P, Q)], [float(x) for x in P], [float(y) for y in Q]

    def buf(s, **kw):
        b = bytearray(s.size); import struct
        for f, v in kw.items(): struct.pack_into("<d", b, s.off[f], v)
        return (ctypes.c_char * s.size).from_buffer(b)

    def got(s, b, f, n=0):
        import struct
        r = struct.unpack_from("<%dd" % (n or 1), bytes(b), s.off[f])
        return list(r) if n else r[0]

    def far(s, a, b, tol): return not max(abs(x - y) for x, y in zip(a, b)) <= tol * (1e-12 + math.sqrt(sum(x * x for x in b)))

    def bad_kepler(s, e, M):
        L = s.native(); k, x = native.guarded(lambda: L.x_kepler(e, M)); info = {"input": {"kepler": [e, M]}, "observed": (k, x)}
        if k != "ok" or x != x: return info
        E = s.kep_ref(e, M); r = max(1, abs(float(E)))
        import mpmath as mp
        f = mp.mpf(x) - mp.mpf(e) * mp.sin(x) - mp.mpf(M) if e < 1 else mp.mpf(e) * mp.sinh(x) - x - mp.mpf(M)
        if abs(float(f)) > 1e-11 * max(1, abs(M)): return dict(info, expected=float(E), residual=float(f))

    def bad_posn(s, q, e, om, inc, node, gm, dt, T=2451545.25):
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p
        dq, cp = native.fn(L, "derive_quantities", None, V, D), native.fn(L, "comet_posn_and_vel", ctypes.c_int, V, D, V, V)

        def run():
            b = s.buf(q=q, ecc=e, incl=inc, arg_per=om, asc_node=node, perih_time=T); dq(b, gm); loc, vel, l2 = (D * 4)(), (D * 3)(), (D * 4)()
            cp(b, T + dt, loc, vel); m = s.got(b, "minor_to_major"), s.got(b, "angular_momentum"), s.got(b, "perih_vec", 3), s.got(b, "sideways", 3)
            cp(b, T + dt, l2, None)
            return list(loc), list(vel), list(l2), m
        k, x = native.guarded(run); dt = (T + dt) - T
        R, Vv, P, Q = s.state_ref(q, e, om, inc, node, gm, dt)
        info = {"input": {"derive_quantities, comet_posn_and_vel": dict(q=q, ecc=e, arg_per=om, incl=inc, asc_node=node, gm=gm, t_minus_T=dt)}, "expected": [R, Vv], "observed": (k, x)}
        if k != "ok": return info
        r = math.sqrt(sum(v * v for v in R))
        if s.far(x[0][:3], R, 1e-6) or s.far(x[1], Vv, 1e-6) or x[2] != x[0] or abs(x[0][3] - r) > 1e-6 * r: return info
        b, h, p, w = x[3]
        if abs(b * b - abs(1 - e * e)) > 1e-9 * (1 + e * e) or b < 0 or abs(h - math.sqrt(gm * q * (1 + e))) > 1e-9 * h or s.far(p, P, 1e-9) or s.far(w, Q, 1e-9): return info

    def bad_elem(s, r, v, gm, t=2451545.25):
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p
        cc, cp = native.fn(L, "calc_classical_elements", ctypes.c_int, V, V, D, ctypes.c_int), native.fn(L, "comet_posn_and_vel", ctypes.c_int, V, D, V, V)

        def run():
            b = s.buf(gm=gm); cc(b, (D * 6)(*r, *v), t, 1); g = {f: s.got(b, f) for f in FIELDS if f not in ("perih_vec", "sideways")}
            for f in ("perih_vec", "sideways"): g[f] = s.got(b, f, 3)
            loc, vel = (D * 4)(), (D * 3)(); cp(b, t, loc, vel)
            return g, list(loc)[:3], list(vel)
        k, x = native.guarded(run)
        info = {"input": {"calc_classical_elements": dict(r=list(r), v=list(v), gm=gm, t=t)}, "observed": (k, x)}
        if k != "ok": return info
        g, l2, v2 = x
        try: R, Vv, P, Q = s.state_ref(g["q"], g["ecc"], g["arg_per"], g["incl"], g["asc_node"], gm, t - g["perih_time"])
        except (ArithmeticError, ValueError, TypeError): return dict(info, expected="elements of a conic")
        info["expected"] = {"state of the elements": [list(r), list(v)]}; info["state of the elements"] = [R, Vv]
        e = g["ecc"]; sg = -1 if e > 1 else 1; h = math.sqrt(gm * g["q"] * (1 + e))
        if s.far(R, r, 1e-5) or s.far(Vv, v, 1e-5): return info
        if s.far(l2, r, 1e-5) or s.far(v2, v, 1e-5): return dict(info, observed_round_trip=[l2, v2])
        if s.far(g["perih_vec"], P, 1e-6) or s.far([sg * y for y in g["sideways"]], Q, 1e-6) or abs(g["angular_momentum"] - sg * h) > 1e-6 * h: return info
        if not (-1e-9 <= g["incl"] <= math.pi + 1e-9 and -1e-9 <= g["arg_per"] <= 2 * math.pi + 1e-9): return info
        if abs(g["minor_to_major"] - math.sqrt(abs(1 - e * e))) > 1e-9 * (1 + e): return info
        if e != 1 and g["minor_to_major"] and abs(g["major_axis"] * (1 - e) - g["q"]) > 1e-6 * g["q"]: return info

    def rp(s, m):
        g = lambda k, d: float(m.get(k, d))
        om, inc, node, e, gm = g("ang_arg_per", .3), g("ang_incl", .4), g("ang_asc_node", .7), g("ecc", 1.0 if "d" not in m else 0.0), 2.9591220828559115e-4
        r = None
        if "mean_anomaly" in m:
            r = s.bad_kepler(e, g("mean_anomaly", .1))
        if "ang_true_anom" in m:
            nu = g("ang_true_anom", .5); i2 = math.acos(max(-1, min(1, math.cos(inc))))
            for inc_ in (i2, 0.0, math.pi):
                D = 1.7; u = 1 + e * math.cos(nu)
                if u <= 1e-6: continue
                q = D * u / (1 + e); mu = math.sqrt(gm / (q * (1 + e))); _, _, P, Q = s.state_ref(1, .5, om, inc_, node, 1, 0)
                if inc_ != i2: P[2] = Q[2] = 0.0
                r = r or s.bad_elem([D * (math.cos(nu) * a + math.sin(nu) * b) for a, b in zip(P, Q)], [mu * (-math.sin(nu) * a + (e + math.cos(nu)) * b) for a, b in zip(P, Q)], gm)
        if r: return r
        rng = random.Random(3)
        for i in range(60):
            r = s.bad_posn(10 ** rng.uniform(-1, 1), e, om, inc, node, gm, rng.uniform(-1500, 1500))
            if r: return r
        for i in range(200):
            r = s.probe(rng)
            if r: return r

    def probe(s, rng):
        U = rng.uniform; gm = 2.9591220828559115e-4; e = rng.choice((0.0, U(0, .9), U(.9, 1), 1 - 10 ** U(-13, -2), 1.0, 1 + 10 ** U(-13, -2), U(1, 3), U(1, 20)))
        k = rng.random()
        if k < .35 and e != 1: return s.bad_kepler(e, rng.choice((0.0, U(-4, 4), U(-40, 40), U(-.1, .1), 10 ** U(-8, 0), -10 ** U(-8, 3))))
        if 0 < abs(1 - e) < 1e-9: e = 1 + math.copysign(10 ** U(-8.5, -2), e - 1)       # nearer to 1 roundoff is amplified too much
        if rng.random() < .1: e = rng.choice((0.0, 10 ** U(-16, -2)))
        q = 10 ** U(-1, 1); om, inc, node = U(0, 6.28), rng.choice((U(0, 3.14), U(0, 3.14), U(0, .01), math.pi - U(0, .01))), U(-3.1, 6.2)
        if k < .7: return s.bad_posn(q, e, om, inc, node, gm, rng.choice((0.0, U(-1500, 1500), U(-30, 30))))
        if rng.random() < .2:       # in the xy plane
            sg = rng.choice((1, -1)); v = rng.choice((math.sqrt(gm), U(.5, 1.6) * math.sqrt(gm))); a = rng.choice((0, math.pi / 2, math.pi, -math.pi / 2, U(0, 6.28)))
            return s.bad_elem([math.cos(a), math.sin(a), 0.0], [-sg * v * math.sin(a), sg * v * math.cos(a), 0.0], gm)
        R, V, _, _ = s.state_ref(q, e, om, inc, node, gm, U(-900, 900))
        return s.bad_elem(R, V, gm)

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            while time.time() < end:
                note("random probe"); r = s.probe(rng)
                if r: return r
        return w

    def sanity(s):
        rng = random.Random(s.seed)
        for i in range(500):
            r = s.probe(rng)
            if r: return i, r
        return 500, None


CHECKS = {"C14": C14}
