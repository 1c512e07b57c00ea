"""C13: interpolation within a table (spline.cpp).  Tables of any length, any real contents."""
import ctypes, math, random
from fractions import Fraction as Fr
from check import *
from real import RealDom, RV, RAlt, padd, pmul, pscale, const, ONE
from desig import fail
from rot import Rot, M

SRC = ["spline.cpp"]
BIG = 10 ** 8


class LinDom(RealDom):
    """reals, with reciprocals of linear expressions in partial fractions, and integers identified when proved equal"""
    def __init__(s): RealDom.__init__(s); s.rec = []; s.U = {}; s.shorten = True

    def bin(s, ex, st, o, a, b, ty, inst):
        r = RealDom.bin(s, ex, st, o, a, b, ty, inst)
        if o in ("fadd", "fsub") and isinstance(r, RV): r = s.short(r)
        return r

    def short(s, r):
        """x - k as one variable"""
        if not s.shorten: return r
        q = dict(r.p); c = q.pop(ONE, Fr(0))
        if len(q) == 3 and q.get(((s.F.id, 1),)) == 1 and q.get(((s.fr.id, 1),)) == 1:
            (k, kc), = [(m, x) for m, x in q.items() if m not in (((s.F.id, 1),), ((s.fr.id, 1),))]
            if kc == -1 and len(k) == 1 and s.atoms[k[0][0]].kind == "int":
                A = s.atoms[k[0][0]]
                if A.id not in s.U: s.U[A.id] = s.atom("x_in_window", "lin", RV(q), z=s.z(RV(q)))
                return RV(padd(s.v(s.U[A.id]).p, {ONE: c} if c else {}))
        return r

    def subst(s, p, a, q):
        out = {}
        for m, c in p.items():
            r = {tuple(x for x in m if x[0] != a.id): c}
            for _ in range(dict(m).get(a.id, 0)): r = pmul(r, q)
            out = padd(out, r)
        return out

    def spec_u(s, ex, st, x, p):
        """x - p as one variable of the specification, p the first point used"""
        s.shorten = False
        k = s.lift(p) if not z3.is_expr(p) else s.unint_poly(p) or s.from_int(ex, st, p, None)
        s.W = s.atom("u", "lin", s.sub(x, k), z=s.z(s.sub(x, k))); s.pk = k
        return s.v(s.W)

    def fixed(s, ex, st, v, p):
        """v in terms of the specification's variables: integers proved equal to p on this path are replaced by it"""
        v = s.nf(s.lift(v).p); W = s.v(s.W).p
        for i, U in s.U.items():
            if any(a == U.id for m in v for a, _ in m):
                if s.lin_unsat(ex, st.pc, s.atoms[i].arg == p): v = s.subst(v, U, W)
                else: v = s.subst(v, U, U.arg.p)
        for a in {a for m in v for a, _ in m}:
            A = s.atoms[a]
            if A.kind == "int" and A is not s.F and A is not s.n and s.lin_unsat(ex, st.pc, A.arg == p): v = s.subst(v, A, s.pk.p)
        if ((s.F.id, 1),) in s.pk.p: v = s.subst(v, s.fr, padd(W, padd(s.pk.p, s.v(s.F).p, -1)))
        else: v = s.subst(v, s.F, padd(padd(W, s.pk.p), s.v(s.fr).p, -1))
        return RV(v)

    def unint_poly(s, p):
        """F + c or n + c as a polynomial"""
        for A in (s.F, s.n):
            c = z3.simplify(p - A.arg)
            if z3.is_int_value(c): return RV(padd(s.v(A).p, {ONE: Fr(c.as_long())} if c.as_long() else {}))

    def floor_of(s, ex, st, x, inst, what):
        """the argument is an integer plus a fraction in 0 <= fr < 1"""
        fr = s.v(s.fr)
        rest = padd(x.p, fr.p, -1); c = rest.pop(ONE, Fr(0)); ip = RV(rest)
        n = s.unint(ip)
        if n is None or x.p.get(((s.fr.id, 1),)) != 1: return RealDom.floor_of(s, ex, st, x, inst, what)
        k = math.floor(c); lo, hi = s.bounds(ip); f = c - k
        if f: t = n + k + z3.If(s.fr.z >= s.q(1 - f), z3.IntVal(1), z3.IntVal(0))
        else: t = n + k if k else n
        if z3.is_expr(t): ex.setr(t, int(lo) + k, int(hi) + k + (1 if f else 0))
        return t

    def div(s, ex, st, x, y, inst):
        c = const(y.p)
        if c is not None or any(sum(e for _, e in m) > 1 for m in y.p): return RealDom.div(s, ex, st, x, y, inst)
        base = {m: k for m, k in y.p.items() if m != ONE}
        lead = min(base); k = base[lead]; base = pscale(base, 1 / k); c0 = y.p.get(ONE, Fr(0)) / k
        for b, c1, r in s.rec:
            if b == base and c1 == c0: break
        else:
            ex.oblige(st, s.z(y) != 0, "divisor is not zero", inst)
            r = s.atom("recip", "quot", (RV({ONE: Fr(1)}), RV(padd(base, {ONE: c0} if c0 else {}))))
            u = s.z(RV(padd(base, {ONE: c0} if c0 else {})))
            ex.axioms.append(z3.Implies(u != 0, r.z * u == 1))
            l = lead[0][0]; rest = padd({lead: Fr(1)}, padd(base, {ONE: c0} if c0 else {}), -1)
            s.prods[tuple(sorted((r.id, l)))] = padd({ONE: Fr(1)}, pmul({((r.id, 1),): Fr(1)}, rest))
            for b, c1, q in s.rec:
                if b == base: s.prods[tuple(sorted((r.id, q.id)))] = {((r.id, 1),): 1 / (c1 - c0), ((q.id, 1),): -1 / (c1 - c0)}
            s.rec.append((base, c0, r))
        return RV(s.nf(pmul(pscale(x.p, 1 / k), {((r.id, 1),): Fr(1)})))


class C13(Rot):
    id = "C13"; title = "Interpolation reproduces the table and never reads outside it"
    assumptions = ["floating-point arithmetic is treated as real arithmetic (identities hold to 1e-9)",
                   "tables of up to 10^8 entries, arguments up to 10^8 in size"]
    PTS = range(1, 17)

    def setup(s):
        s.prog = Program(SRC); s.nat = None

    def native(s):
        if s.nat is None: s.nat = native.build(SRC, "spline")
        return s.nat

    # ------------------------------------------------ a table of n entries, n symbolic
    def table(s, ex, dom, st, n):
        p = ex.new_obj(st, "table", n * 8, const=True); o = st.mem[p.obj]; s.ent = []; s.memo = {}; s.keep = []
        o.gen = lambda ex, st, off, ty: s.entry(ex, dom, st, off)
        return p

    def entry(s, ex, dom, st, k):
        """table[k]: one atom for each index, equal for indices proved equal on this path"""
        if z3.is_expr(k): k = z3.simplify(k)
        for t, a in s.ent:
            c = z3.simplify(zi(t) - zi(k))
            if z3.is_int_value(c) and c.as_long() == 0: return dom.v(a)
        for t in s.bases(dom, ex, st, k):
            for t2, a in s.ent:
                c = z3.simplify(zi(t2) - t)
                if z3.is_int_value(c) and c.as_long() == 0: return dom.v(a)
        a = dom.atom("table[%d]" % len(s.ent), "in", None, None, None); s.ent.append((k, a))
        return dom.v(a)


    def bases(s, dom, ex, st, k):
        """terms of the indices read so far, shifted by a constant so as to equal k on this path"""
        bs = []
        for t, _ in s.ent:
            if not any(z3.is_int_value(z3.simplify(zi(t) - zi(b))) for b in bs): bs.append(t)
        memo = s.__dict__.setdefault("memo", {})
        for b in bs:
            c0 = z3.simplify(zi(k) - zi(b))
            if z3.is_int_value(c0): continue
            key = (tuple(h.get_id() if z3.is_expr(h) else h for h in st.pc), zi(b).get_id())
            for k2, d2 in memo.get(key, []):
                c = z3.simplify(zi(k) - zi(k2))
                if z3.is_int_value(c):
                    if d2 is not None: yield zi(b) + (d2 + c.as_long())
                    break
            else:
                d = None; sol = dom.lin_solver(ex, list(st.pc), 2000)
                if sol.check() == z3.sat:
                    m = sol.model(); d = m.eval(zi(k) - zi(b), model_completion=True).as_long()
                    if not dom.lin_unsat(ex, st.pc, zi(k) == zi(b) + d): d = None
                memo.setdefault(key, []).append((k, d)); s.__dict__.setdefault("keep", []).append((st.pc, b, k))
                if d is not None: yield zi(b) + d

    def begin(s, ctx, least):
        dom = LinDom(); ex = ctx.executor(s.prog, fdom=dom); dom.ex = ex; st = State()
        n = ex.input_int("n_entries", 32, least, BIG); F = ex.input_int("floor_x", 32, -BIG, BIG)
        fr = dom.input(ex, "fraction", 0, 1); dom.fr = dom.atoms[-1]; ex.axioms.append(dom.z(fr) < 1)
        k = dom.from_int(ex, st, F, None); dom.F = dom.atoms[-1]; dom.from_int(ex, st, n, None); dom.n = dom.atoms[-1]; x = dom.add(k, fr)
        return dom, ex, st, x, n, F, s.table(ex, dom, st, n)

    def case(s, ex, st, *conds):
        """the state with further conditions, None if they cannot hold"""
        for c in conds:
            if not is_true(c): st = st.also(zb(c))
        return None if ex.fdom.lin_unsat(ex, st.pc, False) else st

    def results(s, dom, ex, st, r):
        for g, v in dom.alts(dom.lift(r)):
            s2 = s.case(ex, st, g)
            if s2 is not None: yield s2, v

    def at(s, ex, dom, st, k): return s.entry(ex, dom, st, z3.simplify(zi(k) * 8) if z3.is_expr(k) else 8 * k)

    def u_cubic(s, err):
        def gen(ctx):
            w = "spline.cpp (cubic_spline_interpolate_within_table)"
            dom, ex, st, x, n, F, tab = s.begin(ctx, 4)
            pe = ex.new_obj(st, "err_code", 4) if err else NULL
            r, st = ex.call_fn(s.prog.get("cubic_spline_interpolate_within_table"), [tab, n, x, pe], st)
            for name, cond, p in (("before the table", F < 1, 1), ("within the table", z3.And(F >= 1, F <= n - 3), F), ("after the table", F > n - 3, n - 3)):
                s1 = s.case(ex, st, cond); ctx.cover(ex, s1, "cubic " + name)
                u = dom.spec_u(ex, s1, x, p); one = dom.lift(1); v = dom.sub(one, u)
                for s2, got in s.results(dom, ex, s1, r):
                    a, b, c, d = (s.at(ex, dom, s2, p + i) for i in (-1, 0, 1, 2))
                    m0, m1 = (dom.mul(dom.lift(Fr(1, 2)), dom.sub(q, t)) for q, t in ((c, a), (d, b)))
                    M2 = lambda *f: __import__("functools").reduce(dom.mul, [dom.lift(t) for t in f])
                    h = [M2(dom.add(one, M2(2, u)), v, v, b), M2(u, v, v, m0), M2(u, u, dom.sub(dom.lift(3), M2(2, u)), c), M2(-1, u, u, v, m1)]
                    want = h[0]
                    for t in h[1:]: want = dom.add(want, t)
                    dom.zero(ctx, ex, s2, dom.fixed(ex, s2, dom.sub(got, want), p), "value is the cubic through the two points with the table's mean slopes, %s" % name, w)
                if err:
                    e = ex.load(s1, pe, INT(32))
                    want = {"b": z3.If(F < 0, z3.IntVal(-2), z3.IntVal(-1)), "w": z3.IntVal(0), "a": z3.If(F > n - 2, z3.IntVal(-2), z3.IntVal(-1))}[name[0]]
                    ex.oblige(State(s1.pc), zi(e) == want, "error code %s" % name, where=w, kind="post")
        return Unit("cubic spline%s" % (" with error code" if err else ""), gen, fns=["cubic_spline_interpolate_within_table"], replay=s.rp, limit=120)

    def window(s, F, x, dom, ex, st, N, n):
        """first of the N points used: centred on x, moved inside the table"""
        if N % 2 == 0: p = F - N // 2 + 1
        else:
            H = F + z3.If(dom.fr.z >= dom.q(Fr(1, 2)), z3.IntVal(1), z3.IntVal(0))
            p = H - N // 2
        return [("window before the table", p < 0, 0), ("window in the table", z3.And(p >= 0, p <= n - N), p), ("window after the table", p > n - N, n - N)]

    def u_lagrange(s, N, deriv):
        def gen(ctx):
            w = "spline.cpp (lagrange_interpolate_within_table)"
            dom, ex, st, x, n, F, tab = s.begin(ctx, N)
            pd = ex.new_obj(st, "deriv", 8) if deriv else NULL
            fn = s.prog.get("lagrange_interpolate_within_table"); calls = []

            def rec(ex, st, a, i, fr):
                ok = isinstance(a[0], Ptr) and a[0].obj == tab.obj and a[0].off == 0 and a[4] is NULL
                if not ok: raise Unsupported("nested interpolation in another table")
                ex.oblige(st, z3.And(zi(a[1]) == n, zi(a[3]) == N), "nested call uses the same table and number of points", i)
                z = dom.z(a[2]); ex.oblige(st, z3.And(z >= -2 * BIG, z <= 2 * BIG), "nested call within the contract's range", i)
                v = dom.lift(a[2])
                for y, t in calls:
                    if y.p == v.p: return t
                calls.append((v, dom.v(dom.atom("interpolant", "fn")))); return calls[-1][1]
            if deriv: ex.contracts["lagrange_interpolate_within_table"] = rec
            r, st = ex.call_fn(fn, [tab, n, x, N, pd], st)
            grid = z3.And(dom.fr.z == 0, F >= 0, F < n)
            s1 = s.case(ex, st, grid); ctx.cover(ex, s1, "lagrange on a grid point")
            for s2, got in s.results(dom, ex, s1, r):
                dom.zero(ctx, ex, s2, dom.sub(got, s.at(ex, dom, s2, F)), "grid points are returned as they are", w)
            if deriv:
                for s2, got in s.results(dom, ex, s1, ex.load(s1, pd, DBL8)):
                    eps = Fr(1e-5); y = []
                    for sg in (1, -1):
                        z = dom.add(x, dom.lift(sg * eps)); y.append(next((t for v, t in calls if dom.small(padd(v.p, z.p, -1), Fr(1, 10 ** 12))), None))
                    if None in y: ctx.failed.append(fail(w, "derivative at a grid point is taken from the points next to it", {})); continue
                    dom.zero(ctx, ex, s2, dom.sub(got, dom.mul(dom.sub(*y), dom.lift(1 / (2 * eps)))), "derivative at a grid point is the central difference", w)
            for name, cond, p in s.window(F, x, dom, ex, st, N, n):
                s1 = s.case(ex, st, z3.Not(grid), cond)
                if s1 is None: continue
                ctx.cover(ex, s1, "lagrange " + name)
                u0 = dom.spec_u(ex, s1, x, p); u = [dom.sub(u0, dom.lift(i)) for i in range(N)]

                def prod(f):
                    t = dom.lift(1)
                    for q in f: t = dom.mul(t, q)
                    return t
                C = [Fr(1)] * N
                for i in range(N):
                    for j in range(N):
                        if i != j: C[i] /= i - j
                for s2, got in s.results(dom, ex, s1, r):
                    T = [s.at(ex, dom, s2, p + i) for i in range(N)]; want = dom.lift(0)
                    for i in range(N): want = dom.add(want, dom.mul(dom.mul(T[i], dom.lift(C[i])), prod(u[j] for j in range(N) if j != i)))
                    dom.zero(ctx, ex, s2, dom.fixed(ex, s2, dom.sub(got, want), p), "value is that of the polynomial through the %d points, %s" % (N, name), w)
                if not deriv: continue
                for s2, got in s.results(dom, ex, s1, ex.load(s1, pd, DBL8)):
                    T = [s.at(ex, dom, s2, p + i) for i in range(N)]; want = dom.lift(0)
                    for i in range(N):
                        d = dom.lift(0)
                        for l in range(N):
                            if l != i: d = dom.add(d, prod(u[j] for j in range(N) if j not in (i, l)))
                        want = dom.add(want, dom.mul(dom.mul(T[i], dom.lift(C[i])), d))
                    dom.zero(ctx, ex, s2, dom.fixed(ex, s2, dom.sub(got, want), p), "derivative is that of the polynomial through the %d points, %s" % (N, name), w)
        return Unit("Lagrange, %d points%s" % (N, " with derivative" if deriv else ""), gen, fns=["lagrange_interpolate_within_table"], replay=s.rp, limit=300)

    def units(s):
        return [s.u_cubic(True), s.u_cubic(False)] + [s.u_lagrange(N, d) for N in s.PTS for d in (False, True)]

    # ------------------------------------------------ real code
    def bad(s, tab, x, N=None):
        L = s.native(); D = ctypes.c_double; V = ctypes.c_void_p; n = len(tab)
        PAD = 64; a = (D * (n + 2 * PAD))(*([1e300] * PAD + list(tab) + [1e300] * PAD)); adr = ctypes.addressof(a) + 8 * PAD
        fl = math.floor(x)
        if N is None:
            f = native.fn(L, "cubic_spline_interpolate_within_table", D, V, ctypes.c_int, D, V); e = ctypes.c_int(99)
            k, g = native.guarded(lambda: (f(adr, n, x, ctypes.addressof(e)), e.value, f(adr, n, x, None)))
            p = min(max(fl, 1), n - 3); u = x - p; b, c = tab[p], tab[p + 1]; m0, m1 = (c - tab[p - 1]) / 2, (tab[p + 2] - b) / 2
            v = (1 + 2 * u) * (1 - u) ** 2 * b + u * (1 - u) ** 2 * m0 + u * u * (3 - 2 * u) * c + u * u * (u - 1) * m1
            ec = -2 if fl < 0 or fl > n - 2 else -1 if fl < 1 or fl > n - 3 else 0
            info = {"input": {"cubic": [tab, x]}, "expected": [v, ec], "observed": (k, g)}
            sc = max(map(abs, tab)) * (1 + abs(u)) ** 3 * 20
            if k != "ok" or g[1] != ec or not abs(g[0] - v) <= 1e-10 * sc or not abs(g[2] - v) <= 1e-10 * sc: return info
            return
        f = native.fn(L, "lagrange_interpolate_within_table", D, V, ctypes.c_int, D, ctypes.c_int, V); d = D(9e99)
        k, g = native.guarded(lambda: (f(adr, n, x, N, ctypes.addressof(d)), d.value, f(adr, n, x, N, None)))
        p = min(max(math.floor(Fr(x) - Fr(N, 2)) + 1, 0), n - N); X = Fr(x)
        v = dv = Fr(0); sc = Fr(0)
        for i in range(N):
            t = Fr(1)
            for j in range(N):
                if j != i: t /= i - j
            q = t; z = Fr(0)
            for j in range(N):
                if j != i: q *= X - p - j
            for l in range(N):
                if l == i: continue
                y = t
                for j in range(N):
                    if j not in (i, l): y *= X - p - j
                z += y
            v += q * Fr(tab[p + i]); dv += z * Fr(tab[p + i]); sc += (abs(q) + abs(z)) * abs(Fr(tab[p + i]))
        grid = x == fl and 0 <= fl < n
        near = abs(x - round(x)) < 1e-3
        tol = float(sc) * (1e-10 if not near else 1e-6) * 100 + 1e-9
        info = {"input": {"lagrange": [tab, x, N]}, "expected": [float(v), float(dv)], "observed": (k, g)}
        if k != "ok": return info
        if grid:
            if g[0] != tab[fl] or g[2] != tab[fl]: return info
            q = [f(adr, n, x + h, N, None) for h in (-1e-5, 1e-5)]
            if not abs(g[1] - (q[1] - q[0]) / 2e-5) < 1e-5 * (1 + max(map(abs, tab))): return info
        elif not (abs(g[0] - float(v)) <= tol and abs(g[2] - float(v)) <= tol and (near or abs(g[1] - float(dv)) <= tol)): return info

    def rp(s, m):
        rng = random.Random(3); x = float(m.get("floor_x", 2)) + float(m.get("fraction", .5)); n = min(max(int(m.get("n_entries", 8)), 4), 5000)
        for N in [None] + [k for k in s.PTS if k <= n]:
            r = s.bad([rng.uniform(-9, 9) for _ in range(n)], x, N)
            if r: return r

    def probe(s, rng):
        n = rng.choice((4, 5, 6, 8, 12, 13, 20, 30)); tab = [rng.choice((rng.uniform(-5, 5), float(rng.randrange(-3, 4)))) for _ in range(n)]
        x = rng.choice((rng.uniform(-3, n + 3), float(rng.randrange(-3, n + 3)), rng.randrange(-3, n + 3) + .5, rng.uniform(-1, 1), n - rng.uniform(0, 3)))
        return s.bad(tab, x, rng.choice([None] + [k for k in s.PTS if k <= n]))

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            while time.time() < end:
                note("random probe"); r = s.probe(rng)
                if r: return r
        return w

    def sanity(s):
        rng = random.Random(s.seed)
        for i in range(600):
            r = s.probe(rng)
            if r: return i, r
        return 600, None


DBL8 = DOUBLE
CHECKS = {"C13": C13}
