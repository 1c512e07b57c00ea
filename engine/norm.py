"""Normalisation of integer terms: linear-combination form, multiples of n pulled out of div n / mod n.
Pure rewriting by the identities (n*Q + R) div n = Q + R div n and (n*Q + R) mod n = R mod n."""
import z3

IS = z3.IntSort()


class Norm:
    def __init__(s, subst=None, bounds=None):
        """bounds: ex.rng-style map id -> (lo, hi, term) of interval facts that hold unconditionally"""
        s.memo = {}; s.keep = []; s.bounds = bounds; s.ival = {}
        s.subst = {}
        for v, t in (subst or []): s.subst[v.get_id()] = t; s.keep.append((v, t))
        s.atoms = {}

    def iv(s, t):
        """interval of an integer term (before substitution), from the variable bounds only; None = unbounded"""
        k = t.get_id()
        if k in s.ival: return s.ival[k]
        s.keep.append(t)
        r = s._iv(t)
        b = s.bounds.get(k)
        if b is not None:
            lo, hi = r or (None, None)
            r = (b[0] if lo is None else max(lo, b[0]), b[1] if hi is None else min(hi, b[1])) if r else (b[0], b[1])
        s.ival[k] = r
        return r

    def _iv(s, t):
        if z3.is_int_value(t): v = t.as_long(); return (v, v)
        d = t.decl().kind()
        if d == z3.Z3_OP_ITE:
            a, b = s.iv(t.arg(1)), s.iv(t.arg(2))
            return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            c = [s.iv(x) for x in t.children()]
            if d == z3.Z3_OP_MOD and c[1] and c[1][0] == c[1][1] > 0:
                n = c[1][0]
                if c[0] and c[0][0] // n == c[0][1] // n: return (c[0][0] % n, c[0][1] % n)
                return (0, n - 1)
            if any(x is None for x in c): return None
            if d == z3.Z3_OP_ADD: return (sum(x[0] for x in c), sum(x[1] for x in c))
            if d == z3.Z3_OP_SUB: return (c[0][0] - sum(x[1] for x in c[1:]), c[0][1] - sum(x[0] for x in c[1:]))
            if d == z3.Z3_OP_UMINUS: return (-c[0][1], -c[0][0])
            if d == z3.Z3_OP_MUL:
                r = c[0]
                for x in c[1:]:
                    q = [r[0] * x[0], r[0] * x[1], r[1] * x[0], r[1] * x[1]]; r = (min(q), max(q))
                return r
            if d == z3.Z3_OP_IDIV and c[1][0] == c[1][1] > 0: return (c[0][0] // c[1][0], c[0][1] // c[1][0])
        return None

    def lin(s, t):
        """-> (const, {id: coef}); atoms in s.atoms"""
        k = ("l", t.get_id())
        if k in s.memo: return s.memo[k]
        s.keep.append(t)
        r = s._lin(t)
        s.memo[k] = r
        return r

    def atom(s, t):
        if z3.is_int_value(t): return (t.as_long(), {})
        s.atoms[t.get_id()] = t
        return (0, {t.get_id(): 1})

    def _lin(s, t):
        if t.get_id() in s.subst: return s.lin(s.subst[t.get_id()]) if t.get_id() != s.subst[t.get_id()].get_id() else s.atom(t)
        if z3.is_int_value(t): return (t.as_long(), {})
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            c = 0; m = {}
            for x in t.children():
                a, b = s.lin(x)
                c += a
                for k, v in b.items():
                    w = m.get(k, 0) + v
                    if w: m[k] = w
                    else: m.pop(k, None)
            return (c, m)
        if d == z3.Z3_OP_SUB:
            c, m = s.lin(t.arg(0)); m = dict(m)
            for x in t.children()[1:]:
                a, b = s.lin(x)
                c -= a
                for k, v in b.items():
                    w = m.get(k, 0) - v
                    if w: m[k] = w
                    else: m.pop(k, None)
            return (c, m)
        if d == z3.Z3_OP_UMINUS:
            c, m = s.lin(t.arg(0))
            return (-c, {k: -v for k, v in m.items()})
        if d == z3.Z3_OP_MUL:
            con = 1; rest = []
            for x in t.children():
                p = s.lin(x)
                if not p[1]: con *= p[0]
                else: rest.append(p)
            if con == 0: return (0, {})
            if not rest: return (con, {})
            if len(rest) == 1: return (con * rest[0][0], {k: v * con for k, v in rest[0][1].items()})
            x = s.build(rest[0])
            for y in rest[1:]: x = x * s.build(y)
            s.keep.append(x)
            a, m = s.atom(x)
            return (0, {k: v * con for k, v in m.items()})
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_REM):
            n = s.lin(t.arg(1))
            c, m = s.lin(t.arg(0))
            if not n[1] and n[0] > 0 and d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                n = n[0]
                if n == 1: return (c, m) if d == z3.Z3_OP_IDIV else (0, {})
                qm = {}; rm = {}
                for k, v in m.items():
                    q, r = divmod(v, n)
                    if r * 2 > n: q += 1; r -= n
                    if q: qm[k] = q
                    if r: rm[k] = r
                q, r = divmod(c, n)
                if not rm:
                    return (q, qm) if d == z3.Z3_OP_IDIV else (r, {})
                R = s.build((r, rm))
                if d == z3.Z3_OP_MOD:
                    x = R % n; s.keep.append(x); return s.atom(x)
                x = R / n; s.keep.append(x)
                a, b = s.atom(x)
                m2 = dict(qm)
                for k, v in b.items(): m2[k] = m2.get(k, 0) + v
                return (q + a, m2)
            x = t.decl()(s.build((c, m)), s.build(n)); s.keep.append(x)
            return s.atom(x)
        if d == z3.Z3_OP_ITE:
            c = s.boo(t.arg(0))
            if z3.is_true(c): return s.lin(t.arg(1))
            if z3.is_false(c): return s.lin(t.arg(2))
            a, b = s.lin(t.arg(1)), s.lin(t.arg(2))
            if a == b: return a
            # pull out the common part: ite(c, X + common, Y + common)
            com = {k: v for k, v in a[1].items() if b[1].get(k) == v}
            a2 = (a[0] - b[0], {k: v for k, v in a[1].items() if k not in com})
            b2 = (0, {k: v for k, v in b[1].items() if k not in com})
            x = z3.If(c, s.build(a2), s.build(b2)); s.keep.append(x)
            k, m = s.atom(x)
            m2 = dict(com)
            for i, v in m.items(): m2[i] = m2.get(i, 0) + v
            return (b[0] + k, m2)
        if t.num_args() == 0: return s.atom(t)
        x = t.decl()(*[s.any(y) for y in t.children()]); s.keep.append(x)
        return s.atom(x)

    def build(s, p):
        c, m = p
        ts = []
        for k in sorted(m):
            v = m[k]
            ts.append(s.atoms[k] if v == 1 else v * s.atoms[k])
        if c or not ts: ts.append(z3.IntVal(c))
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        s.keep.append(r)
        return r

    def any(s, t):
        if z3.is_int(t): return s.build(s.lin(t))
        if z3.is_bool(t): return s.boo(t)
        return t

    def boo(s, t):
        k = ("b", t.get_id())
        if k in s.memo: return s.memo[k]
        s.keep.append(t)
        r = s._boo(t); s.memo[k] = r; s.keep.append(r)
        return r

    def _boo(s, t):
        if z3.is_true(t) or z3.is_false(t): return t
        if z3.is_quantifier(t): return t
        d = t.decl().kind()
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_int(t.arg(0)) and t.num_args() == 2):
            if not z3.is_int(t.arg(0)):
                return t.decl()(*[s.any(y) for y in t.children()])
            if s.bounds is not None:
                x, y = s.iv(t.arg(0)), s.iv(t.arg(1))
                if x and y:
                    if d == z3.Z3_OP_LE: x, y, dd = x, y, "le"
                    elif d == z3.Z3_OP_GE: x, y, dd = y, x, "le"
                    elif d == z3.Z3_OP_LT: x, y, dd = x, y, "lt"
                    elif d == z3.Z3_OP_GT: x, y, dd = y, x, "lt"
                    else: dd = "eq"
                    if dd == "le":
                        if x[1] <= y[0]: return T
                        if x[0] > y[1]: return F
                    elif dd == "lt":
                        if x[1] < y[0]: return T
                        if x[0] >= y[1]: return F
                    elif x[1] < y[0] or y[1] < x[0]: return F if d == z3.Z3_OP_EQ else T
            a, b = s.lin(t.arg(0)), s.lin(t.arg(1))
            m = dict(a[1]); c = a[0] - b[0]
            for k, v in b[1].items():
                w = m.get(k, 0) - v
                if w: m[k] = w
                else: m.pop(k, None)
            if not m:
                r = {z3.Z3_OP_LE: c <= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_GT: c > 0, z3.Z3_OP_EQ: c == 0, z3.Z3_OP_DISTINCT: c != 0}[d]
                return T if r else F
            x = s.build((0, m))
            y = z3.IntVal(-c)
            return {z3.Z3_OP_LE: lambda: x <= y, z3.Z3_OP_LT: lambda: x < y, z3.Z3_OP_GE: lambda: x >= y, z3.Z3_OP_GT: lambda: x > y,
                    z3.Z3_OP_EQ: lambda: x == y, z3.Z3_OP_DISTINCT: lambda: x != y}[d]()
        if d == z3.Z3_OP_NOT:
            x = s.boo(t.arg(0))
            return F if z3.is_true(x) else T if z3.is_false(x) else z3.Not(x)
        if d == z3.Z3_OP_AND:
            out = []
            for y in t.children():
                x = s.boo(y)
                if z3.is_false(x): return F
                if not z3.is_true(x): out.append(x)
            return T if not out else out[0] if len(out) == 1 else z3.And(*out)
        if d == z3.Z3_OP_OR:
            out = []
            for y in t.children():
                x = s.boo(y)
                if z3.is_true(x): return T
                if not z3.is_false(x): out.append(x)
            return F if not out else out[0] if len(out) == 1 else z3.Or(*out)
        if d == z3.Z3_OP_ITE:
            c = s.boo(t.arg(0))
            if z3.is_true(c): return s.boo(t.arg(1))
            if z3.is_false(c): return s.boo(t.arg(2))
            return z3.If(c, s.boo(t.arg(1)), s.boo(t.arg(2)))
        if t.num_args() == 0: return t
        ch = [s.any(y) for y in t.children()]
        if d == z3.Z3_OP_EQ: return ch[0] == ch[1]
        if d == z3.Z3_OP_IMPLIES: return s.boo(z3.Or(z3.Not(t.arg(0)), t.arg(1)))
        return t.decl()(*ch)
