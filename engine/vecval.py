"""Complete ground evaluation of a VC whose truth depends only on the residue r = var mod P: the quotient has been
eliminated by norm.Norm, so evaluating the formula at every r in [0,P) decides it for all values of var."""
import numpy as np, z3


class NotGround(Exception):
    pass


def evaluate(es, env, n, fns=None):
    """numpy values (int64 / bool) of the expressions es under env: name -> array"""
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo: return memo[k]
        r = ev(e); memo[k] = r
        return r

    def ev(e):
        if z3.is_int_value(e): return np.int64(e.as_long())
        if z3.is_true(e): return np.bool_(True)
        if z3.is_false(e): return np.bool_(False)
        if not z3.is_app(e): raise NotGround(str(e)[:60])
        d = e.decl().kind()
        if d == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0 and e.decl().name() in env: return env[e.decl().name()]
            if fns and e.num_args() == 1 and e.decl().name() in fns: return fns[e.decl().name()](go(e.arg(0)))
            raise NotGround(str(e)[:60])
        if d == z3.Z3_OP_ITE: 
            c = go(e.arg(0))
            if c.ndim == 0: return go(e.arg(1)) if c else go(e.arg(2))
            return np.where(c, go(e.arg(1)), go(e.arg(2)))
        c = [go(x) for x in e.children()]
        if d == z3.Z3_OP_ADD: 
            r = c[0]
            for x in c[1:]: r = r + x
            return r
        if d == z3.Z3_OP_SUB:
            r = c[0]
            for x in c[1:]: r = r - x
            return r
        if d == z3.Z3_OP_MUL:
            r = c[0]
            for x in c[1:]: r = r * x
            return r
        if d == z3.Z3_OP_UMINUS: return -c[0]
        if d == z3.Z3_OP_IDIV:
            if np.any(c[1] <= 0): raise NotGround("div")
            return c[0] // c[1]
        if d == z3.Z3_OP_MOD:
            if np.any(c[1] <= 0): raise NotGround("mod")
            return c[0] % c[1]
        if d == z3.Z3_OP_LE: return c[0] <= c[1]
        if d == z3.Z3_OP_LT: return c[0] < c[1]
        if d == z3.Z3_OP_GE: return c[0] >= c[1]
        if d == z3.Z3_OP_GT: return c[0] > c[1]
        if d == z3.Z3_OP_EQ: return c[0] == c[1]
        if d == z3.Z3_OP_DISTINCT and len(c) == 2: return c[0] != c[1]
        if d == z3.Z3_OP_NOT: return np.logical_not(c[0])
        if d == z3.Z3_OP_AND:
            r = c[0]
            for x in c[1:]: r = np.logical_and(r, x)
            return r
        if d == z3.Z3_OP_OR:
            r = c[0]
            for x in c[1:]: r = np.logical_or(r, x)
            return r
        if d == z3.Z3_OP_XOR: return np.logical_xor(c[0], c[1])
        if d == z3.Z3_OP_IMPLIES: return np.logical_or(np.logical_not(c[0]), c[1])
        raise NotGround(str(e.decl()))
    return [go(e) for e in es]


def symbols(e, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
        else: out.add("?")
    return out


def decide(hyps, goal, rname, P, chunk=1 << 15, start=0, fns=None):
    """None if hyps -> goal for every residue, else a failing residue"""
    for a in range(start, P, chunk):
        r = np.arange(a, min(a + chunk, P), dtype=np.int64)
        vs = evaluate(hyps + [goal], {rname: r}, len(r), fns)
        ok = vs[-1]
        for h in vs[:-1]: ok = np.logical_or(ok, np.logical_not(h))
        ok = np.broadcast_to(ok, r.shape)
        if not ok.all(): return int(r[np.argmin(ok)])
    return None


def decide_product(hyps, goal, doms, fns=None, chunk=1 << 15):
    """complete enumeration of a finite product domain doms = [(name, lo, hi)]; None or a failing assignment"""
    n = 1
    for _, lo, hi in doms: n *= hi - lo + 1
    for a in range(0, n, chunk):
        idx = np.arange(a, min(a + chunk, n), dtype=np.int64)
        env = {}; rest = idx
        for nm, lo, hi in doms:
            k = hi - lo + 1
            env[nm] = rest % k + lo; rest = rest // k
        vs = evaluate(hyps + [goal], env, len(idx), fns)
        ok = vs[-1]
        for h in vs[:-1]: ok = np.logical_or(ok, np.logical_not(h))
        ok = np.broadcast_to(ok, idx.shape)
        if not ok.all():
            j = int(np.argmin(ok))
            return {nm: int(env[nm][j]) for nm, _, _ in doms}
    return None
