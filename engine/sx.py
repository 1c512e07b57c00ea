"""Verification-condition generator over LLVM IR (see ir.py).

Symbolic execution with state merging: one guarded state per program point, so
that a function is turned into one formula (a weakest-precondition style VC)
rather than into a set of sampled paths.  Loops are unrolled until the solver
*proves* the back edge infeasible (an unwinding obligation), so a result is for
all inputs satisfying the stated precondition; if that does not happen within
the stated limit, BoundExceeded is raised and the check reports the function as
bounded / undecided -- never as proved.

Integers are mathematical integers kept in the canonical signed range of their
width; every place where C arithmetic could leave that range produces an
obligation (signed: overflow is undefined) or an explicit wrap (unsigned)."""
import itertools, re, os, time
import z3
from ir import *

z3.set_param("model.completion", True)


SCALE = [1.0]        # time scale of solver limits (a second attempt on undecided units runs with a larger one)


class BoundExceeded(Exception):
    pass


class Undecided(Exception):
    pass


class Undef:
    def __repr__(s): return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(s, obj, off=0):
        s.obj = obj; s.off = off

    def __repr__(s): return "&%s+%s" % (s.obj, s.off)


NULL = Ptr(None, 0)


class FnPtr:
    def __init__(s, name): s.name = name


class PSet:
    """guarded set of pointers: [(cond, Ptr)], conditions exhaustive and exclusive under the pc"""
    def __init__(s, alts): s.alts = alts


class Obj:
    __slots__ = ("size", "cells", "owner", "const", "name", "zero", "align0", "gen", "arr", "arr0", "hook", "slen")

    def __init__(s, name, size, cells=None, const=False, zero=False):
        s.arr = s.arr0 = s.hook = s.slen = None      # bytes as an SMT array (object of symbolic size), facts about its initial contents
        s.gen = None      # contents given by a function of the offset (read-only data of symbolic size)
        s.name = name; s.size = size; s.cells = cells if cells is not None else {}
        s.owner = None; s.const = const; s.zero = zero

    def clone(s, owner):
        o = Obj(s.name, s.size, dict(s.cells), s.const, s.zero)
        o.owner = owner; o.gen = s.gen; o.arr = s.arr; o.arr0 = s.arr0; o.hook = s.hook; o.slen = s.slen
        return o


_ids = itertools.count(1)


class State:
    __slots__ = ("pc", "mem", "env", "id", "dead")

    def __init__(s, pc=(), mem=None, env=None):
        s.pc = pc; s.mem = mem if mem is not None else {}; s.env = env if env is not None else {}
        s.id = next(_ids); s.dead = False

    def fork(s, cond=None):
        t = State(s.pc if cond is None or cond is True else s.pc + (cond,), dict(s.mem), dict(s.env))
        s.id = next(_ids)
        return t

    def also(s, c): return s if c is True else State(s.pc + (c,), s.mem, s.env)

    def obj_w(s, oid):
        o = s.mem[oid]
        if o.owner != s.id:
            o = s.mem[oid] = o.clone(s.id)
        return o


def is_true(x): return x is True or (z3.is_expr(x) and z3.is_true(x))
def is_false(x): return x is False or (z3.is_expr(x) and z3.is_false(x))


def bnot(a):
    if a is True: return False
    if a is False: return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if is_false(x): return False
        if is_true(x): continue
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if is_true(x): return True
        if is_false(x): continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bimp(a, b): return bor(bnot(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def is_sym(x):
    return z3.is_expr(x)


def ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a is b: return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return c if a else bnot(c)
        if isinstance(a, bool): return bor(c, b) if a else band(bnot(c), b)
        if isinstance(b, bool): return bor(bnot(c), a) if b else band(c, a)
        if a.eq(b): return a
        return z3.If(c, a, b)
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
    elif z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return z3.If(zb(c), zi(a), zi(b))


class Obligation:
    __slots__ = ("name", "where", "hyp", "goal", "kind", "status", "backend", "time", "model", "tags")

    def __init__(s, name, where, hyp, goal, kind):
        s.name = name; s.where = where; s.hyp = hyp; s.goal = goal; s.kind = kind
        s.status = None; s.backend = None; s.time = 0; s.model = None; s.tags = None


def smin(w): return -(1 << (w - 1))
def smax(w): return (1 << (w - 1)) - 1


def canon(v, w):
    if w == 1: return bool(v & 1)
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


class Loop:
    def __init__(s, header): s.header = header; s.blocks = {header}; s.parent = None; s.order = None; s.kids = []


def analyse(fn):
    """natural loops + topological order per region, cached on the function"""
    if hasattr(fn, "_top"): return fn._top
    succ = {}
    for b, ins in fn.blocks.items():
        t = ins[-1]
        if t.op == "br": ss = list(t.a[1:]) if t.a[0] is not None else [t.a[1]]
        elif t.op == "switch": ss = [t.a[1]] + [c[1] for c in t.a[2]]
        else: ss = []
        succ[b] = list(dict.fromkeys(ss))
    entry = fn.entry
    # RPO + dominators
    seen = set(); post = []
    stack = [(entry, iter(succ[entry]))]; seen.add(entry)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x); stack.append((x, iter(succ[x]))); break
        else:
            post.append(b); stack.pop()
    rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for x in succ[b]: preds[x].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while num[a] > num[c]: a = idom[a]
                    while num[c] > num[a]: c = idom[c]
                n = a
            if idom.get(b) != n: idom[b] = n; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for x in succ[b]:
            if num[x] <= num[b]:
                if not dom(x, b): raise Unsupported("irreducible loop in " + fn.name)
                L = loops.setdefault(x, Loop(x))
                work = [b]
                while work:
                    y = work.pop()
                    if y not in L.blocks:
                        L.blocks.add(y); work.extend(preds[y])
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    top = Loop(None); top.blocks = set(rpo)
    for i, l in enumerate(ls):
        l.parent = next((m for m in ls[i + 1:] if l.header in m.blocks and m is not l), top)
        l.parent.kids.append(l)

    def order(reg):
        kid = {}
        for k in reg.kids:
            for b in k.blocks: kid[b] = k
        # topological order of condensed nodes: RPO order restricted is NOT enough when loop bodies
        # interleave with exits, so do a DFS over the condensed graph
        nodes = []
        for b in rpo:
            if b in reg.blocks:
                n = kid.get(b, b)
                if n not in nodes: nodes.append(n)
        adj = {id(n) if isinstance(n, Loop) else n: [] for n in nodes}
        key = lambda n: id(n) if isinstance(n, Loop) else n
        for n in nodes:
            bs = n.blocks if isinstance(n, Loop) else [n]
            for b in bs:
                for x in succ[b]:
                    if x in reg.blocks and x != reg.header:
                        m = kid.get(x, x)
                        if m is not n: adj[key(n)].append(m)
        vis = set(); out = []

        def dfs(n):
            st = [(n, iter(adj[key(n)]))]; vis.add(key(n))
            while st:
                m, it = st[-1]
                for x in it:
                    if key(x) not in vis:
                        vis.add(key(x)); st.append((x, iter(adj[key(x)]))); break
                else:
                    out.append(m); st.pop()
        h = reg.header if reg.header is not None else entry
        dfs(kid.get(h, h))
        reg.order = out[::-1]
        for k in reg.kids: order(k)
    order(top)
    fn._top = top; fn._loops = loops; fn._succ = succ
    return top


class Executor:
    def __init__(ex, prog, fdom=None, loop_limit=200, prune=True, solver_ms=3000):
        ex.prog = prog                 # Program (link.py)
        ex.obls = []
        ex.rng = {}                    # ast id -> (lo, hi, term)
        ex.axioms = []                 # global facts about fresh symbols
        ex.contracts = {}              # base name -> handler(ex, st, args, inst, fr) -> value
        ex.loop_limit = loop_limit
        ex.prune = prune
        ex.solver_ms = solver_ms
        ex.branch_ms = 300
        ex.auto = 0                    # obligations closed by the interval domain alone
        ex.fdom = fdom
        ex.fresh_n = itertools.count()
        ex.globals_init = {}
        ex.stack = []
        ex.feas_cache = {}
        ex.stats = {"feas": 0, "steps": 0, "inlined": {}, "contract_calls": {}, "lib_calls": {}, "unroll": {}}
        ex.max_unroll = {}
        ex.check_overflow = True
        ex.inputs = {}
        ex.exits = []                  # states that called exit()/abort (noreturn), with reason
        ex.forbid_exit = True
        ex.deadline = None
        ex.table_fn = {}
        ex.keep = []
        ex.no_inline = set()
        ex.overrides = {}
        ex.uninit_is_error = False
        ex.inv = None                  # loop-invariant provider (loopinv.py); otherwise loops are unrolled completely

    # ------------------------------------------------------------ fresh symbols / ranges
    def fresh(ex, name, w=64, lo=None, hi=None):
        v = z3.Int("%s!%d" % (name, next(ex.fresh_n)))
        if lo is None: lo = smin(w)
        if hi is None: hi = smax(w)
        ex.axioms.append(z3.And(v >= lo, v <= hi))
        ex.setr(v, lo, hi)
        return v

    def input_int(ex, name, w=64, lo=None, hi=None):
        v = z3.Int(name)
        if lo is None: lo = smin(w)
        if hi is None: hi = smax(w)
        ex.axioms.append(z3.And(v >= lo, v <= hi))
        ex.setr(v, lo, hi)
        ex.inputs[name] = v
        return v

    def setr(ex, t, lo, hi):
        ex.rng[t.get_id()] = (lo, hi, t)

    def r(ex, t, w=64):
        if isinstance(t, bool): return (int(t), int(t))
        if isinstance(t, int): return (t, t)
        x = ex.rng.get(t.get_id())
        if x is not None: return (x[0], x[1])
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a = ex.r(ex.unz(t.arg(1)), w); b = ex.r(ex.unz(t.arg(2)), w)
            x = (min(a[0], b[0]), max(a[1], b[1]))
            ex.setr(t, *x)
            return x
        if z3.is_int_value(t):
            v = t.as_long()
            return (v, v)
        return (smin(w), smax(w))

    def unz(ex, t):
        if z3.is_expr(t) and z3.is_int_value(t): return t.as_long()
        return t

    # ------------------------------------------------------------ obligations & feasibility
    def where(ex, inst=None, fr=None):
        if fr is None and ex.stack: fr = ex.stack[-1]
        f = fr.fn if fr else None
        ln = inst.dbg if inst is not None else None
        return "%s:%s (%s)" % (os.path.basename(f.mod.src) if f else "?", ln, f.base if f else "?")

    def oblige(ex, st, goal, name, inst=None, kind="safety", where=None):
        if is_true(goal):
            o = Obligation(name, where or ex.where(inst), (), True, kind)
            o.status = "ok"; o.backend = "interval/simplifier"
            ex.obls.append(o)
            return
        if where is None: where = ex.where(inst)
        ex.obls.append(Obligation(name, where, st.pc, goal, kind))
        # assert-then-assume
        st.pc = st.pc + (zb(goal),)

    def mk_solver(ex, ms=None):
        s = z3.Solver()
        s.set("timeout", int((ms or ex.solver_ms) * SCALE[0]))
        for a in ex.axioms: s.add(a)
        return s

    def feasible(ex, pc, ms=None):
        if any(is_false(c) for c in pc): return False
        key = tuple(c.get_id() if z3.is_expr(c) else c for c in pc)
        x = ex.feas_cache.get(key)
        if x is not None and (x[2] or not ms): return x[0]
        if ex.deadline and time.time() > ex.deadline: raise Undecided("time limit in VC generation")
        if hasattr(ex.fdom, "lin_solver"): s = ex.fdom.lin_solver(ex, pc, ms or ex.branch_ms)
        else:
            s = ex.mk_solver(ms or ex.branch_ms)
            for c in pc: s.add(zb(c))
        ex.stats["feas"] += 1
        r = s.check()
        res = r != z3.unsat
        ex.feas_cache[key] = (res, pc, r != z3.unknown or bool(ms))
        return res

    def proves(ex, st, cond):
        if is_true(cond): return True
        if is_false(cond): return not ex.feasible(st.pc)
        return not ex.feasible(st.pc + (zb(bnot(cond)),))

    # ------------------------------------------------------------ integer ops
    def mapite(ex, t, f, limit=1200):
        """apply f to the integer leaves of an ite tree with constant leaves; None if not such a tree"""
        memo = {}
        cnt = [0]

        def go(x):
            if z3.is_int_value(x): return f(x.as_long())
            k = x.get_id()
            if k in memo: return memo[k]
            if not z3.is_app_of(x, z3.Z3_OP_ITE): raise KeyError
            cnt[0] += 1
            if cnt[0] > limit: raise KeyError
            r = ite(x.arg(0), go(x.arg(1)), go(x.arg(2)))
            memo[k] = r
            return r
        if not (z3.is_expr(t) and z3.is_app_of(t, z3.Z3_OP_ITE)): return None
        try:
            return go(t)
        except (KeyError, RecursionError):
            return None

    def wrap(ex, st, t, lo, hi, w, inst=None):
        """t has true value range [lo,hi]; bring to canonical signed range of width w (modular)"""
        if isinstance(t, int): return canon(t, w)
        if lo >= smin(w) and hi <= smax(w):
            ex.setr(t, lo, hi); return t
        if st is not None and ex.proves(st, z3.And(t >= smin(w), t <= smax(w))):
            ex.setr(t, max(lo, smin(w)), min(hi, smax(w))); return t
        M = 1 << w
        r = (t + (M >> 1)) % M - (M >> 1)
        ex.setr(r, smin(w), smax(w))
        return r

    def unsigned(ex, t, w):
        """value as unsigned integer"""
        if isinstance(t, bool): return int(t)
        if isinstance(t, int): return t & ((1 << w) - 1)
        lo, hi = ex.r(t, w)
        if lo >= 0: return t
        m = ex.mapite(t, lambda v: v & ((1 << w) - 1))
        if m is not None: return m
        r = z3.If(t < 0, t + (1 << w), t)
        ex.setr(r, 0, (1 << w) - 1)
        return r

    def add_terms(ex, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        if isinstance(a, int):
            if a == 0: return b
            a, b = b, a
        if isinstance(b, int):
            if b == 0: return a
            # fold (x + c1) + c2
            if z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
                c = a.arg(1).as_long() + b
                return a.arg(0) + c if c else a.arg(0)
            return a + b
        return a + b

    def binop(ex, st, op, flags, a, b, w, inst):
        if a is UNDEF or b is UNDEF:
            return ex.fresh("undef", w) if w > 1 else z3.Bool("undef!%d" % next(ex.fresh_n))
        if w == 1:
            if op == "and": return band(a, b)
            if op == "or": return bor(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if isinstance(b, bool): return bnot(a) if b else a
                if isinstance(a, bool): return bnot(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, (Ptr, PSet)) or isinstance(b, (Ptr, PSet)):
            return ex.ptr_int_op(st, op, a, b, inst)
        ca, cb = isinstance(a, int), isinstance(b, int)
        if op in ("add", "sub", "mul"):
            if ca and cb:
                v = a + b if op == "add" else a - b if op == "sub" else a * b
                if "nsw" in flags and ex.check_overflow and not (smin(w) <= v <= smax(w)):
                    ex.oblige(st, False, "no signed overflow in " + op, inst)
                return canon(v, w)
            if cb or ca:
                t, c = (a, b) if cb else (b, a)
                f = (lambda v: v + c) if op == "add" else (lambda v: v * c) if op == "mul" else \
                    ((lambda v: v - c) if cb else (lambda v: c - v))
                if "nsw" in flags or True:
                    m = ex.mapite(t, f, 40)
                    if m is not None and (isinstance(m, int) or True):
                        lo, hi = ex.r(m, 128)
                        if lo >= smin(w) and hi <= smax(w): return m
            la, ha = ex.r(a, w); lb, hb = ex.r(b, w)
            if op == "add": t = ex.add_terms(a, b); lo, hi = la + lb, ha + hb
            elif op == "sub":
                t = ex.add_terms(a, -b) if cb else zi(a) - b; lo, hi = la - hb, ha - lb
                if not ca and not cb and a.eq(b): return 0
            else:
                if (ca and a == 0) or (cb and b == 0): return 0
                if ca and a == 1: return b
                if cb and b == 1: return a
                t = zi(a) * zi(b)
                c4 = (la * lb, la * hb, ha * lb, ha * hb); lo, hi = min(c4), max(c4)
            if "nsw" in flags:
                if lo < smin(w) or hi > smax(w):
                    if ex.check_overflow:
                        ex.oblige(st, z3.And(t >= smin(w), t <= smax(w)), "no signed overflow in " + op, inst)
                    lo, hi = max(lo, smin(w)), min(hi, smax(w))
                else: ex.auto += 1
                if z3.is_expr(t): ex.setr(t, lo, hi)
                return t
            return ex.wrap(st, t, lo, hi, w, inst)
        if op in ("sdiv", "srem"):
            if cb and b == 0 or not cb:
                ex.oblige(st, zi(b) != 0 if not cb else False, "divisor not zero", inst)
            if ca and cb:
                if b == 0: return 0
                q = tdiv(a, b)
                return canon(q, w) if op == "sdiv" else a - b * q
            if cb:
                m = ex.mapite(a, (lambda v: tdiv(v, b)) if op == "sdiv" else (lambda v: v - b * tdiv(v, b)))
                if m is not None: return m
            la, ha = ex.r(a, w)
            if cb and b > 0 or (not cb and ex.r(b, w)[0] > 0):
                lb, hb = ex.r(b, w)
                if la < 0 and ex.proves(st, zi(a) >= 0): la = 0
                if la >= 0: q = zi(a) / b; qlo, qhi = la // hb, ha // lb
                elif ha <= 0:
                    q = -((-zi(a)) / b); qlo, qhi = -((-la) // lb), 0
                else:
                    q = z3.If(a >= 0, a / b, -((-a) / b)); qlo, qhi = -((-la) // lb), ha // lb
                if op == "sdiv":
                    ex.setr(q, qlo, qhi); return q
                if la >= 0 and cb and la // b == ha // b:
                    r = ex.add_terms(a, -(la // b) * b)
                    if not isinstance(r, int): ex.setr(r, la % b, ha % b)
                    return r
                if la >= 0: r = zi(a) % b
                elif ha <= 0: r = -((-zi(a)) % b)
                else: r = z3.If(a >= 0, a % b, -((-a) % b))
                ex.setr(r, 0 if la >= 0 else max(la, -(hb - 1)), 0 if ha <= 0 else min(ha, hb - 1))
                return r
            za, zbv = zi(a), zi(b)
            ex.oblige(st, z3.Not(z3.And(za == smin(w), zbv == -1)), "no signed overflow in " + op, inst)
            qa = z3.If(za >= 0, za, -za); qb = z3.If(zbv >= 0, zbv, -zbv)
            q = z3.If((za >= 0) == (zbv >= 0), qa / qb, -(qa / qb))
            if op == "sdiv":
                ex.setr(q, smin(w), smax(w)); return q
            r = za - zbv * q
            ex.setr(r, smin(w), smax(w)); return r
        if op in ("udiv", "urem"):
            ua, ub = ex.unsigned(a, w), ex.unsigned(b, w)
            if isinstance(ub, int):
                if ub == 0: ex.oblige(st, False, "divisor not zero", inst); return 0
            else: ex.oblige(st, ub != 0, "divisor not zero", inst)
            if isinstance(ua, int) and isinstance(ub, int):
                return canon(ua // ub if op == "udiv" else ua % ub, w)
            if isinstance(ub, int):
                m = ex.mapite(ua, lambda v: canon(v // ub if op == "udiv" else v % ub, w))
                if m is not None: return m
            la, ha = ex.r(ua, w + 1); lb, hb = ex.r(ub, w + 1)
            la = max(la, 0); lb = max(lb, 1)
            t = zi(ua) / ub if op == "udiv" else zi(ua) % ub
            if op == "udiv": return ex.wrap(st, t, la // hb, ha // lb, w, inst)
            return ex.wrap(st, t, 0, min(ha, hb - 1), w, inst)
        if op == "shl":
            if not cb:
                lo, hi = ex.r(b, w)
                if hi - lo > 64: lo, hi = 0, w - 1
                ex.oblige(st, z3.And(b >= 0, b < w), "shift amount in range", inst)
                r = None
                for k in range(max(lo, 0), min(hi, w - 1) + 1):
                    v = ex.binop(st, "shl", flags, a, k, w, inst)
                    r = v if r is None else ite(b == k, v, r)
                return r
            if not 0 <= b < w:
                ex.oblige(st, False, "shift amount in range", inst); return 0
            return ex.binop(st, "mul", flags, a, 1 << b, w, inst) if not ca else canon(a << b, w)
        if op in ("lshr", "ashr"):
            if not cb:
                lo, hi = ex.r(b, w)
                if hi - lo > 64: lo, hi = 0, w - 1
                ex.oblige(st, z3.And(b >= 0, b < w), "shift amount in range", inst)
                r = None
                for k in range(max(lo, 0), min(hi, w - 1) + 1):
                    v = ex.binop(st, op, flags, a, k, w, inst)
                    r = v if r is None else ite(b == k, v, r)
                return r
            if not 0 <= b < w:
                ex.oblige(st, False, "shift amount in range", inst); return 0
            if op == "lshr": a = ex.unsigned(a, w)
            if isinstance(a, int): return canon(a >> b, w)
            m = ex.mapite(a, lambda v: canon(v >> b, w))
            if m is not None: return m
            la, ha = ex.r(a, w + 1)
            t = a / (1 << b) if b else a
            return ex.wrap(st, t, la >> b, ha >> b, w, inst)
        if op in ("and", "or", "xor"):
            if ca and cb:
                return canon((a & b) if op == "and" else (a | b) if op == "or" else (a ^ b), w)
            if ca: a, b = b, a; ca, cb = cb, ca
            if cb:
                pf = (lambda v: v & b) if op == "and" else (lambda v: v | b) if op == "or" else (lambda v: v ^ b)
                m = ex.mapite(a, pf)
                if m is not None: return m
                if op == "xor" and b == -1:
                    la, ha = ex.r(a, w)
                    t = -1 - a; ex.setr(t, -1 - ha, -1 - la); return t
                if b >= 0: an = ex.and_mask(a, b, w)
                else:
                    an0 = ex.and_mask(a, ~b, w)
                    an = a - an0 if not (isinstance(an0, int) and an0 == 0) else a
                    la, ha = ex.r(a, w); l2, h2 = ex.r(an0, w)
                    if z3.is_expr(an) and an is not a: ex.setr(an, max(la - h2, smin(w)), ha)
                if op == "and": return an
                ra = ex.r(a, w)
                if op == "or":
                    if isinstance(an, int): t = a + (b - an)
                    else: t = a + (b - an)
                else:
                    t = a + b - 2 * zi(an)
                if ra[0] >= 0 and b >= 0:
                    top = (1 << max(ra[1].bit_length(), b.bit_length())) - 1
                    ex.setr(t, b if op == "or" else 0, top)
                else: ex.setr(t, smin(w), smax(w))
                return t
            la, ha = ex.r(a, w); lb, hb = ex.r(b, w)
            # disjoint-bits 'or' of shifted fields: a multiple of 2^k, b < 2^k
            if la >= 0 and lb >= 0:
                if max(ha, hb) <= 1:
                    if op == "and": r = z3.If(z3.And(a == 1, b == 1), 1, 0)
                    elif op == "or": r = z3.If(z3.Or(a == 1, b == 1), 1, 0)
                    else: r = z3.If(a != b, z3.IntVal(1), z3.IntVal(0))
                    ex.setr(r, 0, 1); return r
                for x, y, hy in ((a, b, hb), (b, a, ha)):
                    k = hy.bit_length()
                    if ex.proves(st, x % (1 << k) == 0):
                        if op == "and": return 0
                        t = x + y; ex.setr(t, 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1); return t
                n = max(ha.bit_length(), hb.bit_length())
                if n <= 32:
                    bits = []
                    for k in range(n):
                        ba = (a / (1 << k)) % 2; bb = (b / (1 << k)) % 2
                        if op == "and": c = z3.And(ba == 1, bb == 1)
                        elif op == "or": c = z3.Or(ba == 1, bb == 1)
                        else: c = ba != bb
                        bits.append(z3.If(c, z3.IntVal(1 << k), z3.IntVal(0)))
                    t = z3.Sum(bits); ex.setr(t, 0, (1 << n) - 1); return t
            raise Unsupported("bitwise %s of symbolic values" % op)
        raise Unsupported(op)

    def and_mask(ex, a, c, w):
        if c == 0: return 0
        la, ha = ex.r(a, w)
        if la >= 0 and (c & (c + 1)) == 0 and ha <= c: return a
        parts = []; k = 0; lo = hi = 0
        while c >> k:
            if (c >> k) & 1:
                j = k
                while (c >> j) & 1: j += 1
                if la >= 0 and (ha >> k) == 0: break
                x = a / (1 << k) if k else a
                x = x % (1 << (j - k))
                parts.append(x * (1 << k) if k else x)
                k = j
            else: k += 1
        if not parts: return 0
        t = parts[0] if len(parts) == 1 else z3.Sum(parts)
        ex.setr(t, 0, c if la < 0 else min(c, ha))
        return t

    def icmp(ex, st, pred, a, b, w, inst):
        if a is UNDEF or b is UNDEF: return z3.Bool("undef!%d" % next(ex.fresh_n))
        if isinstance(a, (Ptr, PSet, FnPtr)) or isinstance(b, (Ptr, PSet, FnPtr)):
            return ex.pcmp(st, pred, a, b, inst)
        if w == 1:
            if pred in ("eq", "ne"):
                e = ex.binop(st, "xor", (), a, b, 1, inst)
                return e if pred == "ne" else bnot(e)
            ia = ite(a, 1, 0); ib = ite(b, 1, 0)
            p = pred[1:] if pred[0] == "u" else {"slt": "gt", "sgt": "lt", "sle": "ge", "sge": "le"}[pred]
            return ex.icmp(st, "s" + p, ia, ib, 8, inst)
        if pred[0] == "u" and pred not in ("eq", "ne"):
            a, b = ex.unsigned(a, w), ex.unsigned(b, w)
            la, ha = ex.r(a, w + 1) if not isinstance(a, int) else (a, a)
            lb, hb = ex.r(b, w + 1) if not isinstance(b, int) else (b, b)
            p = pred[1:]
        else:
            la, ha = ex.r(a, w); lb, hb = ex.r(b, w)
            p = pred[1:] if pred not in ("eq", "ne") else pred
        if isinstance(a, int) and isinstance(b, int):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        if p == "lt":
            if ha < lb: return True
            if la >= hb: return False
        elif p == "le":
            if ha <= lb: return True
            if la > hb: return False
        elif p == "gt":
            if la > hb: return True
            if ha <= lb: return False
        elif p == "ge":
            if la >= hb: return True
            if ha < lb: return False
        else:
            if ha < lb or la > hb: return p == "ne"
        if isinstance(b, int) or isinstance(a, int):
            t, c = (a, b) if isinstance(b, int) else (b, a)
            f = {"eq": lambda v: v == c, "ne": lambda v: v != c,
                 "lt": lambda v: v < c, "le": lambda v: v <= c, "gt": lambda v: v > c, "ge": lambda v: v >= c}[p] \
                if isinstance(b, int) else \
                {"eq": lambda v: v == c, "ne": lambda v: v != c,
                 "lt": lambda v: c < v, "le": lambda v: c <= v, "gt": lambda v: c > v, "ge": lambda v: c >= v}[p]
            m = ex.mapite(t, f)
            if m is not None: return m
        a = zi(a); b = zi(b)
        if a.eq(b): return p in ("eq", "le", "ge")
        if p == "eq": return a == b
        if p == "ne": return a != b
        if p == "lt": return a < b
        if p == "le": return a <= b
        if p == "gt": return a > b
        return a >= b

    def cast(ex, st, op, t1, t2, v, inst):
        if v is UNDEF:
            return UNDEF
        if op in ("sext",):
            if t1.w == 1: return ite(v, -1, 0)
            return v
        if op == "zext":
            if t1.w == 1:
                r = ite(v, 1, 0)
                if z3.is_expr(r): ex.setr(r, 0, 1)
                return r
            u = ex.unsigned(v, t1.w)
            return u
        if op == "trunc":
            if isinstance(v, (Ptr, PSet)): raise Unsupported("trunc of pointer")
            if t2.w == 1:
                if isinstance(v, int): return bool(v & 1)
                m = ex.mapite(v, lambda x: x & 1)
                if m is not None: return ex.icmp(st, "ne", m, 0, 32, inst)
                lo, hi = ex.r(v, t1.w)
                if lo >= 0 and hi <= 1: return v == 1
                return v % 2 == 1
            if isinstance(v, int): return canon(v, t2.w)
            m = ex.mapite(v, lambda x: canon(x, t2.w))
            if m is not None: return m
            lo, hi = ex.r(v, t1.w)
            return ex.wrap(st, v, lo, hi, t2.w, inst)
        if op == "ptrtoint": return v
        if op == "inttoptr":
            if isinstance(v, (Ptr, PSet)): return v
            if isinstance(v, int) and v == 0: return NULL
            raise Unsupported("inttoptr")
        if op == "bitcast":
            if t1.k == t2.k: return v
            raise Unsupported("bitcast %r %r" % (t1, t2))
        if op in ("fpext", "fptrunc"):
            return ex.fdom.convert(ex, st, op, t1, t2, v)
        if op in ("sitofp", "uitofp"):
            if op == "uitofp":
                v = int(v) if isinstance(v, bool) else ite(v, 1, 0) if z3.is_bool(v) else ex.unsigned(v, t1.w)
            elif isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): v = ite(v, -1, 0)
            if isinstance(v, int) and t2.w in (64, 80) and abs(v) <= 1 << 53: return float(v)
            return ex.fdom.from_int(ex, st, v, t2)
        if op in ("fptosi", "fptoui"):
            return ex.fdom.to_int(ex, st, v, t1, t2, op, inst)
        raise Unsupported(op)

    # ------------------------------------------------------------ pointers
    def palts(ex, p):
        if isinstance(p, Ptr): return [(True, p)]
        if isinstance(p, PSet): return p.alts
        if p is UNDEF: raise Unsupported("use of an undefined pointer")
        raise Unsupported("not a pointer: %r" % (p,))

    def pmerge(ex, c, a, b):
        if a is b: return a
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name: return a
            raise Unsupported("merge of function pointers")
        if a is UNDEF: return b
        if b is UNDEF: return a
        alts = {}
        order = []
        for g, p in [(band(c, g), p) for g, p in ex.palts(a)] + [(band(bnot(c), g), p) for g, p in ex.palts(b)]:
            if is_false(g): continue
            if p.obj in alts:
                g0, o0 = alts[p.obj]
                same = (isinstance(o0, int) and isinstance(p.off, int) and o0 == p.off) or \
                       (z3.is_expr(o0) and z3.is_expr(p.off) and o0.eq(p.off))
                if same: no = o0
                else:
                    no = ite(g, p.off, o0)
                    l0, h0 = ex.r(o0); l1, h1 = ex.r(p.off)
                    if z3.is_expr(no): ex.setr(no, min(l0, l1), max(h0, h1))
                alts[p.obj] = (bor(g0, g), no)
            else:
                alts[p.obj] = (g, p.off); order.append(p.obj)
        if len(order) == 1: return Ptr(order[0], alts[order[0]][1])
        return PSet([(alts[o][0], Ptr(o, alts[o][1])) for o in order])

    def padd(ex, st, p, d, inst=None):
        if isinstance(d, int) and d == 0: return p
        if isinstance(p, Ptr):
            off = ex.add_terms(p.off, d)
            if z3.is_expr(off):
                la, ha = ex.r(p.off); lb, hb = ex.r(d)
                ex.setr(off, la + lb, ha + hb)
            return Ptr(p.obj, off)
        return PSet([(g, ex.padd(st, q, d)) for g, q in ex.palts(p)])

    def ptr_int_op(ex, st, op, a, b, inst):
        if op == "sub":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    return ex.binop(st, "sub", ("nsw",), a.off, b.off, 64, inst)
                raise Unsupported("difference of pointers to different objects")
            r = None
            for g1, p in ex.palts(a):
                for g2, q in ex.palts(b):
                    g = band(g1, g2)
                    if is_false(g): continue
                    if p.obj != q.obj:
                        ex.oblige(st, bnot(g), "pointer difference within one object", inst); continue
                    v = ex.binop(st, "sub", ("nsw",), p.off, q.off, 64, inst)
                    r = v if r is None else ite(g, v, r)
            return r
        if op == "add" and isinstance(b, (int, z3.ExprRef)): return ex.padd(st, a, b, inst)
        raise Unsupported("pointer arithmetic " + op)

    def pcmp(ex, st, pred, a, b, inst):
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return same if pred == "eq" else not same
        res = []
        for g1, p in ex.palts(a):
            for g2, q in ex.palts(b):
                g = band(g1, g2)
                if is_false(g): continue
                if p.obj == q.obj:
                    pr = pred if pred in ("eq", "ne") else "s" + pred[1:]
                    v = ex.icmp(st, pr, p.off, q.off, 64, inst)
                elif pred in ("eq", "ne"): v = pred == "ne"
                else:
                    ex.oblige(st, bnot(g), "ordered comparison of pointers within one object", inst); continue
                res.append((g, v))
        if not res: return False
        r = res[-1][1]
        for g, v in reversed(res[:-1]): r = ite(g, v, r)
        return r

    # ------------------------------------------------------------ memory
    def new_obj(ex, st, name, size, cells=None, const=False, zero=False):
        oid = "%s#%d" % (name, next(ex.fresh_n))
        st.mem[oid] = Obj(name, size, cells, const, zero)
        return Ptr(oid, 0)

    def glob(ex, st, name, mod):
        """pointer to a global of module mod (internal names are module-qualified)"""
        m, n = ex.prog.find_global(name, mod)
        if m is None:
            if name in ("stderr", "stdout", "stdin"):
                oid = "@" + name
                if oid not in st.mem:
                    st.mem[oid] = Obj(name, 8, {0: (8, Ptr("@FILE_" + name, 0))})
                    st.mem["@FILE_" + name] = Obj("FILE", 8, {})
                return Ptr(oid, 0)
            raise Unsupported("external global " + name)
        oid = "@%s:%s" % (os.path.basename(m.src), name) if m.global_info(name)[3] else "@" + name
        if oid not in st.mem:
            o = ex.globals_init.get(oid)
            if o is None:
                ty, init, const, internal = m.global_info(name)
                if init is None: raise Unsupported("extern global without initialiser " + name)
                o = Obj(name, ty.size, {}, const, False)
                ex.globals_init[oid] = o
                ex.init_cells(st, o, 0, ty, init, m)
            st.mem[oid] = o
            for sz, v in o.cells.values():           # globals this one points to
                if isinstance(v, Ptr) and v.obj is not None and v.obj not in st.mem and v.obj in ex.globals_init:
                    ex.adopt(st, v.obj)
        return Ptr(oid, 0)

    def adopt(ex, st, oid):
        o = st.mem[oid] = ex.globals_init[oid]
        for sz, v in o.cells.values():
            if isinstance(v, Ptr) and v.obj is not None and v.obj not in st.mem and v.obj in ex.globals_init: ex.adopt(st, v.obj)

    def init_cells(ex, st, o, off, ty, v, m):
        k = v[0]
        if k == "zero" or k == "undef":
            if ty.k == "arr":
                if ty.size > 4096 and ty.el.k == "i":
                    for i in range(ty.n): o.cells[off + i * ty.el.size] = (ty.el.size, 0)
                else:
                    for i in range(ty.n): ex.init_cells(st, o, off + i * ty.el.size, ty.el, v, m)
            elif ty.k == "struct":
                for f, fo in zip(ty.fields, ty.offs): ex.init_cells(st, o, off + fo, f, v, m)
            else:
                o.cells[off] = (ty.size, 0 if ty.k == "i" else 0.0 if ty.k == "f" else NULL)
        elif k == "str":
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, canon(b, 8))
        elif k == "agg":
            if ty.k == "arr":
                for i, (t, x) in enumerate(v[1]): ex.init_cells(st, o, off + i * ty.el.size, t, x, m)
            else:
                for (t, x), fo in zip(v[1], ty.offs): ex.init_cells(st, o, off + fo, t, x, m)
        else:
            o.cells[off] = (ty.size, ex.const(st, v, ty, m))

    def const(ex, st, v, ty, m):
        k = v[0]
        if k == "int":
            return bool(v[1]) if ty.k == "i" and ty.w == 1 else canon(v[1], ty.w)
        if k == "flt": return v[1]
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "zero":
            if ty.k == "i": return 0 if ty.w > 1 else False
            if ty.k == "f": return 0.0
            if ty.k == "ptr": return NULL
            return [ex.const(st, v, t, m) for t in (ty.fields if ty.k == "struct" else [ty.el] * ty.n)]
        if k == "glob":
            if ex.prog.find_fn(v[1], m) is not None or v[1] in m.decls: return FnPtr(v[1])
            return ex.glob(st, v[1], m)
        if k == "gep":
            base = ex.const(st, v[2][1], v[2][0], m)
            return ex.gep(st, v[1], base, [(t, ex.const(st, x, t, m)) for t, x in v[3]])
        if k == "cast":
            return ex.cast(st, v[1], v[2], v[4], ex.const(st, v[3], v[2], m), None)
        if k == "cbin":
            return ex.binop(st, v[1], (), ex.const(st, v[3], v[2], m), ex.const(st, v[4], v[2], m), v[2].w, None)
        if k == "agg":
            return [ex.const(st, x, t, m) for t, x in v[1]]
        raise Unsupported("constant " + k)

    def gep(ex, st, bt, base, idx, inst=None):
        off = 0
        ty = None
        for i, (t, v) in enumerate(idx):
            if i == 0:
                sz = bt.size; ty = bt
            elif ty.k == "arr":
                sz = ty.el.size; ty = ty.el
            elif ty.k == "struct":
                off = ex.add_terms(off, ty.offs[v]); ty = ty.fields[v]; continue
            else: raise Unsupported("gep into %r" % ty)
            if v is UNDEF: raise Unsupported("undef index")
            if isinstance(v, int): off = ex.add_terms(off, v * sz)
            else:
                lo, hi = ex.r(v, t.w)
                m = ex.mapite(v, lambda x: x * sz) if sz != 1 else v
                x = m if m is not None else v * sz
                if z3.is_expr(x): ex.setr(x, lo * sz, hi * sz)
                l0, h0 = ex.r(off)
                off = ex.add_terms(off, x)
                if z3.is_expr(off): ex.setr(off, l0 + lo * sz, h0 + hi * sz)
        return ex.padd(st, base, off, inst)

    def bounds(ex, st, p, n, g, inst, what):
        """obligation: access of n bytes at p is inside its object (under guard g); False if surely null"""
        if p.obj is None:
            ex.oblige(st, bnot(g), "%s: pointer not null" % what, inst); return False
        o = st.mem[p.obj]
        lo, hi = ex.r(p.off)
        if isinstance(o.size, int) and lo >= 0 and hi + n <= o.size:
            ex.auto += 1
            return True
        cond = band(bnot(zi(p.off) < 0) if not isinstance(p.off, int) else p.off >= 0,
                    (zi(p.off) + n <= o.size) if not (isinstance(p.off, int) and isinstance(o.size, int)) else p.off + n <= o.size)
        ex.oblige(st, bimp(g, cond), "%s inside '%s' (%s bytes)" % (what, o.name, o.size), inst)
        if is_false(cond): return False
        return True

    def load(ex, st, p, ty, inst=None):
        res = []
        for g, q in ex.palts(p):
            if not ex.bounds(st, q, ty.size, g, inst, "read"): continue
            res.append((g, ex.load1(st, q, ty, inst)))
        if not res:
            st.dead = True
            return UNDEF
        v = res[-1][1]
        for g, x in reversed(res[:-1]): v = ex.merge_val(g, x, v)
        return v

    def defval(ex, o, ty, off):
        if o.zero: return 0 if ty.k == "i" else 0.0 if ty.k == "f" else NULL
        return UNDEF

    def load1(ex, st, p, ty, inst):
        o = st.mem[p.obj]
        if o.gen is not None: return o.gen(ex, st, p.off, ty)
        if o.arr is not None:
            if ty.size != 1: raise Unsupported("wide read of a byte array")
            return ex.arr_read(o, p.off)
        if isinstance(p.off, int): return ex.load_at(st, o, p.off, ty)
        lo, hi = ex.r(p.off)
        n = ty.size
        # rows with a RLE of constant cells
        if not isinstance(o.size, int): raise Unsupported("symbolic-size object")
        offs = [x for x in o.cells if max(lo, 0) <= x <= min(hi, o.size - n) and o.cells[x][0] == n]
        if not offs and ty.k == "i" and n == 1:
            offs = [x for x in range(max(lo, 0), min(hi, o.size - n) + 1)]
        if not offs: offs = [x for x in range(max(lo, 0), min(hi, o.size - n) + 1) if x % n == 0]
        offs.sort()
        if not offs: raise Unsupported("symbolic read of '%s' with no candidate" % o.name)
        step_ok = n == 1 or all((x - offs[0]) % n == 0 for x in offs)
        if n > 1:
            step = offs[1] - offs[0] if len(offs) > 1 else n
        if len(offs) > 4000:
            return ex.table_read(st, o, p, ty, offs)
        allset = set(offs)
        # bytes that belong to no cell of this size are covered by load_at below
        if n == 1:
            full = range(max(lo, 0), min(hi, o.size - 1) + 1)
            offs = list(full)
        vals = [ex.load_at(st, o, x, ty) for x in offs]
        # run-length compress equal concrete ints (ranges of offsets)
        runs = []
        for x, v in zip(offs, vals):
            if runs and not z3.is_expr(v) and not isinstance(v, (Ptr, PSet)) and type(runs[-1][2]) == type(v) and runs[-1][2] == v:
                runs[-1][1] = x
            else: runs.append([x, x, v])
        if n > 1 and len(offs) > 1:
            # alignment of the index must be exact for the reading to be meaningful
            pass
        v = runs[-1][2]
        for a, b, x in reversed(runs[:-1]):
            # offsets ascending: value x iff off <= b (given not matched by earlier runs)
            v = ex.merge_val(p.off <= b, x, v)
        if z3.is_expr(v) and z3.is_int(v):
            rs = [ex.r(x[2], ty.w) for x in runs if x[2] is not UNDEF]
            ex.setr(v, min(x[0] for x in rs), max(x[1] for x in rs))
        return v

    def table_read(ex, st, o, p, ty, offs):
        """big constant table: an uninterpreted function with its value range; the data lemma is discharged
        separately on the extracted table"""
        if not o.const: raise Unsupported("symbolic index into a large writable object")
        f = ex.table_fn.get(o.name)
        if f is None:
            f = ex.table_fn[o.name] = z3.Function("tbl_" + o.name, z3.IntSort(), z3.IntSort())
        t = f(p.off)
        vs = [o.cells[x][1] for x in offs]
        ex.setr(t, min(vs), max(vs))
        ex.axioms.append(z3.And(t >= min(vs), t <= max(vs)))
        return t

    def load_at(ex, st, o, off, ty):
        n = ty.size
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if ty.k == "f" and (isinstance(v, int) and not isinstance(v, bool)):
                return ex.bits_to_float(v, ty)
            if ty.k == "i" and isinstance(v, float):
                return ex.float_to_bits(v, n)
            if ty.k == "i" and ty.w == 1:
                if isinstance(v, (bool,)) or z3.is_bool(v): return v
                if isinstance(v, int): return bool(v & 1)
                return UNDEF if v is UNDEF else v != 0
            if ty.k == "ptr" and isinstance(v, int) and v == 0: return NULL
            return v
        # extract from a covering cell
        if c is None or c[0] > n:
            for x, (s, v) in ([(off, c)] if c is not None else
                              [(x, o.cells[x]) for x in range(off, max(off - 16, -1), -1) if x in o.cells]):
                if x <= off and off + n <= x + s:
                    if v is UNDEF: return UNDEF
                    if isinstance(v, float): v = ex.float_to_bits(v, s)
                    if isinstance(v, bool): v = int(v)
                    if isinstance(v, (Ptr, PSet, FnPtr)): raise Unsupported("partial read of a pointer")
                    if not isinstance(v, int) and not z3.is_int(v): raise Unsupported("partial read")
                    u = ex.unsigned(v, 8 * s)
                    if isinstance(u, int): return canon(u >> (8 * (off - x)), 8 * n)
                    t = (u / (1 << (8 * (off - x)))) % (1 << (8 * n))
                    return ex.wrap(None, t, 0, (1 << (8 * n)) - 1, 8 * n)
        # compose from smaller cells (little endian)
        parts = []; x = off; any_cell = False
        while x < off + n:
            c = o.cells.get(x)
            if c is None:
                if o.zero: parts.append((x - off, 1, 0)); x += 1; continue
                if any(x2 in o.cells and x2 + o.cells[x2][0] > x for x2 in range(max(0, x - 15), x)):
                    b = ex.load_at(st, o, x, INT(8)); parts.append((x - off, 1, b)); x += 1; any_cell = True; continue
                return UNDEF if not any_cell else UNDEF
            any_cell = True
            s, v = c
            if x + s > off + n: 
                b = ex.load_at(st, o, x, INT(8)); parts.append((x - off, 1, b)); x += 1; continue
            parts.append((x - off, s, v)); x += s
        if not any_cell: return ex.defval(o, ty, off)
        if ty.k == "ptr": raise Unsupported("pointer composed from bytes")
        if any(v is UNDEF for _, _, v in parts): return UNDEF
        t = 0
        for k, s, v in parts:
            if isinstance(v, float): v = ex.float_to_bits(v, s)
            if not isinstance(v, int) and not z3.is_expr(v): raise Unsupported("byte view of %r" % (v,))
            u = ex.unsigned(v, 8 * s)
            t = ex.add_terms(t, u * (1 << (8 * k)) if k else u)
        if isinstance(t, int):
            v = canon(t, 8 * n)
            return ex.bits_to_float(v, ty) if ty.k == "f" else v
        if ty.k == "f": raise Unsupported("float composed from symbolic bytes")
        return ex.wrap(None, t, 0, (1 << (8 * n)) - 1, 8 * n)

    def bits_to_float(ex, v, ty):
        import struct
        if ty.w == 64: return struct.unpack("<d", (v & (2 ** 64 - 1)).to_bytes(8, "little"))[0]
        if ty.w == 32: return struct.unpack("<f", (v & (2 ** 32 - 1)).to_bytes(4, "little"))[0]
        raise Unsupported("x87 bits")

    def float_to_bits(ex, v, n):
        import struct
        return canon(int.from_bytes(struct.pack("<d" if n == 8 else "<f", v), "little"), 8 * n)

    def store(ex, st, p, ty, v, inst=None):
        alts = ex.palts(p)
        for g, q in alts:
            if not ex.bounds(st, q, ty.size, g, inst, "write"): continue
            if st.mem[q.obj].const:
                ex.oblige(st, bnot(g), "no write to constant data", inst); continue
            ex.store1(st, q, ty.size, v, g, ty)

    def kill(ex, o, off, n):
        """split / drop cells overlapping [off, off+n) other than an exact one"""
        c = o.cells.get(off)
        if c is not None and c[0] == n: return
        for x in range(max(0, off - 15), off + n):
            c = o.cells.get(x)
            if c is None: continue
            s, v = c
            if x + s <= off or x >= off + n: continue
            # split into bytes when possible
            if isinstance(v, float): v = ex.float_to_bits(v, s)
            bs = []
            for i in range(s):
                if v is UNDEF or isinstance(v, (Ptr, PSet, FnPtr)) or (z3.is_expr(v) and not z3.is_int(v)): bs.append(None)
                else:
                    u = ex.unsigned(v, 8 * s)
                    if isinstance(u, int): bs.append(canon(u >> (8 * i), 8))
                    else:
                        bs.append(ex.wrap(None, (u / (1 << (8 * i))) % 256, 0, 255, 8))
            del o.cells[x]
            for i, b in enumerate(bs):
                if b is not None and not (off <= x + i < off + n): o.cells[x + i] = (1, b)

    def arr_read(ex, o, off, arr=None):
        t = z3.Select(o.arr if arr is None else arr, zi(off))
        if t.get_id() not in ex.rng:
            ex.setr(t, -128, 127); ex.axioms.append(z3.And(t >= -128, t <= 127))
            if o.hook is not None:
                for a in o.hook(zi(off)): ex.axioms.append(a)
        return t

    def store1(ex, st, p, n, v, g, ty=None):
        o = st.obj_w(p.obj)
        if o.arr is not None:
            if n != 1: raise Unsupported("wide write into a byte array")
            if v is UNDEF: v = ex.fresh("undef", 8)
            a = z3.Store(o.arr, zi(p.off), zi(v))
            o.arr = a if is_true(g) else z3.If(zb(g), a, o.arr)
            return
        if isinstance(p.off, int):
            if g is not True:
                old = ex.load_at(st, o, p.off, ty or INT(8 * n))
                v = ex.merge_val(g, v, old)
            ex.kill(o, p.off, n)
            o.cells[p.off] = (n, v)
            return
        lo, hi = ex.r(p.off)
        if not isinstance(o.size, int): raise Unsupported("symbolic-size object")
        cand = range(max(lo, 0), min(hi, o.size - n) + 1)
        if n > 1:
            base = [x for x in cand if x in o.cells and o.cells[x][0] == n]
            cand = base if base else [x for x in cand if x % n == 0]
        if len(cand) > 4000: raise Unsupported("symbolic write into a large object")
        for x in cand:
            old = ex.load_at(st, o, x, ty or INT(8 * n))
            nv = ex.merge_val(band(g, p.off == x), v, old)
            ex.kill(o, x, n)
            o.cells[x] = (n, nv)

    # ------------------------------------------------------------ merging
    def merge_val(ex, c, a, b):
        if a is b: return a
        if is_true(c): return a
        if is_false(c): return b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, (Ptr, PSet, FnPtr)) or isinstance(b, (Ptr, PSet, FnPtr)):
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            return ex.pmerge(c, a, b)
        if isinstance(a, list):
            return [ex.merge_val(c, x, y) for x, y in zip(a, b)]
        ta = isinstance(a, (bool, int)) or (z3.is_expr(a) and (z3.is_int(a) or z3.is_bool(a)))
        tb = isinstance(b, (bool, int)) or (z3.is_expr(b) and (z3.is_int(b) or z3.is_bool(b)))
        if ta and tb:
            isb = isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)) or (z3.is_expr(b) and z3.is_bool(b))
            if isb:
                if isinstance(a, int) and not isinstance(a, bool): a = bool(a)
                if isinstance(b, int) and not isinstance(b, bool): b = bool(b)
                if z3.is_expr(a) and z3.is_int(a): a = a != 0
                if z3.is_expr(b) and z3.is_int(b): b = b != 0
                return ite(c, a, b)
            r = ite(c, a, b)
            if z3.is_expr(r) and r.get_id() not in ex.rng:
                la, ha = ex.r(a); lb, hb = ex.r(b)
                ex.setr(r, min(la, lb), max(ha, hb))
            return r
        return ex.fdom.ite(ex, c, a, b)

    def merge2(ex, s, t):
        """merge t into s; returns state"""
        if not ex.can_merge(s, t): return None
        n = 0
        m = min(len(s.pc), len(t.pc))
        while n < m and (s.pc[n] is t.pc[n] or (z3.is_expr(s.pc[n]) and z3.is_expr(t.pc[n]) and s.pc[n].eq(t.pc[n]))): n += 1
        ra, rb = s.pc[n:], t.pc[n:]
        ca, cb = band(*ra), band(*rb)
        # selector
        sel = ca
        if len(ra) >= 1 and len(rb) >= 1:
            # branch literals usually differ on the first element: exclusive by construction
            x, y = ra[0], rb[0]
            if z3.is_expr(x) and z3.is_expr(y) and (bnot(x) is y or zb(bnot(x)).eq(y) or zb(bnot(y)).eq(x)): sel = x
        pre = s.pc[:n]
        if is_true(ca) or is_true(cb): disj = True
        else:
            if sel is not ca and len(ra) == 1 and len(rb) == 1: disj = True
            elif sel is not ca:
                disj = band(bimp(sel, band(*ra[1:])), bimp(bnot(sel), band(*rb[1:])))
            else: disj = bor(ca, cb)
        r = State(pre if is_true(disj) else pre + (disj,))
        # env
        se, te = s.env, t.env
        env = {}
        for k, v in se.items():
            w = te.get(k, ex)
            if w is ex: continue
            env[k] = v if v is w else ex.merge_val(sel, v, w)
        r.env = env
        mem = {}
        for k, o in s.mem.items():
            p = t.mem.get(k)
            if p is None: mem[k] = o
            elif p is o: mem[k] = o
            else: mem[k] = ex.merge_obj(sel, o, p)
        for k, p in t.mem.items():
            if k not in mem: mem[k] = p
        r.mem = mem
        return r

    def can_merge(ex, s, t): return True

    def merge_obj(ex, c, a, b):
        o = Obj(a.name, a.size, {}, a.const, a.zero); o.gen = a.gen; o.arr0 = a.arr0; o.hook = a.hook; o.slen = a.slen
        if a.arr is not None:
            o.arr = a.arr if a.arr is b.arr or a.arr.eq(b.arr) else z3.If(zb(c), a.arr, b.arr)
            return o
        if a.size is not b.size and not (isinstance(a.size, int) and a.size == b.size):
            o.size = ite(c, a.size, b.size)
        ca, cb = a.cells, b.cells
        for x, (s, v) in ca.items():
            d = cb.get(x)
            if d is None:
                # covered by other-size cells?
                w = ex.load_at_safe(b, x, s, v)
                if w is None: continue
                o.cells[x] = (s, v if w is UNDEF else ex.merge_val(c, v, w))
            elif d[0] == s:
                if v is d[1]: o.cells[x] = ca[x]
                else: o.cells[x] = (s, ex.merge_val(c, v, d[1]))
            elif d[0] > s:
                w = ex.load_at_safe(b, x, s, v)
                if w is not None: o.cells[x] = (s, ex.merge_val(c, v, w))
            else:
                # a has the larger cell: explode to b's granularity
                for y in range(x, x + s):
                    if y in cb and y + cb[y][0] <= x + s:
                        w = ex.load_at_safe(a, y, cb[y][0], cb[y][1])
                        if w is not None: o.cells[y] = (cb[y][0], ex.merge_val(c, w, cb[y][1]))
        for x, (s, v) in cb.items():
            if x in o.cells: continue
            covered = any(y in o.cells and y + o.cells[y][0] > x for y in range(max(0, x - 15), x))
            if covered: continue
            if x in ca: continue
            w = ex.load_at_safe(a, x, s, v)
            if w is None: continue
            o.cells[x] = (s, v if w is UNDEF else ex.merge_val(c, w, v))
        return o

    def load_at_safe(ex, o, x, s, like):
        ty = PTR if isinstance(like, (Ptr, PSet, FnPtr)) else INT(8 * s) if not ex.is_float(like) else DOUBLE if s == 8 else FLOAT if s == 4 else X80
        try:
            return ex.load_at(None, o, x, ty)
        except Unsupported:
            return None

    def is_float(ex, v):
        if isinstance(v, float): return True
        if v is UNDEF or isinstance(v, (int, bool, Ptr, PSet, FnPtr, list)): return False
        if z3.is_expr(v): return z3.is_real(v)
        return True

    def merge_states(ex, sts):
        sts = [s for s in sts if not s.dead]
        if not sts: return []
        while len(sts) > 1:
            nxt = []
            for i in range(0, len(sts) - 1, 2):
                nxt.append(ex.merge2(sts[i], sts[i + 1]))
            if len(sts) % 2: nxt.append(sts[-1])
            sts = nxt
        return sts

    # ------------------------------------------------------------ execution
    def val(ex, fr, st, v, ty):
        k = v[0]
        if k == "loc":
            try: return st.env[(fr.id, v[1])]
            except KeyError: raise Unsupported("undefined local %%%s in %s" % (v[1], fr.fn.name))
        return ex.const(st, v, ty, fr.fn.mod)

    def call_fn(ex, fn, args, st):
        """inline execution; returns (value, state) or (None, None) if no path returns"""
        if len(ex.stack) > 60: raise Unsupported("recursion too deep in " + fn.base)
        fr = Frame(fn)
        top = analyse(fn)
        ex.stack.append(fr)
        ex.stats["inlined"][fn.base] = ex.stats["inlined"].get(fn.base, 0) + 1
        for (ty, nm), v in zip(fn.params, args): st.env[(fr.id, nm)] = v
        fr.varargs = args[len(fn.params):]
        fr.rets = []
        out = {}
        ex.run_region(fr, top, [st], out)
        ex.stack.pop()
        rets = fr.rets
        if not rets: return None, None
        sts = []
        for v, s in rets:
            for k in [k for k in s.env if k[0] == fr.id]: del s.env[k]
            s.env[("ret", fr.id)] = v
            sts.append(s)
        m = ex.merge_states(sts)[0]
        v = m.env.pop(("ret", fr.id), None)
        for a in fr.allocas: m.mem.pop(a, None)
        return v, m

    def run_region(ex, fr, reg, entry_states, out):
        fn = fr.fn
        h = reg.header if reg.header is not None else fn.entry
        pending = {h: list(entry_states)}
        back = []
        for item in reg.order:
            if isinstance(item, Loop):
                sts = pending.pop(item.header, None)
                if not sts: continue
                o2 = {}
                ex.run_loop(fr, item, sts, o2)
                for succ, ss in o2.items():
                    if succ in reg.blocks:
                        if succ == reg.header: back.extend(ss)
                        else: pending.setdefault(succ, []).extend(ss)
                    else: out.setdefault(succ, []).extend(ss)
                continue
            sts = pending.pop(item, None)
            if not sts: continue
            ms = ex.merge_states(sts)
            if not ms: continue
            for st in ms:
                for succ, s2 in ex.run_block(fr, item, st):
                    if succ in reg.blocks:
                        if succ == reg.header: back.append(s2)
                        else: pending.setdefault(succ, []).append(s2)
                    else: out.setdefault(succ, []).append(s2)
        return back

    def run_loop(ex, fr, loop, sts, out):
        if ex.inv is not None and ex.inv.wants(ex, fr, loop):
            if hasattr(ex.inv, "run"): return ex.inv.run(ex, fr, loop, sts, out)
            import loopinv
            return loopinv.run(ex, fr, loop, sts, out)
        k = 0
        key = (fr.fn.base, loop.header)
        while True:
            sts = ex.merge_states(sts)
            if not sts: break
            if k > 0:
                sts = [s for s in sts if ex.feasible(s.pc) and ex.feasible(s.pc, ex.solver_ms)]
                if not sts: break
            lim = ex.max_unroll.get(fr.fn.base, ex.loop_limit)
            if k >= lim:
                raise BoundExceeded("loop at %s in %s still feasible after %d iterations" % (loop.header, fr.fn.base, k))
            sts = ex.run_region(fr, loop, sts, out)
            k += 1
        ex.stats["unroll"]["%s/%s" % key] = max(k, ex.stats["unroll"].get("%s/%s" % key, 0))

    def goto(ex, fr, pred, succ, st):
        # phi evaluation (simultaneous)
        upd = []
        for i in fr.fn.blocks[succ]:
            if i.op != "phi": break
            for v, p in i.a:
                if p == pred:
                    upd.append((i.res, ex.val(fr, st, v, i.ty))); break
            else: raise Unsupported("phi without edge")
        for r, v in upd: st.env[(fr.id, r)] = v
        return (succ, st)

    def run_block(ex, fr, b, st):
        for i in fr.fn.blocks[b]:
            ex.stats["steps"] += 1
            if ex.stats["steps"] & 1023 == 0 and ex.deadline and time.time() > ex.deadline:
                raise Undecided("time limit in VC generation")
            op = i.op
            if op == "phi": continue
            if op == "br":
                if i.a[0] is None: return [ex.goto(fr, b, i.a[1], st)]
                c = ex.val(fr, st, i.a[0], INT(1))
                if c is UNDEF: c = z3.Bool("undef!%d" % next(ex.fresh_n))
                if i.a[1] == i.a[2]: return [ex.goto(fr, b, i.a[1], st)]
                return ex.branch(fr, b, st, [(c, i.a[1]), (bnot(c), i.a[2])])
            if op == "switch":
                v = ex.val(fr, st, i.a[0], i.ty)
                alts = []; rest = True
                tgt = {}
                for cv, l in i.a[2]:
                    c = ex.icmp(st, "eq", v, canon(cv, i.ty.w), i.ty.w, i)
                    tgt.setdefault(l, []).append(c)
                    rest = band(rest, bnot(c))
                tgt.setdefault(i.a[1], []).append(rest)
                return ex.branch(fr, b, st, [(bor(*cs), l) for l, cs in tgt.items()])
            if op == "ret":
                v = None if i.a is None else ex.val(fr, st, i.a, i.ty)
                fr.rets.append((v, st)); return []
            if op == "unreachable":
                return []
            st2 = ex.step(fr, st, i)
            if st2 is None: return []
            st = st2
            if st.dead: return []
        raise Unsupported("block without terminator")

    def branch(ex, fr, b, st, alts):
        live = []
        for c, l in alts:
            if is_false(c): continue
            if is_true(c): return [ex.goto(fr, b, l, st)]
            live.append((c, l))
        if ex.prune:
            l2 = []
            for n, (c, l) in enumerate(live):
                if len(live) - n == 1 and not l2: l2.append((c, l)); continue
                known = ex.known(st, c)
                if known is False: continue
                if known is None and not ex.feasible(st.pc + (zb(c),)): continue
                l2.append((c, l))
            live = l2
        if len(live) == 1:
            # the other alternatives are infeasible under the pc
            c, l = live[0]
            return [ex.goto(fr, b, l, st)]
        res = []
        for c, l in live:
            s2 = st.fork(zb(c))
            res.append(ex.goto(fr, b, l, s2))
        return res

    def known(ex, st, c):
        k = c.get_id()
        nk = zb(bnot(c)).get_id()
        for p in st.pc:
            if z3.is_expr(p):
                i = p.get_id()
                if i == k: return True
                if i == nk: return False
        return None

    def step(ex, fr, st, i):
        op = i.op
        env = st.env; fid = fr.id
        if op == "bin":
            o, fl, a, b = i.a
            va, vb = ex.val(fr, st, a, i.ty), ex.val(fr, st, b, i.ty)
            if i.ty.k == "f": r = ex.fbin(st, o, va, vb, i.ty, i)
            else: r = ex.binop(st, o, fl, va, vb, i.ty.w, i)
            env[(fid, i.res)] = r
        elif op == "icmp":
            p, a, b = i.a
            env[(fid, i.res)] = ex.icmp(st, p, ex.val(fr, st, a, i.ty), ex.val(fr, st, b, i.ty), i.ty.w, i)
        elif op == "load":
            env[(fid, i.res)] = ex.load(st, ex.val(fr, st, i.a, PTR), i.ty, i)
        elif op == "store":
            ex.store(st, ex.val(fr, st, i.a[1], PTR), i.ty, ex.val(fr, st, i.a[0], i.ty), i)
        elif op == "gep":
            base = ex.val(fr, st, i.a[0], PTR)
            env[(fid, i.res)] = ex.gep(st, i.ty, base, [(t, ex.val(fr, st, v, t)) for t, v in i.a[1]], i)
        elif op == "alloca":
            n = 1 if i.a is None else ex.val(fr, st, i.a[1], i.a[0])
            if not isinstance(n, int): raise Unsupported("variable-length array")
            oid = "%s.%d.%s" % (fr.fn.base, fid, i.res)
            st.mem[oid] = Obj(i.res, i.ty.size * n)
            fr.allocas.append(oid)
            env[(fid, i.res)] = Ptr(oid, 0)
        elif op == "cast":
            o, t1, v = i.a
            env[(fid, i.res)] = ex.cast(st, o, t1, i.ty, ex.val(fr, st, v, t1), i)
        elif op == "select":
            c = ex.val(fr, st, i.a[0], INT(1))
            a, b = ex.val(fr, st, i.a[1], i.ty), ex.val(fr, st, i.a[2], i.ty)
            env[(fid, i.res)] = ex.merge_val(c, a, b)
        elif op == "fcmp":
            p, a, b = i.a
            env[(fid, i.res)] = ex.fcmp(st, p, ex.val(fr, st, a, i.ty), ex.val(fr, st, b, i.ty), i)
        elif op == "fneg":
            v = ex.val(fr, st, i.a, i.ty)
            env[(fid, i.res)] = -v if isinstance(v, float) else ex.fdom.neg(ex, v)
        elif op == "freeze":
            env[(fid, i.res)] = ex.val(fr, st, i.a, i.ty)
        elif op == "call":
            return ex.do_call(fr, st, i)
        elif op == "extractvalue":
            v = ex.val(fr, st, i.a[0], i.ty)
            for k in i.a[1]: v = v[k]
            env[(fid, i.res)] = v
        elif op == "insertvalue":
            v = ex.val(fr, st, i.a[0], i.ty)
            if v is UNDEF: v = [UNDEF] * len(i.ty.fields)
            v = list(v); v[i.a[3][0]] = ex.val(fr, st, i.a[2], i.a[1])
            env[(fid, i.res)] = v
        elif op == "unsupported":
            raise Unsupported("%s: %s" % (i.a, i.text[:100]))
        else:
            raise Unsupported(op)
        return st

    def fbin(ex, st, o, a, b, ty, i):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) and isinstance(b, float) and ty.w == 64 and (ex.fdom is None or ex.fdom.concrete_ok):
            import math
            try:
                if o == "fadd": return a + b
                if o == "fsub": return a - b
                if o == "fmul": return a * b
                if o == "fdiv":
                    if b == 0.0:
                        return float("nan") if a == 0 or a != a else math.copysign(float("inf"), a) * math.copysign(1.0, b)
                    return a / b
            except OverflowError:
                return float("inf")
        return ex.fdom.bin(ex, st, o, a, b, ty, i)

    def fcmp(ex, st, p, a, b, i):
        if a is UNDEF or b is UNDEF: return z3.Bool("undef!%d" % next(ex.fresh_n))
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            q = p[1:]
            if p in ("true",): return True
            if p in ("false",): return False
            if p == "ord": return not un
            if p == "uno": return un
            r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q]
            if un: return p[0] == "u"
            return r
        return ex.fdom.cmp(ex, st, p, a, b, i)

    def do_call(ex, fr, st, i):
        callee, args = i.a
        if callee[0] == "asm": raise Unsupported("inline asm")
        if callee[0] == "glob": name = callee[1]
        else:
            f = ex.val(fr, st, callee, PTR)
            if not isinstance(f, FnPtr): raise Unsupported("indirect call")
            name = f.name
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.stack"):
            return st
        vals = [None if t.k == "metadata" else ex.val(fr, st, v, t) for t, v in args]
        r, st2 = ex.invoke(fr, st, name, vals, i, [t for t, _ in args])
        if st2 is None: return None
        if i.res is not None: st2.env[(fr.id, i.res)] = r
        return st2

    def invoke(ex, fr, st, name, vals, i, tys=None):
        import lib
        fn = ex.prog.find_fn(name, fr.fn.mod if fr else None)
        base = fn.base if fn is not None else name
        h = ex.contracts.get(base)
        if h is not None:
            r = h(ex, st, vals, i, fr)
            if r is not NotImplemented:
                ex.stats["contract_calls"][base] = ex.stats["contract_calls"].get(base, 0) + 1
                if isinstance(r, tuple) and len(r) == 2 and (r[1] is None or isinstance(r[1], State)): return r
                return r, st
        if fn is not None and base not in ex.no_inline:
            return ex.call_fn(fn, vals, st)
        l = lib.LIB.get(name)
        if l is None and name.startswith("llvm."):
            l = lib.intrinsic(name)
        if l is None: raise Unsupported("call of external function " + name)
        ex.stats["lib_calls"][name] = ex.stats["lib_calls"].get(name, 0) + 1
        r = l(ex, st, vals, i, fr)
        if isinstance(r, tuple) and len(r) == 2 and (r[1] is None or isinstance(r[1], State)): return r
        return r, st


class Frame:
    _n = itertools.count(1)

    def __init__(s, fn):
        s.fn = fn; s.id = next(Frame._n); s.rets = []; s.allocas = []; s.varargs = []
