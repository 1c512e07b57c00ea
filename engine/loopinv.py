"""Loop invariants.  A loop is cut at its header: every variable and every byte array the loop changes is replaced by a fresh
one constrained by the invariant; the invariant is obliged on entry and after an arbitrary iteration.  The invariant is the
largest inductive subset (Houdini) of a fixed family of candidate facts about the loop's variables, a ghost iteration count,
the ghost terms the specification names (string lengths, buffer sizes) and the contents at the specification's index: nothing
of it depends on the names or the form of the loop."""
import itertools, time
import z3
from sx import *
from sx import zi, zb, Ptr, PSet, UNDEF, State, Unsupported, Undecided, INT

B62 = 1 << 62


class Provider:
    """what the specification contributes: ghost terms, an index for each written array, extra candidates"""
    def __init__(s, ghosts=(), skolem=None, extra=None, skip=()):
        s.ghosts = list(ghosts); s.skolem = skolem or {}; s.extra = extra; s.depth = 0; s.skip = set(skip); s.log = []

    def wants(s, ex, fr, loop): return s.depth == 0 and (fr.fn.base not in s.skip)


def zmin(a, b): return z3.If(zi(a) <= zi(b), zi(a), zi(b))


class Vals:
    """values of the loop's variables in a state"""
    def __init__(v, ex, fr, st, spec):
        v.t = {}
        for key, kind, info in spec:
            if kind == "int": x = st.env[(fr.id, key)]; v.t[key] = x if x is not UNDEF else None
            elif kind == "bool": v.t[key] = st.env[(fr.id, key)]
            elif kind == "ptr":
                p = st.env[(fr.id, key)]
                v.t[key] = p.off if isinstance(p, Ptr) and p.obj == info else None
            elif kind == "arr": v.t[key] = st.mem[key].arr
            elif kind == "cell":
                o = st.mem[key[0]]; c = o.cells.get(key[1])
                x = c[1] if c is not None and c[0] == info else None
                if isinstance(x, Ptr): x = x.off
                v.t[key] = None if x is UNDEF or isinstance(x, (PSet, float)) else x


def run(ex, fr, loop, sts, out):
    inv = ex.inv
    sts = ex.merge_states(sts)
    if not sts: return
    if len(sts) > 1: raise Unsupported("several states at a loop")
    st0 = sts[0]
    phis = [i for i in fr.fn.blocks[loop.header] if i.op == "phi"]
    spec = []; tys = {}
    for i in phis:
        v = st0.env[(fr.id, i.res)]; tys[i.res] = i.ty
        if isinstance(v, Ptr):
            spec.append((i.res, "ptr", v.obj))
        elif isinstance(v, (PSet,)): raise Unsupported("loop over a pointer to several objects")
        elif i.ty.k == "i" and i.ty.w == 1: spec.append((i.res, "bool", 1))
        elif i.ty.k == "i": spec.append((i.res, "int", i.ty.w))
        else: raise Unsupported("loop variable of type %r" % i.ty)
    k = z3.Int("iter!%d" % next(ex.fresh_n)); ex.axioms.append(k >= 0); ex.setr(k, 0, B62)
    w = "%s (%s, loop at %s)" % (__import__("os").path.basename(fr.fn.mod.src), fr.fn.base, loop.header)

    def havoc():
        h = st0.fork(); vals = {}
        for key, kind, info in spec:
            if kind in ("int", "ptr"):
                wd = info if kind == "int" else 64
                x = z3.Int("loop_%s!%d" % (key, next(ex.fresh_n)))
                lo, hi = (-B62, B62) if wd == 64 else (-(1 << (wd - 1)), (1 << (wd - 1)) - 1)
                ex.setr(x, lo, hi); ex.axioms.append(z3.And(x >= lo, x <= hi)); vals[key] = x
                h.env[(fr.id, key)] = x if kind == "int" else Ptr(info, x)
            elif kind == "bool":
                vals[key] = h.env[(fr.id, key)] = z3.Bool("loop_%s!%d" % (key, next(ex.fresh_n)))
            elif kind == "arr":
                h.obj_w(key).arr = vals[key] = z3.Const("mem!%d" % next(ex.fresh_n), z3.ArraySort(z3.IntSort(), z3.IntSort()))
            elif kind == "cell":
                o = h.obj_w(key[0]); c = st0.mem[key[0]].cells.get(key[1])
                if c is not None and isinstance(c[1], Ptr):
                    x = z3.Int("loop_cell!%d" % next(ex.fresh_n)); ex.setr(x, -B62, B62); ex.axioms.append(z3.And(x >= -B62, x <= B62))
                    o.cells[key[1]] = (info, Ptr(c[1].obj, x)); vals[key] = x
                else:
                    wd = 8 * info; x = z3.Int("loop_cell!%d" % next(ex.fresh_n)); lo, hi = -(1 << (wd - 1)), (1 << (wd - 1)) - 1
                    if wd == 64: lo, hi = -B62, B62
                    ex.setr(x, lo, hi); ex.axioms.append(z3.And(x >= lo, x <= hi)); o.cells[key[1]] = (info, x); vals[key] = x
        return h, vals

    def body(h, o2):
        inv.depth += 1
        try: return ex.merge_states(ex.run_region(fr, loop, [h], o2))
        finally: inv.depth -= 1

    def quiet(f):
        n = len(ex.obls); a = ex.auto; e = len(ex.exits); r = f(); del ex.obls[n:]; del ex.exits[e:]; ex.auto = a
        return r

    # which memory does the loop change?
    for _ in range(6):
        h, _v = havoc(); o2 = {}; mem0 = dict(h.mem)
        back = quiet(lambda: body(h, o2)); new = []
        for s in back + [s for ss in o2.values() for s in ss]:
            for oid, o in s.mem.items():
                b = mem0.get(oid)
                if b is None or b is o: continue
                if o.arr is not None:
                    if not o.arr.eq(b.arr) and not any(x[0] == oid for x in spec + new): new.append((oid, "arr", None))
                    continue
                for off in set(o.cells) | set(b.cells):
                    c, d = o.cells.get(off), b.cells.get(off)
                    if c is None or d is None or c[0] != d[0] or c[1] is not d[1]:
                        key = (oid, off)
                        if any(x[0] == key for x in spec + new): continue
                        if c is None: continue
                        if isinstance(c[1], (PSet, float)) or (d is not None and isinstance(d[1], (PSet, float))): raise Unsupported("loop changes memory that is not an integer")
                        new.append((key, "cell", c[0]))
        if not new: break
        spec += new
    else: raise Unsupported("memory changed by the loop does not settle")

    init = Vals(ex, fr, st0, spec).t
    cands = candidates(ex, inv, spec, init, k, st0)

    def proves(pc, goal, ms=1500):
        if ex.deadline and time.time() > ex.deadline: raise Undecided("time limit while finding a loop invariant")
        s = ex.mk_solver(ms)
        for c in pc: s.add(zb(c))
        s.add(zb(bnot(goal)))
        return s.check() == z3.unsat

    def val(f, vals, kk):
        try: return f(vals, kk)
        except (TypeError, KeyError): return False
    C = [(n, f) for n, f in cands if (lambda g: is_true(g) or (not is_false(g) and proves(st0.pc, g)))(val(f, init, z3.IntVal(0)))]
    rounds = 0
    while True:
        rounds += 1
        h, vals = havoc(); h.pc = h.pc + tuple(zb(val(f, vals, k)) for _, f in C)
        o2 = {}; back = quiet(lambda: body(h, o2))
        if not back: break
        b = back[0]; nv = Vals(ex, fr, b, spec).t
        goals = [(n, f, val(f, nv, k + 1)) for n, f in C]
        # all at once first, then one by one
        if proves(b.pc, band(*[g for _, _, g in goals]), 4000): break
        C2 = [(n, f) for n, f, g in goals if is_true(g) or (not is_false(g) and proves(b.pc, g))]
        if len(C2) == len(C): break
        C = C2
        if rounds > 40: raise Undecided("loop invariant not found")
    inv.log.append("%s: %s" % (w, "; ".join(n for n, _ in C)))
    # the invariant's obligations, and the loop itself
    for n, f in C:
        g = val(f, init, z3.IntVal(0)); ex.oblige(State(st0.pc), g, "loop invariant on entry: " + n, where=w, kind="invariant")
    h, vals = havoc(); h.pc = h.pc + tuple(zb(val(f, vals, k)) for _, f in C)
    back = body(h, out)
    for b in back:
        nv = Vals(ex, fr, b, spec).t
        for n, f in C:
            ex.oblige(State(b.pc), val(f, nv, k + 1), "loop invariant preserved: " + n, where=w, kind="invariant")
        ex.oblige(State(b.pc), any(n.startswith("iterations") for n, _ in C), "loop terminates: the number of iterations is bounded", where=w, kind="invariant")
        for key, kind, info in spec:       # the fresh variables' range is part of the invariant
            if kind in ("int", "ptr") and (kind == "ptr" or info == 64):
                x = nv[key]
                if x is None: raise Unsupported("loop variable leaves its object")
                ex.oblige(State(b.pc), z3.And(zi(x) >= -B62, zi(x) <= B62), "loop variable in range", where=w, kind="invariant")
                ex.oblige(State(st0.pc), z3.And(zi(init[key]) >= -B62, zi(init[key]) <= B62), "loop variable in range", where=w, kind="invariant")
    key = "%s/%s" % (fr.fn.base, loop.header); ex.stats["invariants"] = ex.stats.get("invariants", {}); ex.stats["invariants"][key] = len(C)


def candidates(ex, inv, spec, init, k, st0):
    c = []
    nums = [s for s in spec if s[1] in ("int", "ptr") or (s[1] == "cell" and init[s[0]] is not None)]
    G = []
    for g in list(inv.ghosts) + [init[key] for key, kind, info in nums if init[key] is not None] + [0]:
        if not any(zi(x).eq(zi(g)) for x in G): G.append(g)

    def add(n, f): c.append((n, f))
    for key, kind, info in nums:
        I = init[key]
        if I is None: continue
        add("%s = start" % key if not isinstance(key, tuple) else "%s = start" % (key,), lambda v, kk, key=key, I=I: zi(v[key]) == zi(I))
        for s in (1, -1):
            add("%s = start %+d*iter" % (key, s), lambda v, kk, key=key, I=I, s=s: zi(v[key]) == zi(I) + s * kk)
            for gi, g in enumerate(G):
                add("%s = start %+d*min(iter, g%d)" % (key, s, gi), lambda v, kk, key=key, I=I, s=s, g=g: zi(v[key]) == zi(I) + s * zmin(kk, g))
        for gi, g in enumerate(G):
            for d in (-1, 0, 1):
                add("%s <= g%d%+d" % (key, gi, d), lambda v, kk, key=key, g=g, d=d: zi(v[key]) <= zi(g) + d)
                add("%s >= g%d%+d" % (key, gi, d), lambda v, kk, key=key, g=g, d=d: zi(v[key]) >= zi(g) + d)
    for (a, _, _), (b, _, _) in itertools.combinations(nums, 2):
        if init[a] is None or init[b] is None: continue
        add("%s + %s constant" % (a, b), lambda v, kk, a=a, b=b: zi(v[a]) + zi(v[b]) == zi(init[a]) + zi(init[b]))
        add("%s - %s constant" % (a, b), lambda v, kk, a=a, b=b: zi(v[a]) - zi(v[b]) == zi(init[a]) - zi(init[b]))
    for gi, g in enumerate(G):
        for d in (-1, 0, 1): add("iterations <= g%d%+d" % (gi, d), lambda v, kk, g=g, d=d: kk <= zi(g) + d)
        for h in G:
            if h is not g: add("iterations <= g%d - g" % gi, lambda v, kk, g=g, h=h: kk <= zi(g) - zi(h))
    # contents at the specification's index
    for oid, kind, info in spec:
        if kind != "arr": continue
        J = inv.skolem.get(oid)
        if J is None: continue
        o = st0.mem[oid]; A0 = init[oid]
        add("contents unchanged", lambda v, kk, oid=oid, A0=A0, J=J: z3.Select(v[oid], J) == z3.Select(A0, J))
        starts = [0] + [init[s[0]] for s in spec if s[1] == "ptr" and s[2] == oid]
        for g in inv.ghosts: starts.append(g)
        srcs = [(x, y) for x, y in st0.mem.items() if y.arr is not None and x != oid]
        U = []
        for a in starts:
            if not any(zi(a).eq(zi(b)) for b in U): U.append(a)
        for a in U:
            for sid, so in srcs:
                sb = [0] + [init[s[0]] for s in spec if s[1] == "ptr" and s[2] == sid]
                sb = [b for i, b in enumerate(sb) if not any(zi(b).eq(zi(x)) for x in sb[:i])]
                for b in sb:
                    for cn, cnt in [("iter", lambda kk: kk)] + [("min(iter, g%d)" % gi, lambda kk, g=g: zmin(kk, g)) for gi, g in enumerate(G)]:
                        ex.arr_read(so, J - zi(a) + zi(b))
                        add("contents copied: %s bytes" % cn, lambda v, kk, oid=oid, a=a, b=b, so=so, A0=A0, J=J, cnt=cnt: z3.Select(v[oid], J) ==
                            z3.If(z3.And(J >= zi(a), J < zi(a) + cnt(kk)), z3.Select(so.arr, J - zi(a) + zi(b)), z3.Select(A0, J)))
    if inv.extra is not None: c += inv.extra(ex, spec, init, k, st0)
    return c
