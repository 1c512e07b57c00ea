"""C08: bounded string operations (snprintf.cpp).  Buffers and strings of any length: SMT arrays, loop invariants."""
import ctypes, random
from check import *
from loopinv import Provider
from desig import fail

SRC = ["snprintf.cpp"]
MAX = 1 << 40


class C08(Check):
    id = "C08"; title = "Bounded string operations stay inside the buffer and report truncation"
    assumptions = ["vsnprintf of the C library keeps its contract: at most size bytes are written, NUL included, and the length of the full text or a negative value is returned",
                   "source and destination do not overlap", "sizes and lengths below 2^40 (formatted text: below 2^30)"]

    def setup(s):
        s.prog = Program(SRC); s.nat = None

    def native(s):
        if s.nat is None: s.nat = native.build(SRC, "strops")
        return s.nat

    # ---------------------------------------------------------------- buffers
    def string(s, ex, st, name, L, size, const=True):
        """an object of 'size' bytes whose first NUL is at L (none if L >= size)"""
        p = ex.new_obj(st, name, size, const=const); o = st.mem[p.obj]
        A = z3.Const(name, z3.ArraySort(z3.IntSort(), z3.IntSort())); o.arr = o.arr0 = A; o.slen = L
        o.hook = lambda off: [z3.And(z3.Implies(z3.And(off >= 0, off < L), z3.Select(A, off) != 0), z3.Implies(z3.And(off == L, off < zi(size)), z3.Select(A, off) == 0), z3.Select(A, off) >= -128, z3.Select(A, off) <= 127)]
        return p, A

    def begin(s, ctx):
        ex = ctx.executor(s.prog); st = State()
        L = ex.input_int("len_src", 64, 0, MAX); D = ex.input_int("dsize", 64, 0, MAX); LD = ex.input_int("len_dst", 64, 0, MAX)
        J = ex.input_int("index", 64, 0, MAX)
        ex.axioms.append(z3.And(LD <= D, J < D))
        src, SA = s.string(ex, st, "src", L, L + 1); dst, DA = s.string(ex, st, "dst", LD, D, const=False)
        ex.inv = Provider(ghosts=[L, D, LD, L + 1, D - 1, D - LD, D - LD - 1], skolem={dst.obj: J})
        ex.arr_read(st.mem[dst.obj], J); ex.arr_read(st.mem[src.obj], J); ex.arr_read(st.mem[src.obj], J - LD)
        return ex, st, L, D, LD, J, src, SA, dst, DA

    def post_copy(s, ex, st, dst, w, L, D, J, SA, DA, r, start):
        """dst[start...] holds as much of src as fits and a NUL; everything else is as it was"""
        room = z3.If(D - start > 0, D - start - 1, z3.IntVal(0)); n = z3.If(L < room, L, room)
        got = z3.Select(st.mem[dst.obj].arr, J); old = z3.Select(DA, J); q = State(st.pc)
        full = D - start > 0
        ex.oblige(q, z3.Implies(z3.And(full, J >= start, J < start + n), got == z3.Select(SA, J - start)), "the text is copied", where=w, kind="post")
        ex.oblige(State(st.pc), z3.Implies(z3.And(full, J == start + n), got == 0), "the result ends in a NUL", where=w, kind="post")
        ex.oblige(State(st.pc), z3.Implies(z3.Or(z3.Not(full), J < start, J > start + n), got == old), "nothing else is changed", where=w, kind="post")
        ex.oblige(State(st.pc), zi(r) == L + start, "returns the length of the text it tried to make", where=w, kind="post")

    def u_copy(s, fn, cat, err):
        def gen(ctx):
            w = "snprintf.cpp (%s)" % fn
            ex, st, L, D, LD, J, src, SA, dst, DA = s.begin(ctx); ex.forbid_exit = False
            r, st = ex.call_fn(s.prog.get(fn), [dst, src, D], st); start = LD if cat else z3.IntVal(0)
            if err:
                ctx.cover(ex, st, fn + " returns")
                ex.oblige(State(st.pc), L + start < D, "returns only if nothing was cut off", where=w, kind="post")
                for e, _ in ex.exits: ex.oblige(State(e.pc), L + start >= D, "ends the program only if something was cut off", where=w, kind="post")
            else: ctx.cover(ex, st, fn)
            s.post_copy(ex, st, dst, w, L, D, J, SA, DA, r, start)
            ctx.facts["loop invariants of " + fn] = [x[:600] for x in ex.inv.log]
        return Unit(fn, gen, fns=[fn], replay=s.rp, limit=200)

    def u_print(s, fn, append, abort):
        def gen(ctx):
            w = "snprintf.cpp (%s)" % fn
            ex, st, L, D, LD, J, src, SA, dst, DA = s.begin(ctx); ex.forbid_exit = False
            ex.axioms.append(LD < D) if append else ex.axioms.append(D >= 1)
            ex.axioms.append(D <= 1 << 30)
            R = ex.input_int("formatted_length", 32, -(1 << 30), 1 << 30); calls = []

            def vsn(ex, st, a, i, fr):
                p, n = a[0], a[1]
                if not (isinstance(p, Ptr) and p.obj == dst.obj): raise Unsupported("formats into another object")
                z = ex.unsigned(n, 64)
                ex.oblige(st, bimp(zi(z) > 0, z3.And(zi(p.off) >= 0, zi(p.off) + zi(z) <= D)), "vsnprintf is given no more than the space that is left", i)
                start = zi(LD) if append else z3.IntVal(0)
                ex.oblige(st, z3.And(zi(p.off) == start, zi(p.off) + zi(z) == D), "vsnprintf is given the place after the text and all the space that is left", i)
                o = st.obj_w(dst.obj); A = z3.Const("formatted!%d" % next(ex.fresh_n), o.arr.sort())
                m = z3.If(R < zi(z) - 1, R, zi(z) - 1)
                ex.axioms.append(z3.Implies(z3.Or(J < zi(p.off), z3.And(R >= 0, J > zi(p.off) + m), zi(z) <= 0), z3.Select(A, J) == z3.Select(o.arr, J)))
                ex.axioms.append(z3.Implies(z3.And(zi(z) > 0, R >= 0, J == zi(p.off) + m), z3.Select(A, J) == 0))
                o.arr = A; calls.append(st)
                return R
            ex.contracts["vsnprintf"] = vsn
            fmt = ex.new_obj(st, "format", 3, {0: (1, 37), 1: (1, 115), 2: (1, 0)}, const=True)
            ends = []

            def die(ex, st, a, i, fr):
                ends.append(st); return None, None
            ex.contracts["__assert_fail"] = die; ex.contracts["abort"] = die; ex.contracts["exit"] = die
            r, st = ex.call_fn(s.prog.get(fn), [dst, D, fmt], st); start = zi(LD) if append else z3.IntVal(0)
            ctx.cover(ex, st, fn + " returns")
            fits = z3.And(R >= 0, R + start < D)
            if abort:
                ex.oblige(State(st.pc), fits, "returns only if nothing was cut off", where=w, kind="post")
            for e in ends: ex.oblige(State(e.pc), z3.Not(fits) if abort else False, "ends the program only if something was cut off" if abort else "never ends the program", where=w, kind="post")
            got = z3.Select(st.mem[dst.obj].arr, J)
            room = D - start - 1; m = z3.If(R < room, R, room)
            ex.oblige(State(st.pc), z3.Implies(z3.Or(J < start, z3.And(R >= 0, J > start + m)), got == z3.Select(DA, J)), "nothing else is changed", where=w, kind="post")
            ex.oblige(State(st.pc), z3.Implies(z3.And(R >= 0, J == start + m), got == 0), "the result ends in a NUL", where=w, kind="post")
            ex.oblige(State(st.pc), zi(r) == R + start, "returns the length of the text it tried to make", where=w, kind="post")
            if not calls: raise Unsupported("no call of vsnprintf")
        return Unit(fn, gen, fns=[fn], replay=s.rp, limit=200)

    def units(s):
        return [s.u_copy("strlcpy", False, False), s.u_copy("strlcat", True, False), s.u_copy("strlcpy_err", False, True), s.u_copy("strlcat_err", True, True),
                s.u_print("snprintf_append", True, True), s.u_print("snprintf_append_trunc", True, False), s.u_print("snprintf_err", False, True)]

    # ---------------------------------------------------------------- real code
    def bad(s, fn, src, dst, d):
        """dst: initial bytes of a buffer of d bytes (ending at an unmapped page)"""
        L = s.native(); Z = ctypes.c_size_t; V = ctypes.c_void_p; cat = "cat" in fn or "append" in fn
        start = (dst.find(b"\0") if b"\0" in dst else d) if cat else 0
        full = start + len(src)

        def go():
            D = native.Guarded(dst); S = native.Guarded(src + b"\0")
            if fn.startswith("strl"): r = native.fn(L, fn, Z, V, V, Z)(D.addr, S.addr, d)
            else: r = native.fn(L, fn, ctypes.c_int, V, Z, ctypes.c_char_p, V)(D.addr, d, b"%s", S.addr)
            return r, D.raw()
        k, x = native.guarded(go)
        room = d - start - 1; n = min(len(src), room)
        exp = dst[:start] + src[:n] + b"\0" + dst[start + n + 1:] if room >= 0 else dst
        info = {"input": {"function": fn, "source": str(src), "buffer": str(dst), "size": d}, "expected": [full, str(exp)], "observed": (k, str(x))}
        if fn in ("strlcpy_err", "strlcat_err", "snprintf_append", "snprintf_err") and full >= d:
            if k == "crash" and ("signal 11" not in str(x) or d == 0 or b"\0" not in dst): return    # the message prints the buffer
            return dict(info, expected="ends the program")
        if k != "ok" or x[0] != full or x[1] != exp: return info

    FNS = ("strlcpy", "strlcat", "strlcpy_err", "strlcat_err", "snprintf_append", "snprintf_append_trunc", "snprintf_err")

    def rp(s, m):
        d = int(m.get("dsize", 8)); L = int(m.get("len_src", 3)); ld = int(m.get("len_dst", 0))
        if max(d, L) > 5000: return None
        for fn in s.FNS:
            if "printf" in fn and (d < 1 or ("append" in fn and ld >= d)): continue
            r = s.bad(fn, bytes(97 + i % 26 for i in range(L)), bytes(65 + i % 26 for i in range(ld)) + bytes([0] * (d > ld)) + b"#" * (d - ld - 1), d)
            if r: return r

    def probe(s, rng):
        d = rng.randrange(0, 12); L = rng.randrange(0, 14); ld = rng.randrange(0, d + 1); fn = rng.choice(s.FNS)
        if "printf" in fn and (d < 1 or ("append" in fn and ld >= d)): return None
        dst = bytes(rng.randrange(1, 256) for _ in range(ld)) + bytes([0] * (d > ld)) + bytes(rng.randrange(0, 256) for _ in range(d - ld - 1))
        return s.bad(fn, bytes(rng.randrange(1, 256) for _ in range(L)), dst[:d], d)

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            while time.time() < end:
                note("random probe"); r = s.probe(rng)
                if r: return r
        return w

    def sanity(s):
        rng = random.Random(s.seed)
        for i in range(300):
            r = s.probe(rng)
            if r: return i, r
        return 300, None


CHECKS = {"C08": C08}
