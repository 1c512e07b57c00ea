"""C07: variable-star designations (miscell.cpp: make_var_desig, decipher_var_desig)"""
import ctypes
from check import *
from calspec import If, And, Or, Not
from desig import setb, rangeof, eq, fail, horner

ABC = [c for c in "ABCDEFGHIKLMNOPQRSTUVWXYZ"]         # no J
NAMES = (["R", "S", "T", "U", "V", "W", "X", "Y", "Z"] +
         [a + b for a in "RSTUVWXYZ" for b in "RSTUVWXYZ" if b >= a] +
         [a + b for a in ABC[:16] for b in ABC if b >= a])      # Argelander's order: R..Z, RR..ZZ, AA..QZ
assert len(NAMES) == 334


def idx(c):
    """place of a letter in the 25-letter alphabet"""
    return If(c > 74, c - 66, c - 65)


def letter(c): return And(c >= 65, c <= 90, Not(c == 74))


def dv2(e): return e / 2 if z3.is_expr(e) else e // 2


def number2(a, b):
    """number of the two-letter name (a, b): 9 single letters, then RR..ZZ, then AA..QZ"""
    i, j = idx(a), idx(b)
    p, q = i - 16, j - 16
    return If(i >= 16, 10 + 9 * p - dv2(p * (p - 1)) + (q - p), 55 + 25 * i - dv2(i * (i - 1)) + (j - i))


assert all(number2(ord(n[0]), ord(n[1])) == k + 1 for k, n in enumerate(NAMES) if len(n) == 2)


class C07(Check):
    id = "C07"; title = "Variable-star designations number and read back in Argelander's order"
    assumptions = ["variable numbers 1 to 9999 (the function writes at most four digits); single letters A-Q, a-q and u get the code's own numbers 9101.. and 9201.. only"]

    def setup(s):
        s.prog = Program(["miscell.cpp"]); s.nat = None

    def native(s):
        if s.nat is None:
            L = native.build(["miscell.cpp", "date.cpp", "snprintf.cpp"], "var")
            s.nat = (native.fn(L, "make_var_desig", None, ctypes.c_void_p, ctypes.c_int), native.fn(L, "decipher_var_desig", ctypes.c_int, ctypes.c_void_p))
        return s.nat

    def name(s, n): return NAMES[n - 1] if n <= 334 else "V%d" % n

    def value(s, t):
        """expected value of decipher_var_desig for a designation text (bytes without NUL), None if not specified"""
        t = t.split(b" ")[0].decode("latin1")
        if len(t) == 1:
            if "A" <= t <= "Q": return 9201 + ord(t) - 65
            if "a" <= t <= "q" or t == "u": return 9101 + ord(t) - 97
            u = t.upper() if t.isascii() else t
            return NAMES.index(u) + 1 if u in NAMES else -1
        if len(t) == 2:
            u = "".join(c.upper() if c.isascii() else c for c in t)
            return NAMES.index(u) + 1 if u in NAMES else -1
        if len(t) >= 3 and t[0] in "Vv" and t[1:].isdigit() and t[1:].isascii() and len(t) <= 10: return int(t[1:])
        return None

    def bad_make(s, n):
        g = native.Guarded(b"\xa5" * 16); m, d = s.native()
        k, x = native.guarded(lambda: (m(g.addr, n), g.raw()))
        e = s.name(n).encode() + b"\0"
        if k != "ok" or not x[1].startswith(e): return {"input": {"make_var_desig": n}, "expected": e.decode(), "observed": (k, x[1] if k == "ok" else x)}

    def bad_read(s, t):
        g = native.Guarded(t + b"\0"); m, d = s.native()
        k, x = native.guarded(lambda: d(g.addr)); e = s.value(t)
        if k != "ok" or (e is not None and x != e): return {"input": {"decipher_var_desig": t.decode("latin1")}, "expected": e, "observed": (k, x)}

    def u_make(s, what, lo, hi):
        def gen(ctx):
            ex = ctx.executor(s.prog)
            st = State()
            if lo >= 335:
                k = len(str(lo)); ds = [ex.input_int("d%d" % i, 32, int(i == 0), 9) for i in range(k)]
                v = horner(ds); ex.setr(v, lo, hi)
                st = st.also(And(v >= lo, v <= hi))
                ex.enum = {"d%d" % i: (int(i == 0), 9) for i in range(k)}
            else:
                v = ex.input_int("var_no", 32, lo, hi); ex.enum = {"var_no": (lo, hi)}
            b = ex.new_obj(st, "buff", 16); setb(ex, st, b, [0xa5 - 256] * 16)
            _, s2 = ex.call_fn(s.prog.get("make_var_desig"), [b, v], st)
            ctx.cover(ex, s2, what)
            got = [ex.load(s2, ex.padd(s2, b, i), INT(8)) for i in range(16)]
            one = lambda g, n: ex.oblige(State(s2.pc), g, n, where="miscell.cpp (make_var_desig)", kind="post")
            if lo >= 335:
                e = [ord("V")] + [d + 48 for d in ds] + [0]
                for i, x in enumerate(e): one(eq(got[i], x), "digit %d of the V number" % i if i else "numbers over 334 start with V")
                n = len(e)
            elif hi <= 9:
                one(eq(got[0], v + 81), "first nine are R to Z"); one(eq(got[1], 0), "one letter"); n = 2
            else:
                a, b2 = zi(got[0]), zi(got[1])
                one(And(letter(a), letter(b2), a <= b2), "two letters, the second not before the first, neither J")
                one(number2(a, b2) == v, "name is the one of that place in Argelander's order")
                one(eq(got[2], 0), "two letters"); n = 3
            for i in range(n, 16): one(eq(got[i], 0xa5 - 256), "nothing is written after the name")

        def rp(m): return s.bad_make(m["var_no"] if "var_no" in m else horner([m["d%d" % i] for i in range(len(str(lo)))]))
        return Unit(what, gen, replay=rp, fns=["make_var_desig"])

    def u_read(s, what, n, end):
        def gen(ctx):
            ex = ctx.executor(s.prog); st = State()
            c = [ex.input_int("c%d" % i, 8, -128, 127) for i in range(n)]
            for x in c: st = st.also(And(x != 0, x != 32))
            ex.enum = {"c%d" % i: (-128, 127) for i in range(n)}
            b = ex.new_obj(st, "desig", n + 1); setb(ex, st, b, c + [end])
            r, s2 = ex.call_fn(s.prog.get("decipher_var_desig"), [b], st)
            ctx.cover(ex, s2, what)
            one = lambda g, nm: ex.oblige(State(s2.pc), g, nm, where="miscell.cpp (decipher_var_desig)", kind="post")
            up = lambda x: If(And(x >= 97, x <= 122), x - 32, x)
            if n == 1:
                x = c[0]; u = up(x)
                e = If(And(x >= 65, x <= 81), 9201 + x - 65, If(Or(And(x >= 97, x <= 113), x == 117), 9101 + x - 97, If(And(u >= 82, u <= 90), u - 81, -1)))
                one(zi(r) == e, "one-letter name gives its number, anything else -1")
            else:
                a, d = up(c[0]), up(c[1])
                one(zi(r) == If(And(letter(a), letter(d), a <= d), number2(a, d), -1), "two-letter name gives its number, anything else -1")
        return Unit(what, gen, replay=lambda m: s.bad_read(bytes([m["c%d" % i] & 255 for i in range(n)]) + (b"" if end == 0 else b" ")), fns=["decipher_var_desig"])

    def u_vnum(s, k, end):
        def gen(ctx):
            ex = ctx.executor(s.prog); st = State()
            ds = [ex.input_int("d%d" % i, 8, 0, 9) for i in range(k)]
            ex.enum = {"d%d" % i: (0, 9) for i in range(k)}
            V = ex.input_int("V", 8, 86, 118); st = st.also(Or(V == 86, V == 118)); ex.enum["V"] = (86, 118)
            b = ex.new_obj(st, "desig", k + 2); setb(ex, st, b, [V] + [d + 48 for d in ds] + [end])
            for i, d in enumerate(ds): pass
            r, s2 = ex.call_fn(s.prog.get("decipher_var_desig"), [b], st)
            ctx.cover(ex, s2, "V%d" % k)
            ex.oblige(State(s2.pc), zi(r) == horner(ds), "V number is read back", where="miscell.cpp (decipher_var_desig)", kind="post")
        return Unit("decipher V number, %d digits%s" % (k, "" if end == 0 else ", blank after"), gen, fns=["decipher_var_desig"],
                    replay=lambda m: s.bad_read(bytes([m["V"]]) + b"%0*d" % (k, horner([m["d%d" % i] for i in range(k)])) + (b" " if end else b"")))

    def u_empty(s):
        def gen(ctx):
            ex = ctx.executor(s.prog); st = State()
            b = ex.new_obj(st, "desig", 1); setb(ex, st, b, [0])
            r, s2 = ex.call_fn(s.prog.get("decipher_var_desig"), [b], st)
            ctx.cover(ex, s2, "empty")
            ex.oblige(State(s2.pc), eq(r, -1), "empty name is not a designation", where="miscell.cpp (decipher_var_desig)", kind="post")
        return Unit("decipher an empty name", gen, replay=lambda m: s.bad_read(b""), fns=["decipher_var_desig"])

    def units(s):
        return [s.u_make("make 1-9", 1, 9), s.u_make("make 10-334", 10, 334), s.u_make("make 335-999", 335, 999), s.u_make("make 1000-9999", 1000, 9999),
                s.u_read("decipher one letter", 1, 0), s.u_read("decipher one letter, blank after", 1, 32), s.u_read("decipher two letters", 2, 0),
                s.u_read("decipher two letters, blank after", 2, 32), s.u_empty()] + [s.u_vnum(k, e) for k in range(2, 8) for e in (0, 32)]

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            m, d = s.native(); b = ctypes.create_string_buffer(32)
            k = slot
            while time.time() < end:
                k += n
                v = k % 9999 + 1; note(("make_var_desig", v)); m(b, v)
                if b.value.decode("latin1") != s.name(v): return s.bad_make(v)
                t = b.value
                if rng.random() < .3: t = bytes(rng.choice([rng.randint(1, 255), rng.randint(65, 90), rng.randint(97, 122)]) for _ in range(rng.randint(1, 2)))
                if rng.random() < .3: t += b" Cyg"
                e = s.value(t); note(("decipher_var_desig", t))
                if e is not None and d(ctypes.create_string_buffer(t, len(t) + 1)) != e: return s.bad_read(t)
        return w

    def sanity(s):
        for v in range(1, 10000):
            b = ctypes.create_string_buffer(32); s.native()[0](b, v)
            if b.value.decode() != s.name(v): return v, s.bad_make(v)
            if s.native()[1](b) != v: return v, s.bad_read(b.value)
        return 9999, None


CHECKS = {"C07": C07}
