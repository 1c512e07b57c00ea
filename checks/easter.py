"""C03: date of Easter (easter.cpp)"""
import ctypes
from check import *
from calspec import start, table, If, fdiv
import calspec as S

Y1 = 10 ** 9


def md_to_day(y, m, d, julian):
    """day number of a date in March or April (closed rule of calspec)"""
    z = y - 1
    cal = S.JUL if julian else S.GREG
    leap = (y % 4 == 0) if julian else S.And(y % 4 == 0, S.Or(S.Not(y % 100 == 0), y % 400 == 0))
    return start(cal, y) + 59 + If(leap, 1, 0) + If(m == 4, 31, 0) + d - 1


def epact_greg(y):
    """paschal full moon as days after 31 March + 19 minus shifted epact (Lilius/Clavius; Reingold & Dershowitz 9.3)"""
    c = fdiv(y, 100) + 1
    se = (14 + 11 * (y % 19) - fdiv(3 * c, 4) + fdiv(5 + 8 * c, 25)) % 30
    adj = If(S.Or(se == 0, S.And(se == 1, 10 < y % 19)), se + 1, se)
    return adj


def pfm(y, julian):
    """paschal full moon, day number"""
    if julian: return md_to_day(y, 4, 19, True) - (14 + 11 * (y % 19)) % 30
    return md_to_day(y, 4, 19, False) - epact_greg(y)


def ref(y, julian):
    p = pfm(y, julian)
    e = p + 1 + (5 - p) % 7          # next Sunday strictly after p ((jd+1)%7==0 is Sunday)
    k = e - md_to_day(y, 3, 1, julian)
    return (3, k + 1) if k < 31 else (4, k - 30)


class C03(Check):
    id = "C03"; title = "Easter dates follow the ecclesiastical rules in every year"
    assumptions = ["the lunar (epact) and Sunday rules of Lilius/Clavius and of Dionysius, as published, define the correct date",
                   "years 1583 (Gregorian) or 1 (Julian) to 10^9; C 'long' is 64 bits"]

    def setup(s):
        s.prog = Program(["easter.cpp"]); s.nat = None

    def native(s):
        if s.nat is None:
            L = native.build(["easter.cpp"], "easter")
            f = {}
            for n in ("easter_date", "easter_date_julian"):
                g = getattr(L, "_Z%d%slPiS_" % (len(n), n)); g.argtypes = [ctypes.c_long, ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_int)]; g.restype = None
                f[n] = g
            s.nat = f
        return s.nat

    def bad(s, y, fn):
        m, d = ctypes.c_int(), ctypes.c_int()
        s.native()[fn](y, ctypes.byref(m), ctypes.byref(d))
        e = ref(y, fn.endswith("julian"))
        if (m.value, d.value) != e: return {"input": {"function": fn, "year": y}, "expected": e, "observed": (m.value, d.value)}

    def unit(s, fn):
        jul = fn.endswith("julian")

        def gen(ctx):
            ex = ctx.executor(s.prog)
            y = ex.input_int("year", 64, 1 if jul else 1583, Y1)
            ex.period = (y, 532 if jul else 5700000, 1 if jul else 1583)
            st = State()
            m = ex.new_obj(st, "month", 4); d = ex.new_obj(st, "day", 4)
            v, s2 = ex.call_fn(s.prog.get(fn), [y, m, d], st)
            mv, dv = ex.load(s2, m, INT(32)), ex.load(s2, d, INT(32))
            ctx.cover(ex, s2, fn)
            one = lambda g, n: ex.oblige(State(s2.pc), g, n, where="easter.cpp (%s)" % fn, kind="post")
            one(z3.Or(z3.And(zi(mv) == 3, zi(dv) >= 22, zi(dv) <= 31), z3.And(zi(mv) == 4, zi(dv) >= 1, zi(dv) <= 25)), "Easter falls from 22 March to 25 April")
            e = md_to_day(y, zi(mv), zi(dv), jul); p = pfm(y, jul)
            one((e + 1) % 7 == 0, "Easter is a Sunday")
            one(z3.And(e > p, e <= p + 7), "Easter is the first Sunday after the paschal full moon")
        return Unit(fn, gen, replay=lambda m: s.bad(m["year"], fn) if m.get("year", 0) >= (1 if jul else 1583) else None, fns=[fn], timeout=60)

    def units(s): return [s.unit("easter_date_julian"), s.unit("easter_date")]

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            for y in range(1 + slot, 5700000 + 1600, n):
                if y % 64 == 0 and time.time() > end: return None
                note(y)
                r = s.bad(y, "easter_date_julian") or (s.bad(y, "easter_date") if y >= 1583 else None)
                if r: return r
        return w

    def sanity(s):
        for y in range(1583, 4000):
            r = s.bad(y, "easter_date") or s.bad(y, "easter_date_julian")
            if r: return y, r
        return 4800, None


CHECKS = {"C03": C03}
