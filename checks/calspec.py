"""Reference rules for the calendars, written from their published definitions (Explanatory Supplement ch. 12,
Reingold & Dershowitz, the tables of Borkowski for the Persian and of Meeus/Bretagnon for the French calendar), not
from the code.  Every function works on Python integers and on z3 terms alike (// and % are floor operations)."""
import os, z3

GREG, JUL, HEB, ISL, REV, PER, JG, CHI, MPER = 0, 1, 2, 3, 4, 5, 6, 7, 8
NAMES = {0: "Gregorian", 1: "Julian", 2: "Hebrew", 3: "Islamic", 4: "French Revolutionary", 5: "Persian (Jalali)",
         6: "Julian/Gregorian", 7: "Chinese", 8: "modern Persian"}
YR = 5800000            # |year| covered: day numbers of 32 bits
PER_LO, PER_HI = -1096, 2327


def fdiv(a, n):
    return a // n if isinstance(a, int) else a / n      # z3 Int '/' by a positive constant is floor


def tdivc(a, n):
    """C division (truncating)"""
    if isinstance(a, int): return -((-a) // n) if a < 0 else a // n
    return z3.If(a >= 0, a / n, -((-a) / n))


def If(c, a, b):
    if isinstance(c, bool): return a if c else b
    return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b)


def And(*x):
    if all(isinstance(c, bool) for c in x): return all(x)
    return z3.And(*x)


def Or(*x):
    if all(isinstance(c, bool) for c in x): return any(x)
    return z3.Or(*x)


def Not(x): return (not x) if isinstance(x, bool) else z3.Not(x)


# day numbers: JD of the noon of the day (1 Jan 2000 Gregorian = 2451545)
def heb_lun(y): return fdiv(235 * y - 234, 19)              # lunations before Tishri of year y
def heb_leap(y): return (7 * y + 1) % 19 < 7
def heb_molad(y): return 2 * 25920 + 5604 + 765433 * heb_lun(y)   # BaHaRaD, in halakim


def heb_delay(day, hal, leap, prevleap):
    """day (0 = Saturday of the molad count) and parts of the molad -> day of Rosh Hashanah (the four dehiyyot)"""
    wd = day % 7
    gatarad = And(wd == 3, hal >= 9 * 1080 + 204, Not(leap))
    betutakpat = And(wd == 2, hal >= 15 * 1080 + 589, prevleap)
    d1 = If(hal >= 18 * 1080, day + 1, day)
    w1 = d1 % 7
    d2 = If(Or(w1 == 1, w1 == 4, w1 == 6), d1 + 1, d1)
    return If(gatarad, day + 2, If(betutakpat, day + 1, d2))


_PB = [-708, -221, -3, 6, 394, 720, 786, 1145, 1635, 1701, 1866, 2328]
_PD = [1108, 1047, 984, 1249, 952, 891, 930, 866, 869, 844, 848, 852]
_RB = [-814, -492, -331, -108, 0, 144, 301, 487]
_RD = [405, 439, 498, 469, 419, 393, 322, 184, 92]


def start(cal, y):
    """day number of the first day of year y"""
    if cal == GREG:
        z = y - 1
        return 1721426 + 365 * z + fdiv(z, 4) - fdiv(z, 100) + fdiv(z, 400)
    if cal == JUL:
        z = y - 1
        return 1721424 + 365 * z + fdiv(z, 4)
    if cal == ISL: return 1948440 + 354 * (y - 1) + fdiv(11 * y + 3, 30)
    if cal == HEB:
        m = heb_molad(y)
        return 347996 + heb_delay(fdiv(m, 25920), m % 25920, heb_leap(y), heb_leap(y - 1))
    if cal == MPER:
        e = (y - 474) % 2820 + 474
        return 1948321 + 365 * (e - 1) + fdiv(31 * e - 5, 128) + fdiv(y - 474, 2820) * 1029983
    if cal == PER:
        r = start(MPER, y)
        for b, d, i in list(zip(_PB, _PD, range(12)))[::-1]:
            r = If(y < b, 1947955 + 365 * y + tdivc(d + 303 * y, 1250) - (1 if i < 3 else 0), r)
        return If(y < PER_LO, start(MPER, y), r)
    if cal == REV:
        r = 2375475 + 365 * y + tdivc(_RD[8] + 683 * y, 2820)
        for b, d, i in list(zip(_RB, _RD, range(8)))[::-1]:
            r = If(y < b, 2375475 + 365 * y + tdivc(d + 683 * y, 2820) - (1 if i < 5 else 0), r)
        return r
    raise KeyError(cal)


_G = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 0]
LENGTHS = {GREG: (365, 366), JUL: (365, 366), HEB: (353, 354, 355, 383, 384, 385), ISL: (354, 355), REV: (365, 366),
           PER: (365, 366), MPER: (365, 366)}


def table(cal, n):
    """month lengths of a year of n days"""
    if cal in (GREG, JUL): return _G[:1] + [28 + n - 365] + _G[2:]
    if cal == ISL: return [30, 29] * 5 + [30, 29 + n - 354, 0]
    if cal == REV: return [30] * 12 + [n - 360]
    if cal in (PER, MPER): return [31] * 6 + [30] * 5 + [n - 336, 0]
    leap = n > 380
    t = [30, 29, 30, 29, 30, 30 if leap else 29, 29 if leap else 0, 30, 29, 30, 29, 30, 29]
    k = n % 10
    if k == 3: t[2] = 29
    if k == 5: t[1] = 30
    return t


def mlen(cal, i, n):
    """length of month i (0-based) in a year of n days"""
    ls = LENGTHS[cal]
    if isinstance(n, int): return table(cal, n)[i] if n in ls else None
    r = z3.IntVal(table(cal, ls[-1])[i])
    for x in ls[:-1]: r = z3.If(n == x, z3.IntVal(table(cal, x)[i]), r)
    return r


# ------------------------------------------------------------------ Chinese (tabulated)
_chi = None
CHI_LO, CHI_N = -363, 10000


def chi_ref():
    global _chi
    if _chi is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "chinese.bin"), "rb") as f: _chi = f.read()
    return _chi


def chi_unpack(v, y):
    """(start, months) from a packed 24-bit record"""
    top = fdiv(v, 8192)
    inter = top % 14
    ms = [If(fdiv(v, 1 << i) % 2 == 1, 30, 29) for i in range(12)]
    ms.append(If(inter == 0, 0, If(fdiv(v, 4096) % 2 == 1, 30, 29)))
    return 757862 + 365 * y + tdivc(y, 4) + fdiv(top, 14), ms, inter


def chi_year(y):
    r = chi_ref(); i = 3 * (y - CHI_LO)
    return chi_unpack(int.from_bytes(r[i:i + 3], "little"), y)


def ref_year(cal, y):
    """(start, [13 month lengths]) or None when the calendar has no such year"""
    if cal == CHI:
        if not CHI_LO <= y < CHI_LO + CHI_N: return None
        s, m, _ = chi_year(y)
        return s, m
    if cal == PER and not PER_LO <= y <= PER_HI: return None
    s = start(cal, y); n = start(cal, y + 1) - s
    if n not in LENGTHS[cal]: raise AssertionError("reference rule broken: %s %d" % (NAMES[cal], y))
    return s, table(cal, n)


def ref_cal(cal, d, m, y):
    """calendar in force for a mixed Julian/Gregorian date (5-14 Oct 1582 do not exist)"""
    if cal != JG: return cal
    return GREG if (y, m, d) > (1582, 10, 5) else JUL


def ref_to_jd(cal, d, m, y):
    r = ref_year(ref_cal(cal, d, m, y), y)
    if r is None: return 0
    return r[0] + sum(r[1][:m - 1]) + d - 1


def approx(cal, jd):
    k = {JUL: (365.25, 1721058), ISL: (354.3666667, 1948086), HEB: (365.24682, 347998 - 365), CHI: (365.2422, 757862 + 10), REV: (365.24219, 2375475),
         PER: (365.24219, 1947955), MPER: (365.24219, 1947955)}.get(cal, (365.2425, 1721060))
    return int((jd - k[1]) // k[0])


def ref_to_dmy(cal, jd):
    c = cal if cal != JG else (GREG if jd > 2299160 else JUL)
    y = approx(c, jd)
    for yy in (y, y - 1, y + 1, y - 2, y + 2):
        r = ref_year(c, yy)
        if r is None: continue
        k = jd - r[0]
        if 0 <= k < sum(r[1]):
            for m, n in enumerate(r[1]):
                if k < n: return (k + 1, m + 1, yy)
                k -= n
    return None
