"""C01 / C02: calendar conversions (date.cpp)"""
import ctypes, random
from check import *
from calspec import *
import calspec as S

SRC = ["date.cpp"]
NM = 13
JDMAX = 2000000000
LONG = INT(64)


def years(cal):
    if cal == CHI: return CHI_LO, CHI_LO + CHI_N - 1
    if cal == PER: return PER_LO, PER_HI
    return -YR, YR


NYF = {}
FULL = {GREG: 2800, JUL: 28, ISL: 210, HEB: 7 * 98496, REV: 2820 * 7, PER: 1 << 20, MPER: 2820 * 7}   # all quotients eliminated
PERIOD = {GREG: 400, JUL: 4, ISL: 30, HEB: 19, REV: 2820, PER: -3430, MPER: 2820, CHI: 4}


def blocks(cal, lo, hi):
    """complete case split of the precondition lo <= year <= hi at the breaks of the tabulated rules"""
    if cal == PER: bs = [PER_LO] + S._PB
    elif cal == REV: bs = S._RB + [611]
    else: bs = []
    cuts = sorted({x for b in bs for x in (b - 2, b - 1, b, b + 1) if lo < x <= hi} | ({-12000, 12000} if cal not in (CHI, PER) else set()))
    out = []; a = lo
    for c in cuts:
        if c > a: out.append((a, c - 1)); a = c
    out.append((a, hi))
    return out


def NY(cal, y):
    """first day of the year as an uninterpreted function; its facts are the lemmas proved in unit 'lemma'"""
    f = NYF.get(cal)
    if f is None: f = NYF[cal] = z3.Function("NewYear_%d" % cal, z3.IntSort(), z3.IntSort())
    return f(y if z3.is_expr(y) else z3.IntVal(y))


# |DEN*NY(y) - (NUM*y + OFF)| <= TOL  (proved from the closed forms by the lemma units)
LIN = {GREG: (400, 146097), JUL: (4, 1461), ISL: (30, 10631), HEB: (98496, 35975351), REV: (2820, 1029983), PER: (2820, 1029983),
       MPER: (2820, 1029983)}


def lin_bounds(cal):
    """offset and tolerance of the linear law, measured on the reference rule over one full cycle and then proved for all
    years by the lemma unit"""
    den, num = LIN[cal]
    if cal == PER: ys = range(PER_LO - 1, PER_HI + 3)
    elif cal == REV: ys = list(range(-6000, 6000)) + [-YR - 3, YR + 3]
    elif cal == HEB: ys = range(-300, 300)
    else: ys = range(0, den + 1)
    v = [den * start(cal, y) - num * y for y in ys]
    lo, hi = min(v), max(v)
    if cal == HEB: lo -= den; hi += den
    return lo, hi


def ny_facts(ex, cal, y):
    """assumptions on NY(y), NY(y+1) justified by lemmas"""
    a = NY(cal, y); b = NY(cal, y + 1)
    out = []
    den, num = LIN[cal]
    lo, hi = lin_bounds(cal)
    for t, k in ((a, y), (b, y + 1)):
        out += [den * t - num * k >= lo, den * t - num * k <= hi]
    out.append(z3.Or([b - a == n for n in LENGTHS[cal]]))
    return out


def spec_year(ex, st, cal, y):
    """(NY(y), NY(y+1), [13 lengths]) as terms with ranges recorded"""
    a = NY(cal, y); b = NY(cal, y + 1)
    ex.setr(a, -(1 << 34), 1 << 34); ex.setr(b, -(1 << 34), 1 << 34)
    n = b - a
    ms = []
    for i in range(NM):
        v = mlen(cal, i, n)
        vs = sorted(set(table(cal, x)[i] for x in LENGTHS[cal]))
        if len(vs) == 1: v = vs[0]
        else: ex.setr(v, vs[0], vs[-1])
        ms.append(v)
    return a, b, ms


def calendar_contract(cal):
    """contract of get_calendar_data( year, days, month_data, calendar), proved by unit 'get_calendar_data'"""
    def h(ex, st, args, inst, fr):
        if len(args) != 4: return NotImplemented
        y, days, md, c = args
        if not isinstance(c, int) or c != cal: return NotImplemented
        yz = y if z3.is_expr(y) else z3.IntVal(y)
        lo, hi = years(cal)
        if cal == PER:
            inr = z3.And(yz >= lo, yz <= hi)
        else:
            inr = True
            ex.oblige(st, z3.And(yz >= lo - 2, yz <= hi + 2), "precondition of get_calendar_data: year in range", inst, kind="contract")
        for f in ny_facts(ex, cal, yz):
            st.pc = st.pc + ((f if inr is True else z3.Implies(inr, f)),)
        a, b, ms = spec_year(ex, st, cal, yz)
        ex.store(st, days, LONG, a, inst)
        ex.store(st, ex.padd(st, days, 8), LONG, b, inst)
        for i in range(NM): ex.store(st, ex.padd(st, md, i), INT(8), ms[i], inst)
        if inr is True: return 0
        r = z3.If(inr, z3.IntVal(0), z3.IntVal(-1)); ex.setr(r, -1, 0)
        return r
    return h


# ---------------------------------------------------------------- Hebrew helper contracts
def heb_contracts(ex):
    LUN = z3.Function("lun", z3.IntSort(), z3.IntSort()); LEAP = z3.Function("hleap", z3.IntSort(), z3.BoolSort())
    ex.heb = (LUN, LEAP)

    def leapf(ex, st, args, inst, fr):
        if len(args) != 1: return NotImplemented
        y = zi(args[0])
        r = z3.If(LEAP(y), z3.IntVal(1), z3.IntVal(0)); ex.setr(r, 0, 1)
        return r

    def tishri(ex, st, args, inst, fr):
        if len(args) != 3: return NotImplemented
        y = zi(args[0])
        d = ex.fresh("day", 64, -(1 << 33), 1 << 33); h = ex.fresh("hal", 64, 0, 25919)
        st.pc = st.pc + (25920 * d + h == 2 * 25920 + 5604 + 765433 * LUN(y),)
        ex.store(st, args[1], LONG, d, inst); ex.store(st, args[2], LONG, h, inst)
        ex.tish = getattr(ex, "tish", []) + [(y, d, h)]
        return None
    ex.contracts["is_hebrew_leap_year"] = leapf
    ex.contracts["find_tishri_1"] = tishri
    return LUN, LEAP


class Cal(Check):
    assumptions = [
        "C 'long' is 64 bits (LP64), 'int' 32 bits, 'char' signed: the ABI of this build",
        "calendar tables of the French Revolutionary (equinox) and Persian rules, and the packed Chinese data, are the published ones "
        "(their own astronomical correctness is not at issue)",
        "years beyond +/-5.8 million (day numbers beyond 32 bits) are outside the documented domain",
        "memset/memcpy behave as in ISO C",
    ]

    def setup(s):
        s.prog = P = Program(SRC)
        both = set(P.reach(["day_to_dmy"])) & set(P.reach(["dmy_to_day"]))
        P.role("get_calendar_data", "i32(i64,ptr,ptr,i32)", ["day_to_dmy"], ok=lambda f: f.name in both)
        P.role("find_tishri_1", "void(i64,ptr,ptr)", ["day_to_dmy"], ok=s.is_molad_like)
        P.role("is_hebrew_leap_year", "i32(i64)", ["day_to_dmy"], ok=s.is_leap_like)
        s.nat = None

    def is_leap_like(s, f):
        """does this function look like the Hebrew leap-year test?"""
        n = 0
        for y in range(1, 20):
            try: v, _ = Ctx("quick").executor(s.prog).call_fn(f, [y], State())
            except Exception: return False
            n += isinstance(v, int) and v == int((7 * y + 1) % 19 < 7)
        return n >= 13

    def is_molad_like(s, f):
        n = 0
        for y in (1, 2, 5000, 5700, 5784, -30, 9000):
            try:
                ex = Ctx("quick").executor(s.prog); st = State(); d = ex.new_obj(st, "d", 8); h = ex.new_obj(st, "h", 8)
                _, st = ex.call_fn(f, [y, d, h], st); v = 25920 * ex.load(st, d, LONG) + ex.load(st, h, LONG)
            except Exception: return False
            n += isinstance(v, int) and v == 2 * 25920 + 5604 + 765433 * ((235 * (y - 1) + 1) // 19)
        return n >= 4

    def native(s):
        if s.nat is None:
            L = native.build(SRC, "cal")
            L.dmy_to_day.restype = ctypes.c_long
            L.dmy_to_day.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
            L.days_in_month.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
            L.day_to_dmy.argtypes = [ctypes.c_long, ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_long), ctypes.c_int]
            L.day_to_dmy.restype = None
            L.get_chinese_intercalary_month.argtypes = []
            s.nat = L
        return s.nat

    def n_to_dmy(s, jd, cal):
        L = s.native(); d, m = ctypes.c_int(-77), ctypes.c_int(-77); y = ctypes.c_long(0)
        L.day_to_dmy(jd, ctypes.byref(d), ctypes.byref(m), ctypes.byref(y), cal)
        return d.value, m.value, y.value

    # ------------------------------------------------------------ native oracles
    def bad_jd(s, jd, cal):
        exp = ref_to_dmy(cal, jd)
        got = s.n_to_dmy(jd, cal)
        if exp is None:
            if got[0] != -1: return {"input": {"day_to_dmy jd": jd, "calendar": NAMES[cal]}, "expected": "no such date (day -1)", "observed": got}
            return None
        if got != exp: return {"input": {"day_to_dmy jd": jd, "calendar": NAMES[cal]}, "expected": exp, "observed": got}
        back = s.native().dmy_to_day(got[0], got[1], got[2], cal)
        if back != jd: return {"input": {"jd": jd, "calendar": NAMES[cal]}, "expected": "round trip to %d" % jd, "observed": back}

    def bad_date(s, d, m, y, cal):
        exp = ref_to_jd(cal, d, m, y)
        got = s.native().dmy_to_day(d, m, y, cal)
        if got != exp: return {"input": {"dmy_to_day": (d, m, y), "calendar": NAMES[cal]}, "expected": exp, "observed": got}
        if cal != JG:
            r = ref_year(cal, y); e = r[1][m - 1] if r else 0
            g = s.native().days_in_month(m, y, cal)
            if g != e: return {"input": {"days_in_month": (m, y), "calendar": NAMES[cal]}, "expected": e, "observed": g}
            if cal == CHI and r:
                e = int(chi_year(y)[2]); e = e + 1 if e else 0
                s.native().dmy_to_day(d, m, y, cal)
                g = s.native().get_chinese_intercalary_month()
                if g != e: return {"input": {"get_chinese_intercalary_month after year": y}, "expected": e, "observed": g}

    def replay_date(s, cal):
        def f(m):
            y, mo, d = m.get("year", 0), m.get("month", 1), m.get("day", 1)
            if not 1 <= mo <= 13: return None
            r = native.guarded(lambda: s.bad_date(d, mo, y, cal), 20)
            if r[0] == "ok": return r[1]
            return {"input": {"date": (d, mo, y), "calendar": NAMES[cal]}, "observed": r}
        return f

    def replay_jd(s, cal):
        def f(m):
            jd = m.get("jd", 0)
            r = native.guarded(lambda: s.bad_jd(jd, cal), 20)
            if r[0] == "ok": return r[1]
            return {"input": {"jd": jd, "calendar": NAMES[cal]}, "observed": r}
        return f

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            k = 0
            cals = list(NAMES)
            # exhaustive band around the present, split between the workers, then random over the whole domain
            for cal in cals:
                lo, hi = years(cal if cal != JG else GREG)
                for y in list(range(max(lo, -1200) + slot, min(hi, 3600) + 1, n)) + list(range(max(lo, -5000) + slot, min(hi, 10500) + 1, n * 7)):
                    if time.time() > end: return None
                    note(("year", y, cal))
                    for m in range(1, 14):
                        for d in (1, 28):
                            r = s.bad_date(d, m, y, cal)
                            if r: return r
                    ry = ref_year(ref_cal(cal, 1, 1, y), y)
                    if ry:
                        for jd in (ry[0] - 1, ry[0], ry[0] + 40, ry[0] + sum(ry[1]) - 1):
                            r = s.bad_jd(jd, cal)
                            if r: return r
            for jd in range(2299100, 2299200):
                note(("jd", jd)); r = s.bad_jd(jd, JG)
                if r: return r
            while time.time() < end:
                for _ in range(200):
                    cal = rng.choice(cals)
                    lo, hi = years(cal if cal != JG else GREG)
                    y = rng.randint(lo, hi) if rng.random() < .7 else rng.randint(max(lo, -100000), min(hi, 100000))
                    m = rng.randint(1, 13); d = rng.randint(1, 31)
                    note(("date", d, m, y, cal))
                    r = s.bad_date(d, m, y, cal)
                    if r: return r
                    jd = ref_to_jd(cal, d, m, y)
                    note(("jd", jd, cal))
                    r = s.bad_jd(jd, cal)
                    if r: return r
            return None
        return w

    # ------------------------------------------------------------ units
    def u_lemma(s, cal):
        """facts about the reference rule used by the contracts: year lengths, linear law; hence start() is strictly
        increasing and the year intervals tile the day line"""
        def gen(ctx):
            ex = ctx.executor(s.prog)
            lo, hi = years(cal)
            y = ex.input_int("year", 64, lo - 3 if cal != PER else lo, hi + 3 if cal != PER else hi)
            ex.split = [(y, PERIOD[cal])]; ex.split_base = PER_LO - 3 if cal == PER else 0
            st = State()
            a, b = None, None
            if cal == HEB:
                # through the molad: M(y+1) - M(y) is 12 or 13 lunations according to leap(y)
                l0, l1 = heb_lun(y), heb_lun(y + 1)
                ex.oblige(st, l1 - l0 == z3.If(heb_leap(y), z3.IntVal(13), z3.IntVal(12)), "13 lunations in leap years, 12 in others", where="lemma", kind="lemma")
                ex.oblige(State(), z3.Not(z3.And(heb_leap(y), heb_leap(y + 1))), "no two consecutive leap years", where="lemma", kind="lemma")
                ex2 = ctx.executor(s.prog)
                d = ex2.input_int("d", 64, -(1 << 33), 1 << 33); h = ex2.input_int("h", 64, 0, 25919)
                p, q, r = z3.Bools("leap_prev leap leap_next")
                for lv in (True, False):
                    L = 765433 * (13 if lv else 12)
                    t = h + L
                    d1 = d + t / 25920; h1 = t % 25920
                    st = State()
                    st.pc = ((z3.Not(p), z3.Not(r)) if lv else ())
                    n = heb_delay(d1, h1, r, z3.BoolVal(lv)) - heb_delay(d, h, z3.BoolVal(lv), p)
                    ex2.oblige(st, z3.Or([n == x for x in (LENGTHS[HEB][3:] if lv else LENGTHS[HEB][:3])]), "year length allowed (leap=%s)" % lv, where="lemma", kind="lemma")
                den, num = LIN[cal]
                blo, bhi = lin_bounds(cal)
                dd = z3.Int("dd"); hh = z3.Int("hh"); l = z3.Int("l")
                st = State(); st.pc = (25920 * dd + hh == 2 * 25920 + 5604 + 765433 * l, hh >= 0, hh < 25920, 19 * l <= 235 * y - 234, 19 * l >= 235 * y - 252)
                for k in (0, 1, 2):
                    ex.oblige(st, z3.And(den * (347996 + dd + k) - num * y >= blo, den * (347996 + dd + k) - num * y <= bhi), "linear law, postponed %d" % k, where="lemma", kind="lemma")
                ex.oblige(State(), z3.And(19 * heb_lun(y) <= 235 * y - 234, 19 * heb_lun(y) >= 235 * y - 252), "lunation count", where="lemma", kind="lemma")
                d3 = z3.Int("d3"); h3 = z3.Int("h3")
                dl = heb_delay(d3, h3, q, p) - d3
                st = State(); st.pc = (h3 >= 0, h3 < 25920)
                ex.oblige(st, z3.And(dl >= 0, dl <= 2), "postponement of 0, 1 or 2 days", where="lemma", kind="lemma")
                return
            den, num = LIN[cal]
            blo, bhi = lin_bounds(cal)
            ctx.exs.clear()
            for l1, h1 in blocks(cal, lo if cal == PER else lo - 3, hi if cal == PER else hi + 3):
              ex = ctx.executor(s.prog); ex.split = [(y, PERIOD[cal])]; ex.split_base = PER_LO - 3 if cal == PER else 0
              y = ex.input_int("year", 64, l1, h1); ex.period = (y, FULL[cal], l1, h1)
              a = start(cal, y); b = start(cal, y + 1)
              st = State()
              ex.oblige(st, z3.Or([b - a == n for n in LENGTHS[cal]]), "year length allowed", where="lemma", kind="lemma")
              for g, w in ((den * a - num * y >= blo, "lower"), (den * a - num * y <= bhi, "upper")):
                ex.oblige(State(), g, "linear law, %s bound" % w, where="lemma", kind="lemma")
              if cal == PER:
                for g in (den * b - num * (y + 1) >= blo, den * b - num * (y + 1) <= bhi):
                    ex.oblige(State(), g, "linear law at the end of the table", where="lemma", kind="lemma")
            for n in LENGTHS[cal]:
                assert sum(table(cal, n)) == n
                ctx.ground += 1
        return Unit("lemma: %s rule" % NAMES[cal], gen, fns=())

    def u_fwd(s, cal, what):
        """dmy_to_day / days_in_month == reference rule for all dates"""
        def gen(ctx):
            lo, hi = years(cal)
            for l1, h1 in blocks(cal, lo if cal in (CHI,) else lo - 2, hi if cal in (CHI,) else hi + 2):
                ex = ctx.executor(s.prog, solver_ms=8000)
                if cal == HEB: ex.branch_ms = 60
                y = ex.input_int("year", 64, l1, h1)
                ex.split = [(y, PERIOD[cal])]; ex.split_base = PER_LO - 3 if cal == PER else 0
                if cal != CHI: ex.period = (y, FULL[cal], l1, h1)
                st = State()
                mo = ex.input_int("month", 32, 1, 13); da = ex.input_int("day", 32, -998, 1000000)
                pre = []
                if what == "dmy_to_day":
                    v, s2 = ex.call_fn(s.prog.get(what), [da, mo, y, cal], st)
                else:
                    v, s2 = ex.call_fn(s.prog.get(what), [mo, y, cal], st)
                if s2 is None:
                    ex.oblige(st, False, what + " returns", where="date.cpp"); continue
                ctx.cover(ex, s2, what + " returns")
                if cal == CHI:
                    a, ms, inter = s.chi_terms(ex, y)
                else:
                    a = start(cal, y); b = start(cal, y + 1)
                    ms = [mlen(cal, i, b - a) for i in range(NM)]
                    s2.pc = s2.pc + (z3.Or([b - a == x for x in LENGTHS[cal]]),)
                cum = a; exp = None; cums = []
                for i in range(NM):
                    cums.append(cum); cum = cum + ms[i]
                if what == "dmy_to_day":
                    for i in range(NM):
                        st3 = State(s2.pc + (mo == i + 1,)); 
                        r = zi(v) == cums[i] + da - 1
                        if cal == PER: r = z3.If(z3.And(y >= PER_LO, y <= PER_HI), r, zi(v) == 0)
                        ex.oblige(st3, r, "dmy_to_day, %s month %d: the day number follows the calendar's rule" % (NAMES[cal], i + 1), where="date.cpp (dmy_to_day)", kind="post")
                else:
                    for i in range(NM):
                        st3 = State(s2.pc + (mo == i + 1,))
                        r = zi(v) == ms[i]
                        if cal == PER: r = z3.If(z3.And(y >= PER_LO, y <= PER_HI), r, zi(v) == 0)
                        ex.oblige(st3, r, "days_in_month, %s month %d: length follows the calendar's rule" % (NAMES[cal], i + 1), where="date.cpp (days_in_month)", kind="post")
                if cal == CHI:
                    g = s2.mem.get("@date.cpp:_ZL25chinese_intercalary_month")
                    s.chi_post(ex, s2, inter)
        return Unit("%s [%s]" % (what, NAMES[cal]), gen, replay=s.replay_date(cal), fns=[what], timeout=60)

    def chi_terms(s, ex, y):
        f = next(iter(ex.table_fn.values()), None)
        if f is None: raise Undecided("the Chinese data are not read from a constant table")
        off = 4 + 3 * (y - CHI_LO)
        bs = [f(off), f(off + 1), f(off + 2)]
        u = [z3.If(b < 0, b + 256, b) for b in bs]
        for b in bs: ex.axioms.append(z3.And(b >= -128, b <= 127))
        v = u[0] + 256 * u[1] + 65536 * u[2]
        return chi_unpack(v, y)

    def chi_post(s, ex, s2, inter):
        fn = s.prog.get("get_chinese_intercalary_month", False)
        if fn is None: return
        v, s3 = ex.call_fn(fn, [], s2.fork())
        ex.oblige(s3, zi(v) == z3.If(inter == 0, z3.IntVal(0), inter + 1), "intercalary month reported for the year just converted",
                  where="date.cpp (get_chinese_intercalary_month)", kind="post")

    def u_chi_data(s):
        def gen(ctx):
            # the table of the working tree, as compiled, against the published records; and the data lemma on the records
            ex = ctx.executor(s.prog)
            st = State()
            m = s.prog.get("dmy_to_day").mod
            name = None
            for n in m.globals:
                info = m.global_info(n)
                if info[0].k == "arr" and info[0].n == 4 + 3 * CHI_N and info[0].el.size == 1: name = n
            if name is None: raise Undecided("no packed Chinese table of the published size")
            p = ex.glob(st, name, m)
            o = st.mem[p.obj]
            b = [o.cells[i][1] & 255 for i in range(o.size)]
            bad = []
            if b[0] + 256 * b[1] != CHI_N or canon(b[2] + 256 * b[3], 16) != CHI_LO: bad.append(("header", b[:4]))
            prev = None
            for k in range(CHI_N):
                y = CHI_LO + k
                v = b[4 + 3 * k] | b[5 + 3 * k] << 8 | b[6 + 3 * k] << 16
                stt, ms, inter = chi_unpack(v, y)
                rs, rm, ri = chi_year(y)
                n = sum(ms)
                if (stt, ms, inter) != (rs, rm, ri): bad.append((y, "differs from the published record")); 
                if prev is not None and stt != prev: bad.append((y, "does not start where year %d ends" % (y - 1)))
                if (n not in (353, 354, 355)) if not inter else (n not in (383, 384, 385)): bad.append((y, "length %d" % n))
                ctx.ground += 3
                prev = stt + n
            for x in bad[:5]:
                ctx.failed.append({"unit": "Chinese data", "name": "packed record of year %s: %s" % x, "where": "chinese.h", "status": "sat", "kind": "data",
                                   "model": {"year": x[0] if isinstance(x[0], int) else CHI_LO, "month": 1, "day": 1}, "goal": "", "backend": "ground", "tags": None})
            ctx.covers += 1

        def rp(m):
            for mo in range(1, 14):
                r = s.replay_date(CHI)({"year": m["year"], "month": mo, "day": 1})
                if r: return r
            r0 = ref_year(CHI, m["year"])
            for jd in range(r0[0] - 3, r0[0] + 390):
                r = s.replay_jd(CHI)({"jd": jd})
                if r: return r
        return Unit("Chinese data", gen, replay=rp, fns=["chinese_calendar_data"])

    def u_heb_helpers(s):
        def gen(ctx):
            fn = s.prog.get("find_tishri_1", False); lf = s.prog.get("is_hebrew_leap_year", False)
            if fn is None and lf is None: ctx.ground += 1; return
            if fn is not None:
                ex = ctx.executor(s.prog)
                y = ex.input_int("year", 64, -YR - 5, YR + 5)
                ex.split = [(y, 19)] if lf is None or ex is not ctx.exs[0] else [(y, 19 * 25920)]
                st = State()
                d = ex.new_obj(st, "day", 8); h = ex.new_obj(st, "hal", 8)
                v, s2 = ex.call_fn(fn, [y, d, h], st)
                dv = ex.load(s2, d, LONG); hv = ex.load(s2, h, LONG)
                ctx.cover(ex, s2, "find_tishri_1")
                ex.oblige(s2, z3.And(hv >= 0, hv < 25920), "parts of a day in range", where="find_tishri_1", kind="post")
                ex.oblige(s2, 25920 * dv + hv == heb_molad(y), "molad = epoch + 765433 parts per lunation", where="find_tishri_1", kind="post")
                ex.oblige(s2, z3.And(dv > -(1 << 33), dv < 1 << 33), "day count in range", where="find_tishri_1", kind="post")
            if lf is not None:
                ex = ctx.executor(s.prog)
                y = ex.input_int("year", 64, -YR - 5, YR + 5)
                ex.split = [(y, 19)] if lf is None or ex is not ctx.exs[0] else [(y, 19 * 25920)]
                v, s2 = ex.call_fn(lf, [y], State())
                ex.oblige(s2, (zi(v) == z3.If(heb_leap(y), z3.IntVal(1), z3.IntVal(0))), "leap years are 3,6,8,11,14,17,19 of the 19-year cycle", where="is_hebrew_leap_year", kind="post")
                ctx.cover(ex, s2, "leap")
        return Unit("Hebrew helpers", gen, replay=s.replay_date(HEB), fns=["find_tishri_1", "is_hebrew_leap_year", "lunations_to_tishri_1", "lunations_to_days_and_halakim"])

    def u_back(s, cal, sub=None):
        """day_to_dmy: terminates, and the date it returns is the one whose year interval contains the day"""
        def gen(ctx):
            c = cal if sub is None else sub
            ex = ctx.executor(s.prog, solver_ms=30000, loop_limit=20)
            lo, hi = -JDMAX, JDMAX
            if cal == JG:
                if c == GREG: lo = 2299161
                else: hi = 2299160
            jd = ex.input_int("jd", 64, lo, hi)
            st = State()
            d = ex.new_obj(st, "day", 4); m = ex.new_obj(st, "month", 4); y = ex.new_obj(st, "year", 8)
            h = calendar_contract(c) if c != CHI else s.chi_contract()
            ex.contracts["get_calendar_data"] = h
            v, s2 = ex.call_fn(s.prog.get("day_to_dmy"), [jd, d, m, y, cal], st)
            if s2 is None:
                ex.oblige(st, False, "day_to_dmy returns", where="date.cpp"); return
            ctx.cover(ex, s2, "day_to_dmy returns")
            dv, mv, yv = ex.load(s2, d, INT(32)), ex.load(s2, m, INT(32)), ex.load(s2, y, LONG)
            yz = zi(yv)
            if c == CHI:
                a, ms, inr = ex.chi_ny(yz), [ex.chi_m(i, yz) for i in range(NM)], z3.And(yz >= CHI_LO, yz < CHI_LO + CHI_N)
                first, last = chi_year(CHI_LO)[0], chi_year(CHI_LO + CHI_N - 1)[0] + sum(chi_year(CHI_LO + CHI_N - 1)[1])
            else:
                a, b, ms = spec_year(ex, s2, c, yz)
                if "get_calendar_data" not in ex.stats["contract_calls"]:
                    # code shape without the helper: tie the abstract rule to its closed form
                    for k in (-1, 0, 1, 2): s2.pc = s2.pc + (NY(c, yz + k) == start(c, yz + k),)
                if c == PER: inr = z3.And(yz >= PER_LO, yz <= PER_HI); first, last = start(PER, PER_LO), start(PER, PER_HI + 1)
                else: inr, first, last = True, None, None
            ok = zi(dv) != -1
            hyp = s2.pc
            if first is not None:
                out = z3.Or(jd < first, jd >= last)
                hyp = hyp + (z3.Not(out),)
                st3 = State(s2.pc + (out,))
                ex.oblige(st3, zi(dv) == -1, "a day outside the tabulated span is reported as such", where="date.cpp (day_to_dmy)", kind="post")
            cum = a
            ex.oblige(State(hyp), z3.And(zi(mv) >= 1, zi(mv) <= 13), "month in 1..13", where="date.cpp (day_to_dmy)", kind="post")
            for i in range(NM):
                st3 = State(hyp + (zi(mv) == i + 1,))
                ex.oblige(st3, z3.And(zi(dv) >= 1, zi(dv) <= ms[i]), "%s: day of month %d within the month" % (NAMES[c], i + 1), where="date.cpp (day_to_dmy)", kind="post")
                ex.oblige(st3, cum + zi(dv) - 1 == jd, "%s: date in month %d denotes the day asked for" % (NAMES[c], i + 1), where="date.cpp (day_to_dmy)", kind="post")
                cum = cum + ms[i]
            ctx.notes.append("loop of day_to_dmy proved to end within %s passes" % ex.stats["unroll"])
        return Unit("day_to_dmy [%s%s]" % (NAMES[cal], "" if sub is None else " as " + NAMES[sub]), gen, replay=s.replay_jd(cal), fns=["day_to_dmy", "approx_year"], timeout=60)

    def chi_contract(s):
        N = z3.Function("NewYear_7", z3.IntSort(), z3.IntSort()); M = [z3.Function("M7_%d" % i, z3.IntSort(), z3.IntSort()) for i in range(NM)]
        # linear law over the table, by ground evaluation
        v = [128 * chi_year(y)[0] - 46751 * y for y in range(CHI_LO, CHI_LO + CHI_N)]
        yl = CHI_LO + CHI_N - 1
        v.append(128 * (chi_year(yl)[0] + sum(chi_year(yl)[1])) - 46751 * (yl + 1))
        lo, hi = min(v), max(v)

        def h(ex, st, args, inst, fr):
            if len(args) != 4: return NotImplemented
            y, days, md, c = args
            if c != CHI: return NotImplemented
            yz = zi(y)
            inr = z3.And(yz >= CHI_LO, yz < CHI_LO + CHI_N)
            a, b = N(yz), N(yz + 1)
            ex.setr(a, -(1 << 34), 1 << 34); ex.setr(b, -(1 << 34), 1 << 34)
            ms = [M[i](yz) for i in range(NM)]
            fs = [z3.Or(x == 29, x == 30) for x in ms[:12]] + [z3.Or(ms[12] == 0, ms[12] == 29, ms[12] == 30)]
            fs += [b - a == z3.Sum(ms), z3.Or([b - a == n for n in (353, 354, 355, 383, 384, 385)])]
            for t, k in ((a, yz), (b, yz + 1)): fs += [128 * t - 46751 * k >= lo, 128 * t - 46751 * k <= hi]
            first = chi_year(CHI_LO)[0]; last = chi_year(yl)[0] + sum(chi_year(yl)[1])
            fs += [z3.Implies(yz == CHI_LO, a == first), z3.Implies(yz == yl, b == last), a >= first, b <= last]
            st.pc = st.pc + tuple(z3.Implies(inr, f) for f in fs)
            for x in ms: ex.setr(x, -128, 127)
            ex.store(st, days, LONG, a, inst); ex.store(st, ex.padd(st, days, 8), LONG, b, inst)
            for i in range(NM): ex.store(st, ex.padd(st, md, i), INT(8), ms[i], inst)
            ex.chi_ny = N; ex.chi_m = lambda i, y: M[i](y)
            r = z3.If(inr, z3.IntVal(0), z3.IntVal(-2)); ex.setr(r, -2, 0)
            return r
        return h

    def u_contract(s, cal):
        """get_calendar_data meets the contract used for day_to_dmy"""
        def gen(ctx):
            fn = s.prog.get("get_calendar_data", False)
            if fn is None or len(fn.params) != 4: ctx.ground += 1; ctx.notes.append("helper absent: day_to_dmy is verified with everything inlined"); return
            lo, hi = years(cal)
            for l1, h1 in blocks(cal, lo - 2, hi + 2): one(ctx, fn, lo, hi, l1, h1)

        def one(ctx, fn, lo, hi, l1, h1):
            ex = ctx.executor(s.prog, solver_ms=8000)
            if cal == HEB: ex.branch_ms = 60
            y = ex.input_int("year", 64, l1, h1)
            ex.split = [(y, PERIOD[cal])]; ex.split_base = PER_LO - 3 if cal == PER else 0
            st = State()
            days = ex.new_obj(st, "days", 16); md = ex.new_obj(st, "month_data", NM)
            if cal != CHI: ex.period = (y, FULL[cal], l1, h1)
            v, s2 = ex.call_fn(fn, [y, days, md, cal], st)
            if s2 is None: ex.oblige(st, False, "get_calendar_data returns", where="date.cpp"); return
            ctx.cover(ex, s2, "get_calendar_data returns")
            inr = True if cal not in (PER, CHI) else z3.And(y >= lo, y <= hi)
            if inr is not True:
                ex.oblige(s2, (zi(v) == 0) == inr, "year outside the table is refused, inside accepted", where="get_calendar_data", kind="post")
            else: ex.oblige(s2, zi(v) == 0, "year accepted", where="get_calendar_data", kind="post")
            s3 = State(s2.pc if inr is True else s2.pc + (inr,), s2.mem, s2.env)
            d0, d1 = ex.load(s3, days, LONG), ex.load(s3, ex.padd(s3, days, 8), LONG)
            mv = [ex.load(s3, ex.padd(s3, md, i), INT(8)) for i in range(NM)]
            if cal == CHI:
                a, ms, inter = s.chi_terms(ex, y)
                b = a + z3.Sum(ms)
            else:
                a = start(cal, y); b = start(cal, y + 1)
                ms = [mlen(cal, i, b - a) for i in range(NM)]
                s3.pc = s3.pc + (z3.Or([b - a == x for x in LENGTHS[cal]]),)
            for i in range(NM):
                ex.oblige(State(s3.pc), zi(mv[i]) == ms[i], "length of month %d" % (i + 1), where="get_calendar_data", kind="post")
            ex.oblige(State(s3.pc), zi(d0) == a, "first day of the year", where="get_calendar_data", kind="post")
            ex.oblige(State(s3.pc), zi(d1) == b, "first day of the next year", where="get_calendar_data", kind="post")
        return Unit("get_calendar_data [%s]" % NAMES[cal], gen, replay=s.replay_date(cal), fns=["get_calendar_data", "get_*_year_data"], timeout=60)

    def sanity(s):
        L = s.native(); rng = random.Random(7 + s.seed); n = 0
        for k in range(600 if s.tier == "quick" else 20000):
            cal = rng.randrange(9)
            lo, hi = years(cal if cal != JG else GREG)
            y = rng.randint(lo, hi); m = rng.randint(1, 13); d = rng.randint(1, 31)
            r = s.bad_date(d, m, y, cal) or s.bad_jd(ref_to_jd(cal, d, m, y), cal)
            n += 2
            if r: return n, r
        return n, None


    def units_back(s):
        us = []
        for cal in (HEB, GREG, JUL, ISL, REV, PER, MPER, CHI):
            us.append(s.u_back(cal)); us.append(s.u_contract(cal))
            if cal != CHI: us.append(s.u_lemma(cal))
        return us + [s.u_back(JG, GREG), s.u_back(JG, JUL), s.u_chi_data(), s.u_jg()]

    def u_jg(s):
        """mixed calendar: dmy_to_day chooses the rule by date; together with the split of day_to_dmy at 1582 Oct 15 the round
        trip holds for every date that exists"""
        def gen(ctx):
            for c, nm in ((GREG, "after"), (JUL, "before")):
                ex = ctx.executor(s.prog)
                y = ex.input_int("year", 64, -YR, YR); ex.split = [(y, 400)]; mo = ex.input_int("month", 32, 1, 12); da = ex.input_int("day", 32, 1, 31)
                late = z3.Or(y > 1582, z3.And(y == 1582, mo > 10), z3.And(y == 1582, mo == 10, da >= 15))
                early = z3.Or(y < 1582, z3.And(y == 1582, mo < 10), z3.And(y == 1582, mo == 10, da < 5))
                st = State((late if c == GREG else early,))
                v, s2 = ex.call_fn(s.prog.get("dmy_to_day"), [da, mo, y, JG], st)
                ctx.cover(ex, s2, "mixed calendar " + nm)
                a = start(c, y); b = start(c, y + 1); cum = a
                s2.pc = s2.pc + (z3.Or(b - a == 365, b - a == 366),)
                for i in range(12):
                    ex.oblige(State(s2.pc + (mo == i + 1,)), zi(v) == cum + da - 1, "mixed calendar uses the %s rule %s the switch (month %d)" % (NAMES[c], nm, i + 1), where="date.cpp (dmy_to_day)", kind="post")
                    cum = cum + mlen(c, i, b - a)
        return Unit("dmy_to_day [mixed calendar]", gen, replay=s.replay_date(JG), fns=["dmy_to_day"])


class C01(Cal):
    id = "C01"; title = "Calendar conversions round-trip for every day and every date"

    def units(s): return s.units_back() + [s.u_heb_helpers()]


class C02(Cal):
    id = "C02"; title = "Each calendar follows its own rule of years, months and leap years"

    def units(s):
        us = []
        for cal in (HEB, REV, PER, GREG, JUL, ISL, MPER, CHI):
            us += [s.u_fwd(cal, w) for w in ('dmy_to_day', 'days_in_month')]
        return us + s.units_back()


CHECKS = {"C01": C01, "C02": C02}
