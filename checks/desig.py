"""C05 (mutant hex) and C06 (packed MPC designations): mpc_fmt.cpp, unpack.cpp.

The packed form is specified here from the MPC's description of its scheme (PackedDes.html, MPEC 2019-O55), byte by byte,
for each family of designations; the code is proved to produce exactly these bytes and to read them back."""
import ctypes
from check import *
from calspec import If, And, Or

SRC = ["mpc_fmt.cpp", "unpack.cpp", "snprintf.cpp"]
NAT = ["mpc_fmt.cpp", "unpack.cpp", "snprintf.cpp", "date.cpp", "miscell.cpp", "mpc_code.cpp"]
AP, AN, CP, CN, NP, NN, ART, OTHER = 0, 1, 2, 3, 4, 5, 6, -1


def dv(a, n): return a // n if isinstance(a, int) else a / n


def hx(v): return If(v < 10, v + 48, If(v < 36, v + 55, v + 61))


def q10(ds, v):
    """(n / 10, n % 10) of the number with digits ds"""
    x = [v[d] for d in ds]
    return (horner(x[:-1]) if len(x) > 1 else 0), (x[-1] if x else 0)


def lt(i):
    """letter number i of the alphabet without 'I'"""
    return If(i < 8, i + 65, i + 66)


def S(t): return [ord(c) for c in t]


def digits(v, k): return [dv(v, 10 ** (k - 1 - i)) % 10 + 48 if k - 1 - i else v % 10 + 48 for i in range(k)]


def horner(ds, base=10):
    r = 0
    for d in ds: r = r * base + d if not (isinstance(r, int) and r == 0) else d
    return r


class Fam:
    """vars: [(name, lo, hi)]; f(dict)-> (name bytes, packed bytes, type); pre(dict) -> constraint"""
    def __init__(s, id, mode, vars, f, pre=None):
        s.id = id; s.mode = mode; s.vars = vars; s.f = f; s.pre = pre


def D(*names, lead=True):
    return [(n, 1 if lead and i == 0 else 0, 9) for i, n in enumerate(names)]


def families():
    F = []

    def both(id, vars, f, pre=None):
        F.append(Fam(id, "pack", vars, f, pre)); F.append(Fam(id, "unpack", vars, f, pre))
    # --- numbered minor planets
    for k in range(1, 7):
        ds = ["d%d" % i for i in range(k)]

        def f(v, k=k, ds=ds, par=True):
            n = horner([v[d] for d in ds[:-4]]); nm = [v[d] + 48 for d in ds]
            return (S("(") + nm + S(")") if par else nm), [hx(n)] + S("0" * (4 - k)) + nm[-4:] + S(" " * 7), AN
        pre = (lambda v, ds=ds: horner([v[d] for d in ds]) < 620000) if k == 6 else None
        both("numbered %d digits" % k, D(*ds), f, pre)
        if k >= 5: F.append(Fam("bare number %d digits" % k, "pack", D(*ds), lambda v, f=f: f(v, par=False), pre))

    def tilde(n): return S("~") + [hx(dv(n - 620000, 62 ** (3 - i)) % 62) for i in range(4)] + S(" " * 7)
    for k, pre in ((6, lambda n: n >= 620000), (7, None), (8, lambda n: n <= 15396335)):
        ds = ["d%d" % i for i in range(k)]
        vs = D(*ds)
        if k == 8: vs[0] = ("d0", 1, 1); vs[1] = ("d1", 0, 5)
        if k == 6: vs[0] = ("d0", 6, 9)

        def f(v, ds=ds, par=True):
            n = horner([v[d] for d in ds]); nm = [v[d] + 48 for d in ds]
            return (S("(") + nm + S(")") if par else nm), tilde(n), AN
        p = (lambda v, ds=ds, pre=pre: pre(horner([v[d] for d in ds]))) if pre else None
        F.append(Fam("extended number %d digits" % k, "pack", vs, f, p))
        if k == 6: F.append(Fam("bare extended number", "pack", vs, lambda v, f=f: f(v, par=False), p))
    for k, lo, hi in ((6, 620000, 999999), (7, 1000000, 9999999), (8, 10000000, 15396335)):
        hv = [("h%d" % i, 0, 61) for i in range(4)]

        def f(v, k=k):
            h = [v["h%d" % i] for i in range(4)]
            return S("(") + digits(620000 + horner(h, 62), k) + S(")"), S("~") + [hx(x) for x in h] + S(" " * 7), AN
        F.append(Fam("extended number %d digits" % k, "unpack", hv, f, lambda v, lo=lo, hi=hi: And(620000 + horner([v["h%d" % i] for i in range(4)], 62) >= lo, 620000 + horner([v["h%d" % i] for i in range(4)], 62) <= hi)))
    # --- provisional designations
    for cen in (16, 17, 18, 19, 20):
        for k in range(0, 4):
            ds = ["n%d" % i for i in range(k)]

            def f(v, cen=cen, k=k, ds=ds, head="", t=AP):
                a, b = q10(ds, v)
                y = [v["y2"] + 48, v["y3"] + 48]
                return (S(head) + S(str(cen)) + y + S(" ") + [lt(v["H"]), lt(v["L"])] + [v[d] + 48 for d in ds],
                        S("    " + (head[0] if head else " ")) + [hx(cen)] + y + [lt(v["H"]), hx(a), b + 48, lt(v["L"])], t)
            base = [("y2", 0, 9), ("y3", 0, 9), ("H", 0, 23), ("L", 0, 24)] + D(*ds)
            pre = (lambda v, ds=ds: horner([v[d] for d in ds]) < 620) if k == 3 else None
            both("provisional %d00s, %d digits" % (cen, k), base, f, pre)
            # comet-style designations
            for T in ("PCXDA" if cen == 20 else "C" if cen == 19 else ""):
                if k: both("%s/ with second letter %d00s, %d digits" % (T, cen, k), base, lambda v, f=f, T=T: f(v, head=T + "/", t=AP if T == "A" else CP), pre)

            def g(v, cen=cen, k=k, ds=ds, T="C", frag=False):
                a, b = q10(ds, v)
                y = [v["y2"] + 48, v["y3"] + 48]
                return (S(T + "/" + str(cen)) + y + S(" ") + [lt(v["H"])] + [v[d] + 48 for d in ds] + (S("-") + [v["F"] + 65] if frag else []),
                        S("    " + T) + [hx(cen)] + y + [lt(v["H"]), hx(a), b + 48] + ([v["F"] + 97] if frag else S("0")), AP if T == "A" else CP)
            if k:
                b2 = [("y2", 0, 9), ("y3", 0, 9), ("H", 0, 23)] + D(*ds)
                for T in ("PCXDA" if cen == 20 else "CD" if cen == 19 else "C"):
                    both("%s/ %d00s, %d digits" % (T, cen, k), b2, lambda v, g=g, T=T: g(v, T=T), pre)
                    both("%s/ fragment %d00s, %d digits" % (T, cen, k), b2 + [("F", 0, 25)], lambda v, g=g, T=T: g(v, T=T, frag=True), pre)
    for k in range(3, 7):
        ds = ["n%d" % i for i in range(k)]

        def f(v, k=k, ds=ds):
            n = horner([v[d] for d in ds]); w = (n - 620) * 25 + v["L"]
            return (S("20") + [v["y2"] + 48, v["y3"] + 48] + S(" ") + [lt(v["H"]), lt(v["L"])] + [v[d] + 48 for d in ds],
                    S("     _") + [hx(v["y2"] * 10 + v["y3"]), lt(v["H"])] + [hx(dv(w, 62 ** (3 - i)) % 62) for i in range(4)], AP)

        def pre(v, k=k, ds=ds):
            n = horner([v[d] for d in ds])
            return And(v["y2"] * 10 + v["y3"] < 62, n >= 620, (n - 620) * 25 + v["L"] < 62 ** 4)
        vs = [("y2", 0, 6), ("y3", 0, 9), ("H", 0, 23), ("L", 0, 24)] + D(*ds)
        if k == 6: vs[4] = ("n0", 1, 5)
        F.append(Fam("extended provisional %d digits" % k, "pack", vs, f, pre))

        def fu(v, k=k):
            h = [v["h%d" % i] for i in range(4)]; w = horner(h, 62)
            n = 620 + dv(w, 25)
            return (S("20") + [dv(v["y"], 10) + 48, v["y"] % 10 + 48] + S(" ") + [lt(v["H"]), lt(w % 25)] + digits(n, k),
                    S("     _") + [hx(v["y"]), lt(v["H"])] + [hx(x) for x in h], AP)
        F.append(Fam("extended provisional %d digits" % k, "unpack", [("y", 0, 61), ("H", 0, 23)] + [("h%d" % i, 0, 61) for i in range(4)], fu,
                     lambda v, k=k: And(620 + dv(horner([v["h%d" % i] for i in range(4)], 62), 25) >= 10 ** (k - 1), 620 + dv(horner([v["h%d" % i] for i in range(4)], 62), 25) < 10 ** k)))
    # --- survey designations
    for sv in ("P-L", "T-1", "T-2", "T-3"):
        ds = ["d%d" % i for i in range(4)]

        def f(v, sv=sv, ds=ds):
            nm = [v[d] + 48 for d in ds]
            return nm + S(" " + sv), S("     " + sv[0] + sv[2] + "S") + nm, AP
        vs = D(*ds); vs[0] = ("d0", 1, 8)
        both("survey " + sv, vs, f)
    # --- numbered comets
    for k in range(1, 5):
        ds = ["d%d" % i for i in range(k)]
        for T in "PDI":
            for fr in range(3):
                if fr and T == "I": continue

                def f(v, k=k, ds=ds, T=T, fr=fr):
                    nm = [v[d] + 48 for d in ds]
                    ll = [v["F%d" % i] for i in range(fr)]
                    return (nm + S(T) + (S("-") + [x + 65 for x in ll] if fr else []),
                            S("0" * (4 - k)) + nm + S(T) + S(" " * (7 - fr)) + [x + 97 for x in ll], CN)
                both("comet %d digits %s fragment letters %d" % (k, T, fr), D(*ds) + [("F%d" % i, 0, 25) for i in range(fr)], f)
    # --- satellites, provisional
    for cen in (19, 20):
        for k in range(1, 4):
            ds = ["n%d" % i for i in range(k)]

            def f(v, cen=cen, k=k, ds=ds, P="J"):
                a, b = q10(ds, v); y = [v["y2"] + 48, v["y3"] + 48]
                return (S("S/%d" % cen) + y + S(" " + P + " ") + [v[d] + 48 for d in ds],
                        S("    S") + [hx(cen)] + y + S(P) + [hx(a), b + 48] + S("0"), NP)

            def pre(v, cen=cen, k=k, ds=ds):
                c = v["y2"] * 10 + v["y3"] > 0 if cen == 19 else True
                return And(c, horner([v[d] for d in ds]) < 620) if k == 3 else c
            for P in ("MVEJSUNP" if cen == 20 else "JN"):
                both("satellite S/%d00s %s, %d digits" % (cen, P, k), [("y2", 0, 9), ("y3", 0, 9)] + D(*ds), lambda v, f=f, P=P: f(v, P=P), pre)
    # --- artificial satellites
    for cen in (19, 20):
        for k in range(1, 4):
            def f(v, cen=cen, k=k):
                nm = S(str(cen)) + [v["y2"] + 48, v["y3"] + 48] + S("-") + [v["l%d" % i] + 48 for i in range(3)] + [lt(v["c%d" % i]) for i in range(k)]
                return nm, nm + S(" " * (12 - len(nm))), ART
            both("artificial satellite %d00s, %d letters" % (cen, k), [("y2", 5 if cen == 19 else 0, 9), ("y3", 0, 9)] + [("l%d" % i, 0, 9) for i in range(3)] + [("c%d" % i, 0, 24) for i in range(k)], f,
                 (lambda v: v["y2"] * 10 + v["y3"] >= 57) if cen == 19 else None)
    # --- number and provisional designation together (reading only)
    for k in (1, 3):
        ds = ["n%d" % i for i in range(k)]
        for ext in (False, True):
            def f(v, k=k, ds=ds, ext=ext):
                a, b = q10(ds, v); y = [v["y2"] + 48, v["y3"] + 48]
                pp = S("K") + y + [lt(v["H"]), hx(a), b + 48, lt(v["L"])]
                pn = S("20") + y + S(" ") + [lt(v["H"]), lt(v["L"])] + [v[d] + 48 for d in ds]
                if ext:
                    h = [v["h%d" % i] for i in range(4)]
                    return S("(") + digits(620000 + horner(h, 62), 7) + S(") ") + pn, S("~") + [hx(x) for x in h] + pp, AN
                m = [v["m%d" % i] for i in range(6)]
                return S("(") + [x + 48 for x in m] + S(") = ") + pn, [hx(m[0] * 10 + m[1])] + [x + 48 for x in m[2:]] + pp, AN
            vs = [("m0", 1, 6)] + [("m%d" % i, 0, 9) for i in range(1, 6)] + [("y2", 0, 9), ("y3", 0, 9), ("H", 0, 23), ("L", 0, 24)] + D(*ds)
            if ext: vs = vs[6:] + [("h%d" % i, 0, 61) for i in range(4)]

            def pre(v, k=k, ds=ds, ext=ext):
                c = horner([v[d] for d in ds]) < 620 if k == 3 else True
                if not ext: c = And(c, v["m0"] * 10 + v["m1"] < 62)
                else:
                    m = 620000 + horner([v["h%d" % i] for i in range(4)], 62)
                    c = And(c, m >= 1000000, m < 10000000)
                return c
            F.append(Fam("number %sand provisional %d digits" % ("(extended) " if ext else "", k), "unpack", vs, f, pre))
    return F


def roman(n):
    o = ""
    for v, s in ((900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")):
        while n >= v: o += s; n -= v
    return o


PLANETS = ["Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto"]


class Base(Check):
    def setup(s):
        s.prog = Program(SRC); s.nat = None

    def native(s):
        if s.nat is None:
            L = native.build(NAT, "desig")
            p = native.sym(L, "create_mpc_packed_desig"); p.argtypes = [ctypes.c_char_p, ctypes.c_char_p]; p.restype = ctypes.c_int
            u = native.sym(L, "unpack_mpc_desig"); u.argtypes = [ctypes.c_char_p, ctypes.c_char_p]; u.restype = ctypes.c_int
            s.nat = (p, u, L)
        return s.nat


def symbolic(ex, fam):
    v = {}
    ex.enum = {}
    for n, lo, hi in fam.vars:
        if lo == hi: v[n] = lo; continue
        v[n] = ex.input_int(n, 32, lo, hi); ex.enum[n] = (lo, hi)
    return v


def setb(ex, st, p, bs):
    for i, b in enumerate(bs):
        ex.store(st, ex.padd(st, p, i), INT(8), b)


def reduce(ex, b):
    """specification term with the If's that the variables' ranges decide resolved"""
    if isinstance(b, int): return b
    lo, hi = rangeof(ex, b)
    if lo == hi: return lo
    if z3.is_app_of(b, z3.Z3_OP_ITE):
        c = b.arg(0)
        if c.decl().kind() == z3.Z3_OP_LT and z3.is_int_value(c.arg(1)):
            l, h = rangeof(ex, c.arg(0)); K = c.arg(1).as_long()
            if h < K: return reduce(ex, b.arg(1))
            if l >= K: return reduce(ex, b.arg(2))
    return b


def hex_contracts(ex, bs):
    """call sites of the digit functions use their contracts (proved in units 'mutant_hex_char_to_int' and
    'int_to_mutant_hex_char'): hx and its inverse"""
    hexof = {}

    def note(t, v):
        if z3.is_expr(t): hexof[t.get_id()] = (v, t)

    def to_int(ex, st, a, inst, fr):
        x = hexof.get(a[0].get_id()) if z3.is_expr(a[0]) else None
        return x[0] if x is not None else NotImplemented

    def to_char(ex, st, a, inst, fr):
        v = a[0]
        if not z3.is_expr(v): return NotImplemented
        lo, hi = ex.r(v, 32)
        if lo < 0 or hi > 61: return NotImplemented
        t = z3.If(v < 10, v + 48, z3.If(v < 36, v + 55, v + 61)); rangeof(ex, t); t = reduce(ex, t)
        note(t, v)
        return t
    ex.contracts["mutant_hex_char_to_int"] = to_int; ex.contracts["int_to_mutant_hex_char"] = to_char
    return note


class C06(Base):
    id = "C06"; title = "MPC packed designations follow the published scheme and read back unchanged"
    assumptions = ["the packed form of each family is the one in the MPC's PackedDes.html / MPEC 2019-O55, transcribed in checks/desig.py",
                   "output buffers: 13 bytes for a packed designation, 24 for a name",
                   "years 1600-2099 (2000-2061 extended; satellites 1901-2099; artificial satellites 1957-2099), numbers up to 15396335"]

    def unit(s, fam):
        def gen(ctx):
            ex = ctx.executor(s.prog)
            v = symbolic(ex, fam)
            nm, pk, ty = fam.f(v)
            pre = fam.pre(v) if fam.pre else True
            st = State((pre,) if z3.is_expr(pre) else ())
            note = hex_contracts(ex, nm + pk)
            red = []
            for b in nm + pk:
                rangeof(ex, b); r = reduce(ex, b)
                if z3.is_expr(b) and z3.is_app_of(b, z3.Z3_OP_ITE) and z3.is_expr(r):
                    c = b.arg(0)                     # hx(v): its value is v
                    if z3.is_app_of(b.arg(2), z3.Z3_OP_ITE): note(r, c.arg(0))
                red.append(r)
            nm, pk = red[:len(nm)], red[len(nm):]
            ctx.cover(ex, st, fam.id)
            if fam.mode == "pack":
                src = ex.new_obj(st, "obj_name", len(nm) + 1); setb(ex, st, src, nm + [0])
                dst = ex.new_obj(st, "packed_desig", 13)
                r, s2 = ex.call_fn(s.prog.get("create_mpc_packed_desig"), [dst, src], st)
                want = pk + [0]; w = "mpc_fmt.cpp (create_mpc_packed_desig)"
                ex.oblige(State(s2.pc), eq(r, 0), "%s: packing succeeds" % fam.id, where=w, kind="post")
            else:
                src = ex.new_obj(st, "packed", 13); setb(ex, st, src, pk + [0])
                dst = ex.new_obj(st, "obuff", 24)
                r, s2 = ex.call_fn(s.prog.get("unpack_mpc_desig"), [dst, src], st)
                want = nm + [0]; w = "unpack.cpp (unpack_mpc_desig)"
                ex.oblige(State(s2.pc), eq(r, ty), "%s: type code" % fam.id, where=w, kind="post")
            for i, b in enumerate(want):
                got = ex.load(s2, ex.padd(s2, dst, i), INT(8))
                ex.oblige(State(s2.pc), eq(got, b) if got is not UNDEF else False, "%s: byte %d" % (fam.id, i), where=w, kind="post")
        return Unit("%s: %s" % (fam.mode, fam.id), gen, replay=lambda m: s.bad(fam, m), timeout=60,
                    fns=["create_mpc_packed_desig" if fam.mode == "pack" else "unpack_mpc_desig"])

    def concrete(s, fam, m):
        v = {n: min(max(int(m.get(n, lo)), lo), hi) for n, lo, hi in fam.vars}
        if fam.pre and not fam.pre(v): return None
        nm, pk, ty = fam.f(v)
        return bytes(nm), bytes(pk), ty

    def bad(s, fam, m):
        c = s.concrete(fam, m)
        if c is None: return None
        return s.bad3(fam.mode, *c)

    def bad3(s, mode, nm, pk, ty):
        p, u, _ = s.native()
        if mode == "pack":
            b = ctypes.create_string_buffer(b"\xa5" * 64, 64)
            k, x = native.guarded(lambda: (p(b, nm), b.raw))
            if k != "ok": return {"input": {"create_mpc_packed_desig": nm.decode()}, "observed": (k, x)}
            if x[0] != 0 or x[1][:13] != pk + b"\0" or x[1][13:64] != b"\xa5" * 51:
                return {"input": {"create_mpc_packed_desig": nm.decode()}, "expected": (0, pk.decode()), "observed": (x[0], x[1][:13].decode("latin1"))}
        else:
            b = ctypes.create_string_buffer(b"\xa5" * 64, 64)
            k, x = native.guarded(lambda: (u(b, pk), b.raw))
            if k != "ok": return {"input": {"unpack_mpc_desig": pk.decode()}, "observed": (k, x)}
            got = x[1].split(b"\0")[0]
            if x[0] != ty or got != nm or x[1][24:] != b"\xa5" * 40:
                return {"input": {"unpack_mpc_desig": pk.decode()}, "expected": (ty, nm.decode()), "observed": (x[0], got.decode("latin1"))}

    def quick_bad(s, mode, nm, pk, ty):
        p, u, _ = s.native()
        b = ctypes.create_string_buffer(b"\xa5" * 64, 64)
        if mode == "pack": r = p(b, nm); ok = r == 0 and b.raw[:14] == pk + b"\0\xa5"
        else: r = u(b, pk); ok = r == ty and b.value == nm
        return not ok

    def natsat(s, planet):
        def gen(ctx):
            ex = ctx.executor(s.prog)
            for n in range(1, 1000):
                pk = S("%s%03dS       " % (planet[0], n))
                for nm in (S("%s %s" % (planet, roman(n))), S("%s %d" % (planet, n))):
                    st = State()
                    src = ex.new_obj(st, "obj_name", len(nm) + 1); setb(ex, st, src, nm + [0])
                    dst = ex.new_obj(st, "packed_desig", 13)
                    r, s2 = ex.call_fn(s.prog.get("create_mpc_packed_desig"), [dst, src], st)
                    got = [ex.load(s2, ex.padd(s2, dst, i), INT(8)) for i in range(13)]
                    ctx.ground += 1
                    if r != 0 or got != pk + [0]:
                        ctx.failed.append(fail(planet, "satellite number packs as published", {"pack": [bytes(nm).decode(), bytes(pk).decode(), NN]}))
                nm = S("%s %s" % (planet, roman(n)))
                st = State()
                src = ex.new_obj(st, "packed", 13); setb(ex, st, src, pk + [0])
                dst = ex.new_obj(st, "obuff", 24)
                r, s2 = ex.call_fn(s.prog.get("unpack_mpc_desig"), [dst, src], st)
                got = [ex.load(s2, ex.padd(s2, dst, i), INT(8)) for i in range(len(nm) + 1)]
                ctx.ground += 1
                if r != NN or got != nm + [0]:
                    ctx.failed.append(fail(planet, "packed satellite number reads back", {"unpack": [bytes(nm).decode(), bytes(pk).decode(), NN]}))
                if len(ctx.failed) > 20: break
            ctx.covers += 1

        def replay(m):
            for k, (a, b, t) in m.items():
                r = s.bad3(k, a.encode(), b.encode(), t)
                if r: return r
        return Unit(planet, gen, replay=replay, fns=["create_mpc_packed_desig", "unpack_mpc_desig"])

    def units(s):
        # heaviest first
        us = [unit_char_to_int(s), unit_int_to_char(s)] + [s.natsat(p) for p in PLANETS] + [s.unit(f) for f in families()]
        return us

    def search_worker(s):
        s.native(); F = families()

        def w(rng, slot, n, end, note):
            fs = F[slot::n]
            while time.time() < end:
                for f in fs:
                    for _ in range(300):
                        m = {a: rng.choice((lo, hi, rng.randint(lo, hi))) for a, lo, hi in f.vars}
                        c = s.concrete(f, m)
                        if c is None: continue
                        note((f.mode,) + c)
                        if s.quick_bad(f.mode, *c): return s.bad3(f.mode, *c)
                for _ in range(300):
                    pl = rng.choice(PLANETS); k = rng.randint(1, 999); pk = ("%s%03dS       " % (pl[0], k)).encode(); nm = ("%s %s" % (pl, roman(k))).encode()
                    for md in ("pack", "unpack"):
                        note((md, nm, pk, NN))
                        if s.quick_bad(md, nm, pk, NN): return s.bad3(md, nm, pk, NN)
        return w

    def sanity(s):
        import random
        rng = random.Random(s.seed); n = 0
        for f in families():
            for _ in range(40):
                c = s.concrete(f, {a: rng.randint(lo, hi) for a, lo, hi in f.vars})
                if c is None: continue
                n += 1
                if s.quick_bad(f.mode, *c): return n, s.bad3(f.mode, *c)
        return n, None


def fail(unit, name, model):
    return {"unit": unit, "name": name, "where": "", "status": "sat", "kind": "post", "model": model, "goal": "", "backend": "ground evaluation", "tags": None}


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return zi(a) == zi(b)


def rangeof(ex, b):
    """interval of a specification term, computed bottom-up (sound over-approximation)"""
    if isinstance(b, int): return (b, b)
    x = ex.rng.get(b.get_id())
    if x is not None: return x[0], x[1]
    if z3.is_int_value(b): return (b.as_long(),) * 2
    k = b.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED: return (smin(64), smax(64))
    if k == z3.Z3_OP_ITE:
        p, q = rangeof(ex, b.arg(1)), rangeof(ex, b.arg(2)); r = (min(p[0], q[0]), max(p[1], q[1]))
        # If(c, x+a, x+b) with a comparison against a constant
        c = b.arg(0)
        if c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE) and z3.is_int_value(c.arg(1)):
            t = c.arg(0); K = c.arg(1).as_long() - (1 if c.decl().kind() == z3.Z3_OP_LT else 0)
            lo, hi = rangeof(ex, t)

            def shift(e, l, h):
                if e.eq(t): return (l, h)
                if z3.is_add(e) and e.num_args() == 2 and e.arg(0).eq(t) and z3.is_int_value(e.arg(1)): return (l + e.arg(1).as_long(), h + e.arg(1).as_long())
                if z3.is_app_of(e, z3.Z3_OP_ITE): 
                    old = ex.rng.get(t.get_id()); ex.rng[t.get_id()] = (l, h, t); ex.rng.pop(e.get_id(), None)
                    v = rangeof(ex, e); ex.rng.pop(e.get_id(), None)
                    if old: ex.rng[t.get_id()] = old
                    else: ex.rng.pop(t.get_id(), None)
                    return v
            if hi <= K: p = shift(b.arg(1), lo, hi) or p; r = p
            elif lo > K: q = shift(b.arg(2), lo, hi) or q; r = q
            else:
                p = shift(b.arg(1), lo, K) or p; q = shift(b.arg(2), K + 1, hi) or q
                r = (min(p[0], q[0]), max(p[1], q[1]))
    else:
        c = [rangeof(ex, x) for x in b.children()]
        if k == z3.Z3_OP_ADD: r = (sum(x[0] for x in c), sum(x[1] for x in c))
        elif k == z3.Z3_OP_SUB: r = (c[0][0] - sum(x[1] for x in c[1:]), c[0][1] - sum(x[0] for x in c[1:]))
        elif k == z3.Z3_OP_MUL and len(c) == 2:
            q = [x * y for x in c[0] for y in c[1]]; r = (min(q), max(q))
        elif k == z3.Z3_OP_IDIV and c[1][0] == c[1][1] > 0: r = (c[0][0] // c[1][0], c[0][1] // c[1][0])
        elif k == z3.Z3_OP_MOD and c[1][0] == c[1][1] > 0:
            m = c[1][0]; r = c[0] if c[0][0] >= 0 and c[0][1] < m else (0, m - 1)
        else: r = (smin(64), smax(64))
    ex.setr(b, *r)
    return r


CHECKS = {"C06": C06}


# ---------------------------------------------------------------- C05
def val(c):
    return If(And(c >= 48, c <= 57), c - 48, If(And(c >= 65, c <= 90), c - 55, If(And(c >= 97, c <= 122), c - 61, -1)))


def unit_char_to_int(s):
    def gen(ctx):
        ex = ctx.executor(s.prog); c = ex.input_int("c", 8); ex.enum = {"c": (-128, 127)}
        st = State(); r, s2 = ex.call_fn(s.prog.get("mutant_hex_char_to_int"), [c], st)
        ctx.cover(ex, s2, "mutant_hex_char_to_int")
        ex.oblige(State(s2.pc), eq(r, val(c)), "value of a mutant-hex digit, -1 for any other character", where="unpack.cpp (mutant_hex_char_to_int)", kind="post")
    return Unit("mutant_hex_char_to_int", gen, replay=lambda m: s.bad_hex("c", m["c"]), fns=["mutant_hex_char_to_int"])


def unit_int_to_char(s):
    def gen(ctx):
        ex = ctx.executor(s.prog); v = ex.input_int("v", 32)
        st = State(); r, s2 = ex.call_fn(s.prog.get("int_to_mutant_hex_char"), [v], st)
        ctx.cover(ex, s2, "int_to_mutant_hex_char")
        ex.oblige(State(s2.pc), eq(r, z3.If(z3.And(v >= 0, v <= 61), hx(v), 0)), "digit of a value below 62, NUL for any other value", where="unpack.cpp (int_to_mutant_hex_char)", kind="post")
    return Unit("int_to_mutant_hex_char", gen, replay=lambda m: s.bad_hex("i", m["v"]), fns=["int_to_mutant_hex_char"])


def hexnative(L):
    a = native.sym(L, "mutant_hex_char_to_int"); a.argtypes = [ctypes.c_char]; a.restype = ctypes.c_int
    b = native.sym(L, "int_to_mutant_hex_char"); b.argtypes = [ctypes.c_int]; b.restype = ctypes.c_char
    g = native.sym(L, "get_mutant_hex_value"); g.argtypes = [ctypes.c_char_p, ctypes.c_size_t]; g.restype = ctypes.c_int
    e = native.sym(L, "encode_value_in_mutant_hex"); e.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]; e.restype = ctypes.c_int
    return a, b, g, e


def bad_hex(s, kind, *x):
    a, b, g, e = hexnative(s.native()[2])
    if kind == "c":
        r = a(bytes([x[0] & 255])); w = val(x[0]) if x[0] >= 0 else -1
        if r != w: return {"input": {"mutant_hex_char_to_int": x[0]}, "expected": w, "observed": r}
    elif kind == "i":
        r = b(x[0])[0]; w = hx(x[0]) if 0 <= x[0] <= 61 else 0
        if r != w: return {"input": {"int_to_mutant_hex_char": x[0]}, "expected": w, "observed": r}
    elif kind == "g":
        w = 0
        for c in x[0]: w = -1 if w == -1 or val(c) == -1 else w * 62 + val(c)
        r = g(bytes(c & 255 for c in x[0]), len(x[0]))
        if r != w: return {"input": {"get_mutant_hex_value": list(x[0])}, "expected": w, "observed": r}
    else:
        n, v = x
        buf = ctypes.create_string_buffer(b"\xa5" * 16, 16)
        r = e(buf, n, v)
        w = bytes(hx(v // 62 ** (n - 1 - i) % 62) for i in range(n)) + b"\xa5" * (16 - n)
        if r != v // 62 ** n or buf.raw != w: return {"input": {"encode_value_in_mutant_hex": (n, v)}, "expected": (v // 62 ** n, w[:n]), "observed": (r, buf.raw[:n])}


C06.bad_hex = bad_hex


class C05(Base):
    id = "C05"; title = "Base-62 ('mutant hex') numbers encode and decode exactly"
    assumptions = ["n_digits up to 5 (62^6 exceeds a 32-bit int, so longer fields cannot be represented); values encoded are not negative"]
    bad_hex = bad_hex

    def get(s, n):
        def gen(ctx):
            ex = ctx.executor(s.prog); st = State()
            cs = [ex.input_int("c%d" % i, 8) for i in range(n)]
            b = ex.new_obj(st, "buff", max(n, 1)); setb(ex, st, b, cs)

            def h(ex, st, a, inst, fr):
                t = val(a[0]); 
                if z3.is_expr(t): ex.setr(t, -1, 61)
                return t
            ex.contracts["mutant_hex_char_to_int"] = h
            r, s2 = ex.call_fn(s.prog.get("get_mutant_hex_value"), [b, n], st)
            ctx.cover(ex, s2, "get_mutant_hex_value")
            vs = [val(c) for c in cs]
            w = z3.If(z3.And([v >= 0 for v in vs]) if vs else z3.BoolVal(True), zi(horner(vs, 62)), -1)
            ex.oblige(State(s2.pc), eq(r, w), "positional value of %d digits, -1 if one is not a digit" % n, where="unpack.cpp (get_mutant_hex_value)", kind="post")
        return Unit("get_mutant_hex_value %d" % n, gen, replay=lambda m: s.bad_hex("g", [m["c%d" % i] for i in range(n)]), fns=["get_mutant_hex_value"])

    def enc(s, n):
        def gen(ctx):
            ex = ctx.executor(s.prog); st = State()
            v = ex.input_int("v", 32, 0, smax(32)); b = ex.new_obj(st, "buff", max(n, 1))
            p = ex.padd(st, b, 0)

            def h(ex, st, a, inst, fr):
                x = a[0]
                if not z3.is_expr(x): return NotImplemented
                ex.oblige(st, z3.And(x >= 0, x <= 61), "argument of int_to_mutant_hex_char is a digit value", inst)
                t = hx(x); ex.setr(t, 48, 122); return t
            ex.contracts["int_to_mutant_hex_char"] = h
            r, s2 = ex.call_fn(s.prog.get("encode_value_in_mutant_hex"), [p, n, v], st)
            ctx.cover(ex, s2, "encode_value_in_mutant_hex")
            w = "unpack.cpp (encode_value_in_mutant_hex)"
            ex.oblige(State(s2.pc), eq(r, v / 62 ** n), "returns what does not fit (zero exactly when the value fits)", where=w, kind="post")
            for i in range(n):
                got = ex.load(s2, ex.padd(s2, b, i), INT(8))
                ex.oblige(State(s2.pc), eq(got, hx((v / 62 ** (n - 1 - i)) % 62)), "digit %d of %d" % (i, n), where=w, kind="post")
        return Unit("encode_value_in_mutant_hex %d" % n, gen, replay=lambda m: s.bad_hex("e", n, m["v"]), fns=["encode_value_in_mutant_hex"])

    def units(s):
        return [unit_char_to_int(s), unit_int_to_char(s)] + [s.get(n) for n in range(6)] + [s.enc(n) for n in range(1, 6)]

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            if slot == 0:
                for c in range(-128, 128):
                    r = s.bad_hex("c", c)
                    if r: return r
                for i in list(range(-2000, 2000)) + [smin(32), smax(32)]:
                    r = s.bad_hex("i", i)
                    if r: return r
            good = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
            while time.time() < end:
                for _ in range(500):
                    k = rng.randint(0, 5)
                    x = [rng.choice(good) if rng.random() < .9 else rng.randint(1, 127) for _ in range(k)]
                    note(("g", x)); r = s.bad_hex("g", x)
                    if r: return r
                    k = rng.randint(1, 5); v = min(smax(32), max(0, rng.choice((rng.randint(0, smax(32)), 62 ** rng.randint(1, 5) + rng.randint(-2, 2)))))
                    note(("e", k, v)); r = s.bad_hex("e", k, v)
                    if r: return r
        return w

    def sanity(s):
        n = 0
        for c in range(-128, 128):
            n += 1; r = s.bad_hex("c", c)
            if r: return n, r
        for v in range(0, 62 ** 3, 61):
            n += 2; r = s.bad_hex("e", 3, v) or s.bad_hex("g", [hx(v // 62 ** (2 - i) % 62) for i in range(3)])
            if r: return n, r
        return n, None


CHECKS["C05"] = C05
