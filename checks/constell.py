"""C12: constellation in which a direction lies (conbound.c)"""
import ctypes, json, math, os, random
from fractions import Fraction as Fr
from check import *
from real import RealDom
from link import Program

SRC = ["conbound.c"]
NAMES = ("And Ant Aps Aql Aqr Ara Ari Aur Boo Cae Cam Cap Car Cas Cen Cep Cet Cha Cir CMa CMi Cnc Col Com CrA CrB Crt Cru Crv CVn Cyg Del Dor Dra Equ Eri For "
         "Gem Gru Her Hor Hya Hyi Ind Lac Leo Lep Lib LMi Lup Lyn Lyr Men Mic Mon Mus Nor Oct Oph Ori Pav Peg Per Phe Pic PsA Psc Pup Pyx Ret Scl Sco Sct Ser Sex "
         "Sge Sgr Tau Tel TrA Tri Tuc UMa UMi Vel Vir Vol Vul").split()
REF = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "constell.json")))
STRIPS = REF["strips"]      # [[south polar distance from, to (arcmin), [[RA from, to (seconds), constellation]]]]
TURN = 86400
TOP = 1 - Fr(1, 10 ** 30)   # no double lies between


def ref(n, sp):
    """constellation of the cell n .. n+1 seconds of RA, sp .. sp+1 arcminutes from the south pole"""
    for lo, hi, segs in STRIPS:
        if lo <= sp < hi:
            for a, b, c in segs:
                if a <= n % TURN < b: return c


class C12(Check):
    id = "C12"; title = "Every direction lies in the constellation whose boundaries enclose it"
    assumptions = ["floating-point arithmetic is treated as real arithmetic (rounding absent); arguments within -360..720 degrees of RA and -90..90 of declination, equinox B1875",
                   "the reference partition (ref/constell.json) is the IAU's: its 88 areas agree with the published ones to 0.01 square degrees (checked on every run)",
                   "quick tier: RA outside 0..360 degrees in every fifth declination strip only; thorough tier: in all"]

    def setup(s):
        s.prog = Program(SRC); s.nat = None

    def native(s):
        if s.nat is None: s.nat = native.build(SRC, "con")
        return s.nat

    def u_ref(s):
        def gen(ctx):
            ex = ctx.executor(s.prog); st = State(); area = {}
            ok = STRIPS[0][0] == 0 and STRIPS[-1][1] == 10801
            for (lo, hi, segs), nxt in zip(STRIPS, STRIPS[1:] + [None]):
                ok = ok and (nxt is None or nxt[0] == hi) and segs[0][0] == 0 and segs[-1][1] == TURN and all(a[1] == b[0] for a, b in zip(segs, segs[1:]))
                h = math.sin(math.radians(min(hi, 10800) / 60 - 90)) - math.sin(math.radians(lo / 60 - 90))
                for a, b, c in segs: area[NAMES[c]] = area.get(NAMES[c], 0) + (b - a) / 240 * 180 / math.pi * h
            ex.oblige(st, bool(ok), "lemma: the reference cells cover the sphere once", where="ref/constell.json", kind="lemma")
            for k in NAMES: ex.oblige(st, abs(area[k] - REF["areas"][k]) < .01, "lemma: area of %s is the published one" % k, where="ref/constell.json", kind="lemma")
        return Unit("reference partition", gen)

    def cell(s, ctx, lo, hi, a, b, c, k, named, top=False):
        dom = RealDom(); ex = ctx.executor(s.prog, fdom=dom, loop_limit=800); dom.ex = ex; st = State(); w = "conbound.c (constell_from_ra_dec)"
        n = ex.input_int("ra_sec", 64, a + TURN * k, b - 1 + TURN * k) if b > a + 1 else a + TURN * k
        f = dom.input(ex, "ra_frac", 0, TOP); ra = dom.mul(dom.add(dom.from_int(ex, st, n, None), f), dom.lift(Fr(1, 240)))
        if top: dec = dom.lift(90.0)
        else:
            m = ex.input_int("spd_min", 64, lo, hi - 1) if hi > lo + 1 else lo
            g = dom.input(ex, "spd_frac", 0, TOP); dec = dom.sub(dom.mul(dom.add(dom.from_int(ex, st, m, None), g), dom.lift(Fr(1, 60))), dom.lift(90.0))
        ex.check = (ra, dec)
        p = ex.new_obj(st, "name", 4) if named else NULL
        r, s2 = ex.call_fn(s.prog.get("constell_from_ra_dec"), [ra, dec, p], st); ctx.cover(ex, s2, "constell_from_ra_dec")
        at = "RA %d..%d s, %d..%d arcmin from the south pole" % (a, b, lo, hi)
        ex.oblige(State(s2.pc), zi(r) == c, "constellation is %s (%s)" % (NAMES[c], at), where=w, kind="post")
        if named:
            for i in range(4):
                v = ex.load(s2, ex.padd(s2, p, i), INT(8))
                ex.oblige(State(s2.pc), zi(v) == (ord(NAMES[c][i]) if i < 3 else 0), "byte %d of the name (%s)" % (i, at), where=w, kind="post")

    def unit(s, i, j):
        def gen(ctx):
            for lo, hi, segs in STRIPS[i:j]:
                for q, (a, b, c) in enumerate(segs):
                    for k in ((0, -1, 1) if lo == STRIPS[i][0] or ctx.tier == "thorough" else (0,)):
                        h = min(hi, 10800)
                        s.cell(ctx, lo, h, a, b, c, k, k != -1)
                        if hi > 10800: s.cell(ctx, 10800, 10800, a, b, c, k, True, True)
        return Unit("declinations from %.2f to %.2f" % (STRIPS[i][0] / 60 - 90, min(STRIPS[j - 1][1], 10800) / 60 - 90), gen, fns=["constell_from_ra_dec"], replay=s.rp, limit=500)

    def units(s): return [s.u_ref()] + [s.unit(i, min(i + 5, len(STRIPS))) for i in range(0, len(STRIPS), 5)]

    # ---------------------------------------------------------------- real code
    def bad(s, n, sp, f=.5, g=.5):
        L = s.native(); D = ctypes.c_double; fn = native.fn(L, "constell_from_ra_dec", ctypes.c_int, D, D, ctypes.c_void_p)
        ra = (n + f) / 240; dec = 90.0 if sp >= 10800 else (sp + g) / 60 - 90; c = ref(n, min(sp, 10800))

        def go():
            B = native.Guarded(b"####"); r = fn(ra, dec, B.addr)
            return r, B.raw(), fn(ra, dec, None)
        k, x = native.guarded(go) if s.slow else ("ok", go())
        if k != "ok" or x != (c, NAMES[c].encode() + b"\0", c):
            return {"input": {"ra": ra, "dec": dec}, "expected": [c, NAMES[c]], "observed": (k, str(x))}
    slow = True

    def rp(s, m):
        if "ra_sec" in m or "spd_min" in m or "ra_frac" in m:
            n, sp = int(m.get("ra_sec", 0)), int(m.get("spd_min", 0))
            for f in (.5, .01, .99):
                r = s.bad(n, sp, f, f)
                if r: return r

    def probe(s, rng):
        lo, hi, segs = rng.choice(STRIPS); a, b, c = rng.choice(segs)
        return s.bad(rng.choice((a, b - 1, rng.randrange(a, b))) + TURN * rng.choice((0, 0, -1, 1)), rng.choice((lo, hi - 1, rng.randrange(lo, hi))), rng.choice((.01, .5, .99)), rng.choice((.01, .5, .99)))

    def search_worker(s):
        s.native()

        def w(rng, slot, n, end, note):
            while time.time() < end:
                note("random probe"); r = s.probe(rng)
                if r: return r
        return w

    def sanity(s):
        rng = random.Random(s.seed)
        for i in range(500):
            r = s.probe(rng)
            if r: return i, r
        return 500, None


CHECKS = {"C12": C12}
