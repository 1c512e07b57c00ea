"""Trusted contracts of the C library functions the verified code calls (part of the trusted base).
Each is the ISO C / POSIX meaning in the "C" locale, stated on this engine's memory model, with its
precondition (valid, terminated, non-overlapping buffers) as an obligation on the caller."""
import math
import z3
from ir import *
from sx import *

LIB = {}


def lib(*names):
    def d(f):
        for n in names: LIB[n] = f
        return f
    return d


I8 = INT(8)


def one(ex, st, p, inst, what):
    """split a guarded pointer: returns list of (guard, Ptr), with null obliged away"""
    out = []
    for g, q in ex.palts(p):
        if q.obj is None:
            ex.oblige(st, bnot(g), what + ": pointer not null", inst); continue
        out.append((g, q))
    return out


def byte(ex, st, q, k):
    """byte at q+k (no bounds obligation)"""
    o = st.mem[q.obj]
    p = ex.padd(st, q, k)
    if isinstance(p.off, int):
        if not (0 <= p.off < o.size): return None
        return ex.load_at(st, o, p.off, I8)
    return ex.load1(st, p, I8, None)


def strlen_ptr(ex, st, q, inst, what="strlen", limit=None):
    """symbolic length of the string at q (single object); obliges termination inside the object"""
    o = st.mem[q.obj]
    if o.arr is not None:
        if o.slen is None or not o.arr.eq(o.arr0): raise Unsupported("strlen of a modified array")
        ex.oblige(st, z3.And(zi(q.off) >= 0, zi(q.off) <= o.slen, o.slen < zi(o.size)), what + ": string terminated inside '%s'" % o.name, inst)
        r = o.slen - zi(q.off) if not (isinstance(q.off, int) and q.off == 0) else o.slen
        ex.setr(r, 0, 1 << 62)
        return r
    if not isinstance(o.size, int): raise Unsupported("strlen of symbolic-size object")
    lo, hi = ex.r(q.off)
    lo = max(lo, 0)
    hi = min(hi, o.size)
    # per start offset the length is the distance to the first NUL at or after it
    nul = []
    bs = []
    for x in range(lo, o.size):
        v = ex.load_at(st, o, x, I8)
        bs.append(v)
        if isinstance(v, int) and v == 0 and x >= hi: break
    n = len(bs)
    # first-NUL position scan from the right: pos(x) = x if b[x]==0 else pos(x+1)
    INF = o.size
    pos = [None] * (n + 1)
    pos[n] = INF
    for k in range(n - 1, -1, -1):
        v = bs[k]
        if isinstance(v, int): pos[k] = lo + k if v == 0 else pos[k + 1]
        elif v is UNDEF: pos[k] = pos[k + 1] if False else INF
        else:
            pos[k] = ite(ex.icmp(st, "eq", v, 0, 8, inst), lo + k, pos[k + 1])
            if z3.is_expr(pos[k]):
                a, b = ex.r(pos[k + 1]); ex.setr(pos[k], min(a, lo + k), max(b, lo + k))
    if isinstance(q.off, int):
        p = pos[q.off - lo] if q.off - lo < len(pos) else INF
    else:
        p = pos[min(hi, lo + n) - lo]
        for x in range(min(hi, lo + n) - 1, lo - 1, -1):
            p2 = ite(q.off <= x, pos[x - lo], p)
            if z3.is_expr(p2):
                a, b = ex.r(p); c, d = ex.r(pos[x - lo]); ex.setr(p2, min(a, c), max(b, d))
            p = p2
    a, b = ex.r(p)
    if b >= INF:
        ex.oblige(st, ex.icmp(st, "slt", p, INF, 64, inst), what + ": string terminated inside '%s'" % o.name, inst)
        if isinstance(p, int): st.dead = True; return 0
        ex.setr(p, a, INF - 1)
    r = ex.binop(st, "sub", ("nsw",), p, q.off, 64, None) if not (isinstance(q.off, int) and q.off == 0) else p
    if z3.is_expr(r):
        l, h = ex.r(r); ex.setr(r, max(l, 0), min(h, o.size - 1))
    return r


def over(ex, st, p, inst, what, f):
    alts = one(ex, st, p, inst, what)
    if not alts: st.dead = True; return 0
    r = None
    for g, q in reversed(alts):
        v = f(q)
        r = v if r is None else ex.merge_val(g, v, r)
    return r


@lib("strlen")
def _strlen(ex, st, a, inst, fr):
    return over(ex, st, a[0], inst, "strlen", lambda q: strlen_ptr(ex, st, q, inst))


def arr_copy(ex, st, d, s, n, inst, what, g=True):
    """block copy into or from an SMT array: the result is known at the specification's index only"""
    od, so = st.obj_w(d.obj), st.mem[s.obj]
    if od.arr is None or so.arr is None: raise Unsupported("block copy between array and plain memory")
    z = zi(n)
    ok = lambda o, p: z3.And(zi(p.off) >= 0, zi(p.off) + z <= zi(o.size))
    ex.oblige(st, bimp(band(g, z > 0), z3.And(ok(od, d), ok(so, s))), what + " inside '%s' and '%s'" % (od.name, so.name), inst)
    J = ex.inv.skolem.get(d.obj) if ex.inv is not None else None
    a = z3.Const("copy!%d" % next(ex.fresh_n), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    if J is not None:
        v = ex.arr_read(so, J - zi(d.off) + zi(s.off)); w = ex.arr_read(od, J)
        ex.axioms.append(z3.Select(a, J) == z3.If(z3.And(zb(g), J >= zi(d.off), J < zi(d.off) + z), v, w))
    od.arr = a


def copy_bytes(ex, st, d, s, n, inst, what, g=True):
    if st.mem[d.obj].arr is not None or st.mem[s.obj].arr is not None: return arr_copy(ex, st, d, s, n, inst, what, g)
    """d,s single pointers; n int or term. memmove semantics (reads before writes)."""
    if isinstance(n, int):
        if n == 0: return
        if not ex.bounds(st, s, n, g, inst, what + " source"): return
        if not ex.bounds(st, d, n, g, inst, what + " destination"): return
        if isinstance(d.off, int) and isinstance(s.off, int) and g is True:
            so = st.mem[s.obj]; do = st.obj_w(d.obj)
            if do.const: ex.oblige(st, False, "no write to constant data", inst); return
            items = []
            x = s.off; end = s.off + n
            while x < end:
                c = so.cells.get(x)
                if c is not None and x + c[0] <= end:
                    items.append((x - s.off, c)); x += c[0]
                else:
                    cov = any(y in so.cells and y + so.cells[y][0] > x for y in range(max(0, x - 15), x)) or c is not None
                    if cov: items.append((x - s.off, (1, ex.load_at(st, so, x, I8)))); x += 1
                    else:
                        if so.zero: items.append((x - s.off, (1, 0)))
                        else: items.append((x - s.off, None))
                        x += 1
            for k, c in items:
                if c is None:
                    ex.kill(do, d.off + k, 1); do.cells.pop(d.off + k, None)
                else:
                    ex.kill(do, d.off + k, c[0]); do.cells[d.off + k] = c
            return
        vals = [byte(ex, st, s, k) for k in range(n)]
        for k, v in enumerate(vals):
            ex.store1(st, ex.padd(st, d, k), 1, v, g, I8)
        return
    lo, hi = ex.r(n)
    so, do = st.mem[s.obj], st.mem[d.obj]
    ex.oblige(st, bimp(g, band(n >= 0, zi(s.off) + n <= so.size, zi(s.off) >= 0)), what + " source inside '%s'" % so.name, inst)
    ex.oblige(st, bimp(g, band(zi(d.off) + n <= do.size, zi(d.off) >= 0)), what + " destination inside '%s'" % do.name, inst)
    mx = min(hi, so.size - max(ex.r(s.off)[0], 0), do.size - max(ex.r(d.off)[0], 0))
    vals = [byte(ex, st, s, k) for k in range(mx)]
    for k, v in enumerate(vals):
        if v is None: continue
        ex.store1(st, ex.padd(st, d, k), 1, v, band(g, ex.icmp(st, "sgt", n, k, 64, inst)), I8)


@lib("memcpy", "memmove", "__memcpy_chk", "__memmove_chk")
def _memcpy(ex, st, a, inst, fr):
    d, s, n = a[0], a[1], a[2]
    if isinstance(n, int) and n == 0: return d
    for g1, p in one(ex, st, d, inst, "memcpy"):
        for g2, q in one(ex, st, s, inst, "memcpy"):
            g = band(g1, g2)
            if is_false(g): continue
            copy_bytes(ex, st, p, q, n, inst, "memcpy", g)
    return d


@lib("memset")
def _memset(ex, st, a, inst, fr):
    d, c, n = a[0], a[1], a[2]
    c = ex.cast(st, "trunc", INT(32), I8, c, inst)
    for g, p in one(ex, st, d, inst, "memset"):
        o = st.mem[p.obj]
        if isinstance(n, int):
            if n == 0: continue
            if not ex.bounds(st, p, n, g, inst, "memset"): continue
            for k in range(n): ex.store1(st, ex.padd(st, p, k), 1, c, g, I8)
        else:
            ex.oblige(st, bimp(g, band(n >= 0, zi(p.off) >= 0, zi(p.off) + n <= o.size)), "memset inside '%s'" % o.name, inst)
            lo, hi = ex.r(n)
            for k in range(min(hi, o.size - max(ex.r(p.off)[0], 0))):
                ex.store1(st, ex.padd(st, p, k), 1, c, band(g, ex.icmp(st, "sgt", n, k, 64, inst)), I8)
    return d


@lib("strcpy")
def _strcpy(ex, st, a, inst, fr):
    d, s = a
    for g2, q in one(ex, st, s, inst, "strcpy"):
        n = strlen_ptr(ex, st, q, inst, "strcpy")
        for g1, p in one(ex, st, d, inst, "strcpy"):
            g = band(g1, g2)
            if is_false(g): continue
            n1 = ex.binop(st, "add", (), n, 1, 64, inst)
            copy_bytes(ex, st, p, q, n1, inst, "strcpy", g)
    return d


@lib("strcat")
def _strcat(ex, st, a, inst, fr):
    d, s = a
    n = _strlen(ex, st, [d], inst, fr)
    _strcpy(ex, st, [ex.padd(st, d, n), s], inst, fr)
    return d


@lib("strncpy")
def _strncpy(ex, st, a, inst, fr):
    d, s, n = a
    if not isinstance(n, int): raise Unsupported("strncpy with symbolic length")
    for g2, q in one(ex, st, s, inst, "strncpy"):
        for g1, p in one(ex, st, d, inst, "strncpy"):
            g = band(g1, g2)
            if not ex.bounds(st, p, n, g, inst, "strncpy destination"): continue
            done = False
            for k in range(n):
                if is_true(done): v = 0
                else:
                    b = byte(ex, st, q, k)
                    if b is None:
                        ex.oblige(st, bimp(g, done), "strncpy source inside object", inst); v = 0; done = True
                    else:
                        v = ite(done, 0, b)
                        done = bor(done, ex.icmp(st, "eq", b, 0, 8, inst))
                ex.store1(st, ex.padd(st, p, k), 1, v, g, I8)
    return d


def ubyte(ex, v): return ex.unsigned(v, 8)


def cmp_bytes(ex, st, p, q, n, inst, what, stop_at_nul, g=True):
    """returns int term: sign-correct difference (unsigned bytes). n: int bound or None"""
    so, do = st.mem[p.obj], st.mem[q.obj]
    res_parts = []
    alive = True
    k = 0
    vals = []
    while n is None or (isinstance(n, int) and k < n) or z3.is_expr(n):
        if z3.is_expr(n):
            lo, hi = ex.r(n)
            if k >= hi: break
            alive = band(alive, ex.icmp(st, "sgt", n, k, 64, inst))
        if is_false(alive): break
        x, y = byte(ex, st, p, k), byte(ex, st, q, k)
        if x is None or y is None:
            ex.oblige(st, bimp(g, bnot(alive)), what + ": string terminated inside its object", inst)
            break
        if x is UNDEF: x = ex.fresh("uninit", 8)
        if y is UNDEF: y = ex.fresh("uninit", 8)
        eq = ex.icmp(st, "eq", x, y, 8, inst)
        vals.append((band(alive, bnot(eq)), x, y))
        alive = band(alive, eq)
        if stop_at_nul:
            alive = band(alive, ex.icmp(st, "ne", x, 0, 8, inst))
        k += 1
    r = 0
    for c, x, y in reversed(vals):
        d = ex.binop(st, "sub", ("nsw",), ubyte(ex, x), ubyte(ex, y), 32, inst)
        r = ite(c, d, r)
        if z3.is_expr(r): ex.setr(r, -255, 255)
    return r


def cmp2(ex, st, a, n, inst, what, nul):
    r = None
    for g1, p in one(ex, st, a[0], inst, what):
        for g2, q in one(ex, st, a[1], inst, what):
            g = band(g1, g2)
            if is_false(g): continue
            v = cmp_bytes(ex, st, p, q, n, inst, what, nul, g)
            r = v if r is None else ite(g, v, r)
    return r if r is not None else 0


@lib("strcmp")
def _strcmp(ex, st, a, inst, fr): return cmp2(ex, st, a, None, inst, "strcmp", True)


@lib("strncmp")
def _strncmp(ex, st, a, inst, fr): return cmp2(ex, st, a, a[2], inst, "strncmp", True)


@lib("memcmp", "bcmp")
def _memcmp(ex, st, a, inst, fr):
    n = a[2]
    if isinstance(n, int):
        for g, p in one(ex, st, a[0], inst, "memcmp"): ex.bounds(st, p, n, g, inst, "memcmp")
        for g, p in one(ex, st, a[1], inst, "memcmp"): ex.bounds(st, p, n, g, inst, "memcmp")
    return cmp2(ex, st, a, n, inst, "memcmp", False)


@lib("strchr", "memchr")
def _strchr(ex, st, a, inst, fr):
    is_mem = len(a) == 3
    c = ex.cast(st, "trunc", INT(32), I8, a[1], inst)

    def f(q):
        o = st.mem[q.obj]
        if not isinstance(q.off, int):
            # enumerate start offsets
            lo, hi = ex.r(q.off); lo = max(lo, 0); hi = min(hi, o.size - 1)
            r = None
            for x in range(hi, lo - 1, -1):
                v = f(Ptr(q.obj, x))
                r = v if r is None else ex.merge_val(q.off == x, v, r)
            return r
        alts = []; alive = True
        k = 0
        while True:
            if is_mem:
                n = a[2]
                if isinstance(n, int):
                    if k >= n: break
                else:
                    if k >= ex.r(n)[1]: break
                    alts.append((band(alive, ex.icmp(st, "sle", n, k, 64, inst)), NULL))
                    alive = band(alive, ex.icmp(st, "sgt", n, k, 64, inst))
            if is_false(alive): break
            b = byte(ex, st, q, k)
            if b is None:
                ex.oblige(st, bnot(alive), "strchr: string terminated inside '%s'" % o.name, inst); break
            if b is UNDEF: b = ex.fresh("uninit", 8)
            hit = ex.icmp(st, "eq", b, c, 8, inst)
            alts.append((band(alive, hit), Ptr(q.obj, q.off + k)))
            alive = band(alive, bnot(hit))
            if not is_mem:
                z = ex.icmp(st, "eq", b, 0, 8, inst)
                alts.append((band(alive, z), NULL))
                alive = band(alive, bnot(z))
            k += 1
        r = NULL
        for g, p in reversed(alts):
            if is_false(g): continue
            r = ex.merge_val(g, p, r)
        return r
    return over(ex, st, a[0], inst, "strchr", f)


def ctype_val(c):
    """glibc C-locale class bits for c in 0..255"""
    U, L, A, D, X, S, P, G, B, C, PU, AN = 1 << 8, 1 << 9, 1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1, 2, 4, 8
    v = 0
    if c > 127: return 0
    ch = chr(c)
    if "A" <= ch <= "Z": v |= U
    if "a" <= ch <= "z": v |= L
    if v: v |= A
    if "0" <= ch <= "9": v |= D
    if ch in "0123456789abcdefABCDEF": v |= X
    if ch in " \t\n\v\f\r": v |= S
    if 32 <= c < 127: v |= P
    if 33 <= c < 127: v |= G
    if ch in " \t": v |= B
    if c < 32 or c == 127: v |= C
    if v & G and not v & (A | D): v |= PU
    if v & (A | D): v |= AN
    return v


def ctab(ex, st, name, f, sz):
    oid = "@" + name
    if oid not in st.mem:
        o = Obj(name, 384 * sz, {}, True)
        for c in range(-128, 256):
            o.cells[(c + 128) * sz] = (sz, f(c))
        st.mem[oid] = o
        st.mem[oid + "p"] = Obj(name + "p", 8, {0: (8, Ptr(oid, 128 * sz))}, True)
    return Ptr(oid + "p", 0)


@lib("__ctype_b_loc")
def _ctb(ex, st, a, inst, fr): return ctab(ex, st, "ctype_b", lambda c: canon(ctype_val(c & 255) if c >= 0 or c < -1 else 0, 16), 2)


def low(c): return c + 32 if 65 <= c <= 90 else c
def upp(c): return c - 32 if 97 <= c <= 122 else c


@lib("tolower", "toupper")
def _tolower(ex, st, a, inst, fr):
    c = a[0]
    up = "toupper" in inst.text
    if isinstance(c, int): return upp(c) if up else low(c)
    if up: r = z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
    else: r = z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    lo, hi = ex.r(c, 32); ex.setr(r, min(lo, lo - 0 if not up else 65), max(hi, 122))
    return r


def isfn(pred):
    def f(ex, st, a, inst, fr):
        c = a[0]
        ex.oblige(st, band(ex.icmp(st, "sge", c, -1, 32, inst), ex.icmp(st, "sle", c, 255, 32, inst)), "ctype argument representable as unsigned char", inst)
        if isinstance(c, int): return 1 if 0 <= c < 128 and ctype_val(c) & pred else 0
        rs = []; k = 0
        while k < 128:
            if ctype_val(k) & pred:
                j = k
                while j < 128 and ctype_val(j) & pred: j += 1
                rs.append(z3.And(c >= k, c < j)); k = j
            else: k += 1
        r = z3.If(z3.Or(*rs), z3.IntVal(1), z3.IntVal(0)); ex.setr(r, 0, 1)
        return r
    return f


for _n, _b in (("isupper", 8), ("islower", 9), ("isalpha", 10), ("isdigit", 11), ("isxdigit", 12), ("isspace", 13), ("isprint", 14), ("isgraph", 15)):
    LIB[_n] = isfn(1 << _b)
LIB["isalnum"] = isfn(8)
LIB["ispunct"] = isfn(4)


@lib("atoi", "atol")
def _atoi(ex, st, a, inst, fr):
    """value of the leading [space][sign]digits; engine limit: digits that matter must lie in the object"""
    def f(q):
        o = st.mem[q.obj]
        # automaton over bytes: phase 0 = skipping space, 1 = after sign/digits, 2 = stopped
        if not isinstance(q.off, int):
            lo, hi = ex.r(q.off); lo = max(lo, 0); hi = min(hi, o.size - 1)
            r = None
            for x in range(hi, lo - 1, -1):
                v = f(Ptr(q.obj, x)); r = v if r is None else ite(q.off == x, v, r)
            return r
        val = 0; neg = False; sp = True; run = True; k = 0
        while not is_false(run) and q.off + k < o.size:
            b = byte(ex, st, q, k)
            if b is UNDEF: b = ex.fresh("uninit", 8)
            c = lambda p, v: ex.icmp(st, p, b, v, 8, inst)
            dig = band(c("sge", 48), c("sle", 57))
            spc = bor(c("eq", 32), band(c("sge", 9), c("sle", 13)))
            sgn = bor(c("eq", 43), c("eq", 45))
            takes_sp = band(sp, spc); takes_sg = band(sp, sgn)
            nv = ex.add_terms(val * 10 if not (isinstance(val, int) and val == 0) else 0, ex.add_terms(b, -48) if not isinstance(b, int) else b - 48)
            la, ha = ex.r(val)
            if z3.is_expr(nv): ex.setr(nv, la * 10 - 48 - 128, ha * 10 + 127)
            upd = band(run, dig)
            v2 = ite(upd, nv, val)
            if z3.is_expr(v2): ex.setr(v2, min(la, 0), max(ha, ha * 10 + 9))
            neg = ite(band(run, takes_sg, c("eq", 45)), True, neg)
            run = band(run, bor(dig, takes_sp, takes_sg))
            sp = band(sp, spc)
            val = v2; k += 1
        if not is_false(run):
            ex.oblige(st, bnot(run), "atoi: string terminated inside '%s'" % o.name, inst)
        r = ite(neg, -val, val)
        w = 64 if "atol" in inst.text else 32
        if z3.is_expr(r):
            la, ha = ex.r(val)
            if ha > smax(w): ex.oblige(st, z3.And(r >= smin(w), r <= smax(w)), "atoi: value representable", inst)
            ex.setr(r, -min(ha, smax(w)), min(ha, smax(w)))
        return r
    return over(ex, st, a[0], inst, "atoi", f)


@lib("abs", "labs")
def _abs(ex, st, a, inst, fr):
    x = a[0]
    if isinstance(x, int): return abs(x)
    lo, hi = ex.r(x)
    r = z3.If(x < 0, -x, x); ex.setr(r, 0, max(abs(lo), abs(hi)))
    return r


@lib("__assert_fail", "abort", "__stack_chk_fail")
def _assert_fail(ex, st, a, inst, fr):
    ex.oblige(st, False, "assertion / abort not reached", inst, kind="assert")
    return None, None


@lib("exit", "_exit")
def _exit(ex, st, a, inst, fr):
    if ex.forbid_exit: ex.oblige(st, False, "exit() not reached", inst, kind="assert")
    ex.exits.append((st, inst))
    return None, None


@lib("fprintf", "printf", "puts", "putchar", "fputs", "perror", "fflush", "fputc", "fwrite")
def _io(ex, st, a, inst, fr): return ex.fresh("io", 32)


@lib("free")
def _free(ex, st, a, inst, fr): return None


@lib("malloc", "calloc")
def _malloc(ex, st, a, inst, fr):
    cal = "@calloc" in inst.text
    n = a[0] if not cal else ex.binop(st, "mul", (), a[0], a[1], 64, inst)
    if not isinstance(n, int): raise Unsupported("malloc of symbolic size")
    p = ex.new_obj(st, "heap", n, zero=cal)
    return p


# ---- snprintf family -----------------------------------------------------
def fmt_pieces(ex, st, fmt, args, inst):
    """list of (length, byte function k-> value, maxlen): output of a printf format as a symbolic string.
    Returns list of 'chunks', each (len_term, [bytes]) where bytes beyond len are irrelevant."""
    out = []
    i = 0
    ai = 0
    s = fmt
    while i < len(s):
        c = s[i]
        if c != "%":
            out.append((1, [ord(c)])); i += 1; continue
        m = re.match(r"%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|L)?([a-zA-Z%])", s[i:])
        if not m: raise Unsupported("format " + fmt)
        i += m.end()
        fl, wd, pr, ln, cv = m.groups()
        if cv == "%": out.append((1, [37])); continue
        if wd == "*": wd = args[ai]; ai += 1
        if pr == "*": pr = args[ai]; ai += 1
        wd = int(wd) if isinstance(wd, str) else wd
        pr = int(pr) if isinstance(pr, str) else pr
        v = args[ai]; ai += 1
        if cv == "c":
            v = ex.cast(st, "trunc", INT(32), I8, v, inst)
            ch = (1, [v])
            out.append(ch)
        elif cv == "s":
            out.append(fmt_str(ex, st, v, wd, pr, fl, inst))
        elif cv in "diuxX":
            out.append(fmt_int(ex, st, v, fl, wd, pr, cv, inst, 64 if ln in ("l", "ll", "z") else 32))
        elif cv in "feg":
            r = ex.fdom.fmt(ex, st, v, fl, wd, pr, cv, inst) if ex.fdom is not None else None
            if r is None: raise Unsupported("float format " + fmt)
            out.append(r)
        else: raise Unsupported("format " + fmt)
    return out


def fmt_str(ex, st, v, wd, pr, fl, inst):
    alts = one(ex, st, v, inst, "%s argument")
    res = None
    for g, q in reversed(alts):
        n = strlen_ptr(ex, st, q, inst, "%s argument")
        if pr is not None: n = ite(ex.icmp(st, "sgt", n, pr, 64, inst), pr, n)
        hi = ex.r(n)[1]
        bs = [byte(ex, st, q, k) for k in range(min(hi, st.mem[q.obj].size))]
        if wd is not None and not (isinstance(n, int) and n >= wd):
            if not isinstance(n, int): raise Unsupported("padded symbolic %s")
            pad = [32] * (wd - n)
            bs = bs[:n] + pad if "-" in fl else pad + bs[:n]
            n = wd
        if res is None: res = (n, bs)
        else:
            n0, b0 = res
            L = max(len(bs), len(b0))
            mb = [ex.merge_val(g, bs[k] if k < len(bs) else UNDEF, b0[k] if k < len(b0) else UNDEF) for k in range(L)]
            res = (ite(g, n, n0), mb)
    return res


def fmt_int(ex, st, v, fl, wd, pr, cv, inst, w):
    if cv in "ux X".replace(" ", ""): v = ex.unsigned(v, w) if cv != "d" else v
    base = 16 if cv in "xX" else 10
    if isinstance(v, int):
        spec = "%" + fl + (str(wd) if wd is not None else "") + ("." + str(pr) if pr is not None else "") + ("d" if cv in "diu" else cv)
        t = spec % v
        return (len(t), [ord(c) for c in t])
    lo, hi = ex.r(v, w)
    # sign
    neg = ex.icmp(st, "slt", v, 0, w, inst) if lo < 0 else False
    av = v if lo >= 0 else ite(neg, -v, v)
    if z3.is_expr(av): ex.setr(av, 0, max(abs(lo), abs(hi)))
    mx = max(abs(lo), abs(hi))
    nd = 1
    while base ** nd <= mx: nd += 1
    if nd > 20: raise Unsupported("integer format range")
    digs = []          # digs[k] = k-th digit from the right
    for k in range(nd):
        d = (av / (base ** k)) % base if k else av % base
        ex.setr(d, 0, base - 1)
        ch = d + 48 if base == 10 else z3.If(d < 10, d + 48, d + (55 if cv == "X" else 87))
        ex.setr(ch, 48, 57 if base == 10 else 102)
        digs.append(ch)
    n = 1
    for k in range(1, nd):
        n = ite(ex.icmp(st, "sge", av, base ** k, 64, inst), k + 1, n) if False else n
    # number of digits
    n = nd
    for k in range(nd - 1, 0, -1):
        n = ite(ex.icmp(st, "slt", av, base ** k, 64, inst), k, n)
    if pr is not None: mind = pr
    elif wd is not None and "0" in fl and "-" not in fl: mind = wd
    else: mind = 1
    zero_pad_sign = pr is None and mind > 1
    plus = "+" in fl
    space = " " in fl
    signed = (lo < 0) or plus or space
    # enumerate the number of digits (small) and the sign
    outs = []
    for dn in range(1, nd + 1):
        c = ex.icmp(st, "eq", n, dn, 32, inst)
        if is_false(c): continue
        for sg in ((True, False) if lo < 0 else (False,)):
            c2 = band(c, neg if sg else bnot(neg))
            if is_false(c2): continue
            sign = [45] if sg else [43] if plus else [32] if space else []
            body = [digs[k] for k in range(dn - 1, -1, -1)]
            want = mind - (len(sign) if zero_pad_sign else 0)
            body = [48] * max(0, want - dn) + body
            t = sign + body
            if wd is not None and len(t) < wd:
                t = t + [32] * (wd - len(t)) if "-" in fl else [32] * (wd - len(t)) + t
            outs.append((c2, t))
    L = max(len(t) for _, t in outs)
    ln = len(outs[-1][1]); bs = list(outs[-1][1]) + [UNDEF] * (L - ln)
    for c2, t in reversed(outs[:-1]):
        ln = ite(c2, len(t), ln)
        bs = [ex.merge_val(c2, t[k] if k < len(t) else UNDEF, bs[k]) for k in range(L)]
    return (ln, bs)


def concat(ex, st, chunks, inst):
    """concatenate symbolic-length chunks into (len, bytes)"""
    tot = 0; buf = []
    for n, bs in chunks:
        if isinstance(tot, int):
            buf = buf[:tot] + list(bs); tot = ex.add_terms(tot, n)
            if z3.is_expr(tot):
                l, h = ex.r(n); ex.setr(tot, len(buf) - len(bs) + l, len(buf) - len(bs) + h)
        else:
            lo, hi = ex.r(tot)
            nb = [UNDEF] * (hi + len(bs))
            for k in range(len(nb)): nb[k] = buf[k] if k < len(buf) else UNDEF
            for start in range(lo, hi + 1):
                c = ex.icmp(st, "eq", tot, start, 64, inst)
                for k, b in enumerate(bs):
                    nb[start + k] = ex.merge_val(c, b, nb[start + k])
            buf = nb
            l, h = ex.r(n)
            t2 = ex.add_terms(tot, n)
            if z3.is_expr(t2): ex.setr(t2, lo + l, hi + h)
            tot = t2
    return tot, buf


def cstr(ex, st, p):
    """concrete C string at pointer"""
    if not isinstance(p, Ptr) or not isinstance(p.off, int): raise Unsupported("symbolic format string")
    o = st.mem[p.obj]; s = ""
    x = p.off
    while True:
        v = ex.load_at(st, o, x, I8)
        if not isinstance(v, int): raise Unsupported("symbolic format string")
        if v == 0: return s
        s += chr(v & 255); x += 1


def put_string(ex, st, d, size, n, bs, inst, what):
    """snprintf store: at most size-1 bytes and a NUL"""
    for g, p in one(ex, st, d, inst, what):
        o = st.mem[p.obj]
        if not isinstance(size, int):
            l, h = ex.r(size)
        else: l = h = size
        tot_hi = min(ex.r(n)[1], h - 1 if h > 0 else 0)
        # bytes written = min(n, size-1)+1 if size > 0
        if isinstance(n, int) and isinstance(size, int):
            if size <= 0: continue
            m = min(n, size - 1)
            if not ex.bounds(st, p, m + 1, g, inst, what): continue
        else:
            m = ite(ex.icmp(st, "slt", n, ex.add_terms(size, -1), 64, inst), n, ex.add_terms(size, -1))
            if z3.is_expr(m): ex.setr(m, min(ex.r(n)[0], l - 1), tot_hi)
            ex.oblige(st, bimp(band(g, ex.icmp(st, "sgt", size, 0, 64, inst)), band(zi(p.off) >= 0, zi(p.off) + m + 1 <= o.size)),
                      what + " inside '%s'" % o.name, inst)
        gs = band(g, ex.icmp(st, "sgt", size, 0, 64, inst))
        for k in range(tot_hi + 1):
            q = ex.padd(st, p, k)
            if isinstance(q.off, int) and q.off >= o.size: break
            inb = band(gs, ex.icmp(st, "slt", k, m, 64, inst))
            if k < len(bs) and not is_false(inb) and bs[k] is not UNDEF: ex.store1(st, q, 1, bs[k], inb, I8)
            z = band(gs, ex.icmp(st, "eq", m, k, 64, inst))
            if not is_false(z): ex.store1(st, q, 1, 0, z, I8)


@lib("snprintf", "sprintf")
def _snprintf(ex, st, a, inst, fr):
    if "@sprintf" in inst.text: a = [a[0], 1 << 30] + a[1:]
    return do_snprintf(ex, st, a[0], a[1], a[2], a[3:], inst, "snprintf")


def do_snprintf(ex, st, d, size, f, args, inst, what):
    fmt = cstr(ex, st, f)
    n, bs = concat(ex, st, fmt_pieces(ex, st, fmt, args, inst), inst)
    put_string(ex, st, d, size, n, bs, inst, what)
    return n


def va(ex, st, p):
    o = st.mem[p.obj]
    c = o.cells.get(("va",))
    return c


@lib("vsnprintf")
def _vsnprintf(ex, st, a, inst, fr):
    p = a[3]
    args = getattr(ex, "va_lists", {}).get(p.obj)
    if args is None: raise Unsupported("vsnprintf without va_start")
    return do_snprintf(ex, st, a[0], a[1], a[2], args, inst, "vsnprintf")


def intrinsic(name):
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"): return _memcpy
    if name.startswith("llvm.memset"): return _memset
    if name.startswith("llvm.va_start"):
        def f(ex, st, a, inst, fr):
            if not hasattr(ex, "va_lists"): ex.va_lists = {}
            ex.va_lists[a[0].obj] = fr.varargs
            return None
        return f
    if name.startswith("llvm.va_end"): return lambda ex, st, a, inst, fr: None
    if name.startswith("llvm.abs"): return _abs
    if name.startswith("llvm.fabs"): return LIB["fabs"]
    if name.startswith("llvm.trap"): return _assert_fail
    if name.startswith("llvm.floor"): return LIB["floor"]
    if name.startswith("llvm.assume"): return lambda ex, st, a, inst, fr: None
    if name.startswith("llvm.expect"): return lambda ex, st, a, inst, fr: a[0]
    return None


def mathfn(name, pyf):
    def f(ex, st, a, inst, fr):
        if all(isinstance(x, float) for x in a) and ex.fdom_concrete():
            try: return float(pyf(*a))
            except (ValueError, OverflowError): return float("nan")
        return ex.fdom.call(ex, st, name, a, inst)
    LIB[name] = f


def _fdc(ex): return ex.fdom is None or ex.fdom.concrete_ok


Executor.fdom_concrete = _fdc
for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log10", "sqrt", "fabs", "floor", "ceil", "asinh", "acosh", "atanh"):
    mathfn(_n, getattr(math, _n))
mathfn("log", math.log); mathfn("atan2", math.atan2); mathfn("pow", math.pow); mathfn("fmod", math.fmod)
mathfn("hypot", math.hypot)
mathfn("floorl", math.floor); mathfn("fabsl", math.fabs); mathfn("fmodl", math.fmod); mathfn("sqrtl", math.sqrt); mathfn("ceill", math.ceil)
mathfn("cbrt", lambda x: math.copysign(abs(x) ** (1 / 3), x))
for _n in ("sinl", "cosl"): mathfn(_n, getattr(math, _n[:-1]))


@lib("sscanf", "__isoc99_sscanf", "__isoc23_sscanf")
def _sscanf(ex, st, a, inst, fr):
    """a concrete string read with a concrete format: %lf, %d, %n and literal characters"""
    import re
    txt, fmt = cstr(ex, st, a[0]), cstr(ex, st, a[1]); args = list(a[2:]); n = 0; i = 0; k = 0
    while k < len(fmt):
        if fmt[k].isspace():
            while i < len(txt) and txt[i].isspace(): i += 1
            k += 1; continue
        if fmt[k] != "%":
            if i >= len(txt): return n if n or i else -1
            if txt[i] != fmt[k]: return n
            i += 1; k += 1; continue
        m = re.match(r"%(lf|d|n)", fmt[k:])
        if not m: raise Unsupported("sscanf format " + fmt)
        k += m.end(); c = m.group(1); d = args.pop(0)
        if c == "n":
            ex.store(st, d, INT(32), i, inst); continue
        while i < len(txt) and txt[i].isspace(): i += 1
        if i >= len(txt): return n or -1
        m = re.match(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?" if c == "lf" else r"[+-]?\d+", txt[i:])
        if not m:
            if c == "lf" and re.match(r"[+-]?(inf|nan|0x)", txt[i:], re.I): raise Unsupported("sscanf of a special value")
            return n
        i += m.end(); n += 1
        if c == "lf": ex.store(st, d, DOUBLE, float(m.group(0)), inst)
        else: ex.store(st, d, INT(32), int(m.group(0)), inst)
    return n
