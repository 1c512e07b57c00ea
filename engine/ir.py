"""Parser for the textual LLVM IR that clang emits for /repo's sources.

The IR is produced on every run from the working tree; nothing is cached
between runs.  Only the subset that clang -O0 + sroa emits for C/C++ without
exceptions handling in the verified functions is understood; an instruction
outside that subset raises Unsupported only when it is *executed*, so that a
function nobody verifies cannot disturb a check."""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "el", "n", "fields", "offs", "size", "align", "name")

    def __init__(s, k, w=0, el=None, n=0, fields=None, name=None, packed=False):
        s.k = k; s.w = w; s.el = el; s.n = n; s.fields = fields; s.name = name
        s.offs = None
        if k == "i":
            s.size = 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
            s.align = s.size
        elif k == "f":
            s.size = {32: 4, 64: 8, 80: 16}[w]
            s.align = s.size
        elif k == "ptr":
            s.size = s.align = 8
        elif k == "arr":
            s.size = el.size * n
            s.align = el.align
        elif k == "struct":
            off = 0; al = 1; s.offs = []
            for f in fields:
                a = 1 if packed else f.align
                al = max(al, a)
                off = (off + a - 1) // a * a
                s.offs.append(off)
                off += f.size
            s.size = (off + al - 1) // al * al
            s.align = al
        else:
            s.size = 0; s.align = 1

    def __repr__(s):
        if s.k == "i": return "i%d" % s.w
        if s.k == "f": return "f%d" % s.w
        if s.k == "arr": return "[%d x %r]" % (s.n, s.el)
        if s.k == "struct": return "{%s}" % ",".join(map(repr, s.fields))
        return s.k


PTR = Ty("ptr"); VOID = Ty("void"); DOUBLE = Ty("f", 64); FLOAT = Ty("f", 32); X80 = Ty("f", 80)
LABEL = Ty("label"); META = Ty("metadata")
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty("i", w)
    return _ints[w]


TOK = re.compile(r'''\s*(?:
   (c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | ("(?:[^"\\]|\\.)*")
 | ([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (![-a-zA-Z$._0-9]*)
 | (\#[0-9]+)
 | (\.\.\.)
 | ([-+]?(?:0x[KLMHR]?[0-9A-Fa-f]+|[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?))
 | ([a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (\S)
)''', re.X)


def tokenize(s):
    out = []; pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            break
        t = m.group(m.lastindex)
        if t == ";" : break
        out.append(t)
        pos = m.end()
    return out


class P:
    """token stream with the type / constant grammar"""
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.m = mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        x = s.t[s.i]; s.i += 1
        return x

    def accept(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        y = s.next()
        if y != x:
            raise Unsupported("expected %r got %r in %r" % (x, y, s.t))

    def type(s):
        t = s.next()
        if t == "ptr":
            ty = PTR
        elif t == "double": ty = DOUBLE
        elif t == "float": ty = FLOAT
        elif t == "x86_fp80": ty = X80
        elif t == "void": ty = VOID
        elif t == "label": ty = LABEL
        elif t == "metadata": ty = META
        elif re.fullmatch(r"i[0-9]+", t):
            ty = INT(int(t[1:]))
        elif t == "[":
            n = int(s.next()); s.expect("x"); el = s.type(); s.expect("]")
            ty = Ty("arr", el=el, n=n)
        elif t == "{":
            fs = []
            if not s.accept("}"):
                while True:
                    fs.append(s.type())
                    if s.accept("}"): break
                    s.expect(",")
            ty = Ty("struct", fields=fs)
        elif t == "<":
            if s.peek() == "{":
                s.next(); fs = []
                if not s.accept("}"):
                    while True:
                        fs.append(s.type())
                        if s.accept("}"): break
                        s.expect(",")
                s.expect(">")
                ty = Ty("struct", fields=fs, packed=True)
            else:
                n = int(s.next()); s.expect("x"); el = s.type(); s.expect(">")
                ty = Ty("vec", el=el, n=n)
        elif t.startswith("%"):
            ty = s.m.named_type(t)
        else:
            raise Unsupported("type " + t)
        if s.peek() == "(":          # function type
            d = 0
            while True:
                x = s.next()
                if x == "(": d += 1
                if x == ")":
                    d -= 1
                    if d == 0: break
            ty = Ty("fn")
        return ty

    ATTRS = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "writeonly",
             "returned", "noalias", "inreg", "immarg", "readnone", "nofree", "dead_on_unwind",
             "writable", "noreturn", "nounwind", "swiftself"}

    def skip_attrs(s):
        while True:
            t = s.peek()
            if t in s.ATTRS:
                s.next()
            elif t in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "captures", "initializes", "memory"):
                s.next()
                if s.peek() == "(":
                    d = 0
                    while True:
                        x = s.next()
                        if x == "(": d += 1
                        if x == ")":
                            d -= 1
                            if d == 0: break
                else:
                    s.next()
            else:
                return

    def value(s, ty):
        """operand of type ty -> ('loc',name) ('glob',name) ('int',v) ('flt',v) ('null',) ('undef',)
        ('agg',[...]) ('str',bytes) ('zero',) ('gep',ty,base,idx) ('cast',op,ty,val,ty2)"""
        t = s.next()
        if t[0] == "%": return ("loc", t[1:].strip('"'))
        if t[0] == "@": return ("glob", t[1:].strip('"'))
        if t == "true": return ("int", 1)
        if t == "false": return ("int", 0)
        if t == "null": return ("null",)
        if t in ("undef", "poison"): return ("undef",)
        if t == "zeroinitializer": return ("zero",)
        if t == "none": return ("undef",)
        if t[0] == "c" and t[1:2] == '"':
            body = t[2:-1]
            b = bytearray(); i = 0
            while i < len(body):
                if body[i:i + 2] == "\\\\":
                    b.append(92); i += 2
                elif body[i] == "\\":
                    b.append(int(body[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(body[i])); i += 1
            return ("str", bytes(b))
        if t in ("[", "{", "<"):
            if t == "<" and s.peek() == "{":
                s.next(); end = "}"
                packed = True
            else:
                end = {"[": "]", "{": "}", "<": ">"}[t]; packed = False
            vals = []
            if not s.accept(end):
                while True:
                    et = s.type()
                    vals.append((et, s.value(et)))
                    if s.accept(end): break
                    s.expect(",")
            if packed: s.expect(">")
            return ("agg", vals)
        if t == "getelementptr":
            while s.peek() in ("inbounds", "nuw", "nusw"): s.next()
            s.expect("(")
            bt = s.type(); s.expect(",")
            ops = []
            while True:
                s.accept("inrange")
                ot = s.type(); ops.append((ot, s.value(ot)))
                if s.accept(")"): break
                s.expect(",")
            return ("gep", bt, ops[0], ops[1:])
        if t in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"):
            s.expect("("); t1 = s.type(); v = s.value(t1); s.expect("to"); t2 = s.type(); s.expect(")")
            return ("cast", t, t1, v, t2)
        if t in ("sub", "add", "mul"):
            while s.peek() in ("nsw", "nuw"): s.next()
            s.expect("("); t1 = s.type(); v1 = s.value(t1); s.expect(","); t2 = s.type(); v2 = s.value(t2); s.expect(")")
            return ("cbin", t, t1, v1, v2)
        if ty.k == "f":
            return ("flt", parse_float(t, ty))
        if re.fullmatch(r"-?[0-9]+", t):
            return ("int", int(t))
        if t == "asm":
            return ("asm",)
        raise Unsupported("value %r" % (t[:40],))


def parse_float(t, ty):
    import struct
    if t.startswith("0xK"):
        v = int(t[3:], 16)
        man = v & ((1 << 64) - 1); se = v >> 64
        sign = -1 if se & 0x8000 else 1
        e = se & 0x7fff
        if e == 0 and man == 0: return 0.0 * sign
        if e == 0x7fff: return float("inf") * sign if man << 1 & ((1 << 64) - 1) == 0 else float("nan")
        from fractions import Fraction
        fr = Fraction(man) * (Fraction(2) ** (e - 16383 - 63)) * sign
        f = float(fr)
        return f if Fraction(f) == fr else fr
    if t.startswith("0x"):
        return struct.unpack(">d", int(t[2:], 16).to_bytes(8, "big"))[0]
    return float(t)


class Inst:
    __slots__ = ("op", "res", "ty", "a", "text", "dbg")

    def __init__(s, op, res, ty, a, text, dbg):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.text = text; s.dbg = dbg


class Fn:
    def __init__(s, name, ret, params, vararg, mod):
        s.name = name; s.ret = ret; s.params = params; s.vararg = vararg; s.mod = mod
        s.lines = []; s._blocks = None; s.internal = False
        s.dbg = None

    @property
    def blocks(s):
        if s._blocks is None:
            s._parse()
        return s._blocks

    def _parse(s):
        blocks = {}; cur = None; order = []
        lines = s.lines; i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            if not ln.strip() or ln.lstrip().startswith(";"): continue
            m = re.match(r'^("[^"]+"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = m.group(1).strip('"'); blocks[cur] = []; order.append(cur)
                continue
            if cur is None:
                cur = "entry" if "entry" not in blocks else "0"
                # unnamed entry: number = count of params
                blocks[cur] = []; order.append(cur)
            st = ln.strip()
            if st.startswith("switch") or " switch " in st:
                while "]" not in st:
                    st += " " + lines[i].strip(); i += 1
            elif st.startswith("invoke") or re.match(r"%\S+ = (invoke|landingpad)", st):
                while i < len(lines) and lines[i].startswith("          "):
                    st += " " + lines[i].strip(); i += 1
            blocks[cur].append(s.mod.parse_inst(st))
        s._blocks = blocks; s.order = order; s.entry = order[0]


class Module:
    def __init__(s, text, src):
        s.src = src
        s.types = {}; s._tydefs = {}
        s.globals = {}       # name -> (ty, init value tuple or None, isconst, internal)
        s.fns = {}; s.decls = {}
        s.meta = {}
        lines = text.split("\n"); i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            if ln.startswith("%") and " = type " in ln:
                nm, body = ln.split(" = type ", 1)
                s._tydefs[nm.strip().strip('"')] = body
                s._tydefs[nm.strip()] = body
            elif ln.startswith("@"):
                s._parse_global(ln)
            elif ln.startswith("define"):
                f = s._parse_define(ln)
                while not lines[i].startswith("}"):
                    f.lines.append(lines[i]); i += 1
                i += 1
                s.fns[f.name] = f
            elif ln.startswith("declare"):
                m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", ln)
                if m: s.decls[m.group(1).strip('"')] = ln
            elif ln.startswith("!") and "DILocation(" in ln:
                m = re.match(r"(![0-9]+) = (?:distinct )?!DILocation\(line: (\d+)", ln)
                if m: s.meta[m.group(1)] = int(m.group(2))

    def named_type(s, t):
        if t not in s.types:
            body = s._tydefs.get(t)
            if body is None or body.strip().startswith("opaque"):
                s.types[t] = Ty("struct", fields=[], name=t)
            else:
                s.types[t] = P(tokenize(body), s).type()
        return s.types[t]

    def _parse_global(s, ln):
        m = re.match(r'@("[^"]+"|[-a-zA-Z$._0-9]+) = (.*)', ln)
        if not m: return
        name = m.group(1).strip('"'); rest = m.group(2)
        toks = tokenize(rest)
        p = P(toks, s)
        ext = False; internal = False; const = False
        while True:
            t = p.peek()
            if t in ("internal", "private"): internal = True; p.next()
            elif t in ("external", "extern_weak"): ext = True; p.next()
            elif t in ("constant",): const = True; p.next(); break
            elif t in ("global",): p.next(); break
            elif t in ("alias", "ifunc"): return
            elif t == "thread_local": p.next()
            elif t is None: return
            elif t == "(":
                while p.next() != ")": pass
            else: p.next()
        s.globals[name] = (p, ext, const, internal)

    def global_info(s, name):
        g = s.globals[name]
        if isinstance(g[0], P):
            p, ext, const, internal = g
            ty = p.type()
            init = None if ext else p.value(ty)
            g = s.globals[name] = (ty, init, const, internal)
        return g

    def _parse_define(s, ln):
        m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", ln)
        name = m.group(1).strip('"')
        toks = tokenize(ln[m.end():])
        pre = ln[:m.start()].split()
        p = P(toks, s)
        params = []; vararg = False
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    vararg = True
                else:
                    ty = p.type(); p.skip_attrs()
                    nm = p.next()[1:].strip('"') if p.peek() and p.peek()[0] == "%" else str(len(params))
                    params.append((ty, nm))
                if p.accept(")"): break
                p.expect(",")
        rt = P(tokenize(ln[:m.start()].split("define", 1)[1]), s)
        ret = None
        while rt.peek() is not None:
            try:
                k = rt.i; rt.skip_attrs()
                if rt.peek() in ("dso_local", "internal", "linkonce_odr", "weak", "weak_odr", "hidden", "available_externally", "linkonce", "unnamed_addr", "protected"):
                    rt.next(); continue
                ret = rt.type(); break
            except Unsupported:
                rt.i = k + 1
        f = Fn(name, ret, params, vararg, s)
        f.internal = "internal" in pre
        return f

    def parse_inst(s, st):
        dbg = None
        m = re.search(r", !dbg (![0-9]+)", st)
        if m:
            dbg = s.meta.get(m.group(1))
            st2 = st[:m.start()]
        else:
            st2 = st
        res = None
        m = re.match(r'%("[^"]+"|[-a-zA-Z$._0-9]+) = (.*)', st2)
        if m:
            res = m.group(1).strip('"'); st2 = m.group(2)
        try:
            return s._inst(res, st2, st, dbg)
        except (Unsupported, IndexError, ValueError) as e:
            return Inst("unsupported", res, None, str(e), st, dbg)

    def _inst(s, res, st, full, dbg):
        p = P(tokenize(st), s)
        op = p.next()
        if op in ("tail", "musttail", "notail"): op = p.next()
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                flags.add(p.next())
            ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
            return Inst("bin", res, ty, (op, flags, a, b), full, dbg)
        if op in ("icmp", "fcmp"):
            pred = p.next()
            while p.peek() in ("samesign", "fast", "nnan", "ninf"): p.next()
            ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
            return Inst(op, res, ty, (pred, a, b), full, dbg)
        if op == "fneg":
            ty = p.type(); return Inst("fneg", res, ty, p.value(ty), full, dbg)
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast"):
            while p.peek() in ("nneg", "nsw", "nuw"): p.next()
            t1 = p.type(); v = p.value(t1); p.expect("to"); t2 = p.type()
            return Inst("cast", res, t2, (op, t1, v), full, dbg)
        if op == "alloca":
            ty = p.type(); n = None
            while p.accept(","):
                if p.peek() == "align": p.next(); p.next()
                else:
                    nt = p.type(); n = (nt, p.value(nt))
            return Inst("alloca", res, ty, n, full, dbg)
        if op == "load":
            p.accept("volatile")
            ty = p.type(); p.expect(","); p.type(); return Inst("load", res, ty, p.value(PTR), full, dbg)
        if op == "store":
            p.accept("volatile")
            ty = p.type(); v = p.value(ty); p.expect(","); p.type(); q = p.value(PTR)
            return Inst("store", None, ty, (v, q), full, dbg)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            bt = p.type(); p.expect(","); p.type(); base = p.value(PTR); idx = []
            while p.accept(","):
                it = p.type(); idx.append((it, p.value(it)))
            return Inst("gep", res, bt, (base, idx), full, dbg)
        if op == "br":
            if p.peek() == "label":
                p.next(); return Inst("br", None, None, (None, p.next()[1:].strip('"')), full, dbg)
            t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); l1 = p.next()[1:].strip('"')
            p.expect(","); p.expect("label"); l2 = p.next()[1:].strip('"')
            return Inst("br", None, None, (c, l1, l2), full, dbg)
        if op == "switch":
            ty = p.type(); v = p.value(ty); p.expect(","); p.expect("label"); d = p.next()[1:].strip('"')
            p.expect("["); cases = []
            while not p.accept("]"):
                ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label")
                cases.append((cv[1], p.next()[1:].strip('"')))
            return Inst("switch", None, ty, (v, d, cases), full, dbg)
        if op == "ret":
            ty = p.type(); return Inst("ret", None, ty, None if ty.k == "void" else p.value(ty), full, dbg)
        if op == "unreachable":
            return Inst("unreachable", None, None, None, full, dbg)
        if op == "phi":
            while p.peek() in ("fast", "nnan", "ninf"): p.next()
            ty = p.type(); inc = []
            while True:
                p.expect("["); v = p.value(ty); p.expect(","); inc.append((v, p.next()[1:].strip('"'))); p.expect("]")
                if not p.accept(","): break
            return Inst("phi", res, ty, inc, full, dbg)
        if op == "select":
            while p.peek() in ("fast", "nnan", "ninf"): p.next()
            t = p.type(); c = p.value(t); p.expect(","); ty = p.type(); a = p.value(ty); p.expect(","); p.type(); b = p.value(ty)
            return Inst("select", res, ty, (c, a, b), full, dbg)
        if op == "freeze":
            ty = p.type(); return Inst("freeze", res, ty, p.value(ty), full, dbg)
        if op == "call":
            while p.peek() in ("fastcc", "ccc", "fast", "nnan", "ninf"): p.next()
            p.skip_attrs()
            ty = p.type()
            if p.peek() == "(":      # vararg fn type already skipped by type(); safety
                while p.next() != ")": pass
            if ty.k == "fn":
                # function type form "i32 (ptr, i64, ptr, ...)": recover the return type
                m = re.match(r"(?:tail |notail |musttail )?call (?:fastcc )?(?:noundef |signext |zeroext )*(\S+)", st)
                ty = P(tokenize(m.group(1)), s).type()
            callee = p.value(PTR)
            p.expect("("); args = []
            if not p.accept(")"):
                while True:
                    at = p.type(); p.skip_attrs()
                    if at.k == "metadata":
                        d = 0
                        while not (d == 0 and p.peek() in (",", ")")):
                            x = p.next()
                            if x == "(": d += 1
                            if x == ")": d -= 1
                        args.append((at, None))
                    else:
                        args.append((at, p.value(at)))
                    if p.accept(")"): break
                    p.expect(",")
            return Inst("call", res, ty, (callee, args), full, dbg)
        if op in ("extractvalue",):
            ty = p.type(); v = p.value(ty); idx = []
            while p.accept(","): idx.append(int(p.next()))
            return Inst("extractvalue", res, ty, (v, idx), full, dbg)
        if op == "insertvalue":
            ty = p.type(); v = p.value(ty); p.expect(","); t2 = p.type(); v2 = p.value(t2); idx = []
            while p.accept(","): idx.append(int(p.next()))
            return Inst("insertvalue", res, ty, (v, t2, v2, idx), full, dbg)
        raise Unsupported(op)
