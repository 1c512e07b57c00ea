"""Extraction: compile /repo's sources to LLVM IR with clang on every run and index the functions.

What the extraction drops: comments, formatting, preprocessor-disabled code, debug info except line
numbers, and local variables that sroa promotes to SSA form.  Nothing else: there is no hand-written text."""
import os, re, subprocess, tempfile, shutil, concurrent.futures
from ir import Module, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = shutil.which("clang-18") or shutil.which("clang") or "clang"
CLANGXX = shutil.which("clang++-18") or shutil.which("clang++") or "clang++"
OPT = shutil.which("opt-18") or shutil.which("opt") or "/usr/lib/llvm-18/bin/opt"


class ExtractError(Exception):
    pass


def base_name(n):
    m = re.match(r"_Z(?:N12_GLOBAL__N_1)?L?(\d+)", n)
    if m:
        k = int(m.group(1)); s = n[m.end():m.end() + k]
        if len(s) == k: return s
    n = re.sub(r"\.\d+$", "", n)
    return n


def compile_ir(src, tmp, defs=()):
    src = os.path.join(REPO, src)
    b = os.path.basename(src)
    ll = os.path.join(tmp, b + ".ll"); o = os.path.join(tmp, b + ".opt.ll")
    cc = CLANG if src.endswith(".c") else CLANGXX
    base = [cc, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-ffp-contract=off",
            "-gline-tables-only", "-w", "-S", "-emit-llvm", "-fno-exceptions", "-I", REPO] + list(defs)
    r = None
    for extra in ([], ["-U_GNU_SOURCE", "-D_XOPEN_SOURCE=700"]):
        r = subprocess.run(base + extra + [src, "-o", ll], capture_output=True, text=True)
        if r.returncode == 0: break
    if r.returncode != 0:
        raise ExtractError("clang failed on %s:\n%s" % (src, r.stderr[-2000:]))
    r = subprocess.run([OPT, "-S", "-passes=sroa", ll, "-o", o], capture_output=True, text=True)
    if r.returncode != 0: raise ExtractError("opt failed: " + r.stderr[-1000:])
    with open(o) as f: return Module(f.read(), src)


class Program:
    def __init__(s, sources, defs=None):
        """sources: list of file names relative to /repo"""
        s.mods = []
        tmp = tempfile.mkdtemp(prefix="vc_ir_")
        try:
            defs = defs or {}
            with concurrent.futures.ThreadPoolExecutor(8) as tp:
                s.mods = list(tp.map(lambda f: compile_ir(f, tmp, defs.get(f, ())), sources))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        s.fns = {}; s.bases = {}
        for m in s.mods:
            for n, f in m.fns.items():
                f.base = base_name(n)
                if not f.internal: s.fns.setdefault(n, f)
                s.bases.setdefault(f.base, []).append(f)

    def find_fn(s, name, mod=None):
        if mod is not None and name in mod.fns: return mod.fns[name]
        return s.fns.get(name)

    def find_global(s, name, mod=None):
        if mod is not None and name in mod.globals:
            g = mod.globals[name]
            if not (g[1] is True): 
                return mod, name
        for m in s.mods:
            if name in m.globals:
                info = m.global_info(name)
                if info[1] is not None and not info[3]: return m, name
        if mod is not None and name in mod.globals and mod.global_info(name)[1] is not None: return mod, name
        return None, None

    def get(s, base, required=True):
        l = s.bases.get(base)
        if l: return l[0]
        if required: raise ExtractError("function %s not found in the extracted program" % base)
        return None

    def role(s, base, sig, roots, ok=None):
        """a static helper that was renamed: the one function reachable from 'roots' with this signature (of several: the outermost)
        takes its name.  Its contract is proved for whatever function is found, so a wrong guess cannot hide anything."""
        if s.bases.get(base): return
        known = s.reach(roots); c = [f for f in known.values() if f.internal and s.sig(f) == sig]
        if ok is not None: c = [f for f in c if ok(f)]
        out = [f for f in c if not any(g is not f and f.name in s.callees(g) for g in c)]
        if len(out) != 1: return
        f = out[0]; s.bases[f.base] = [g for g in s.bases[f.base] if g is not f]; f.base = base; s.bases[base] = [f]

    @staticmethod
    def sig(f): return "%s(%s)" % (f.ret, ",".join(str(p[0]) for p in f.params))

    @staticmethod
    def callees(f):
        r = set()
        for b in f.blocks.values():
            for i in b:
                if i.op == "call":
                    m = re.search(r'@"?([\w.$]+)"?\(', i.text)
                    if m: r.add(m.group(1))
        return r

    def reach(s, roots):
        todo = [f for r in roots for f in s.bases.get(r, [])]; seen = {f.name: f for f in todo}
        while todo:
            f = todo.pop()
            for n in s.callees(f):
                g = f.mod.fns.get(n) or s.fns.get(n)
                if g is not None and g.name not in seen: seen[g.name] = g; todo.append(g)
        return seen
