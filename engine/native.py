"""The real code, compiled from /repo's working tree on every run, for replay and for the search that
tries to turn an undischarged obligation into a failing input."""
import ctypes, os, subprocess, tempfile, shutil, signal, time, mmap, pickle, struct, random, sys, json
from link import REPO

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vc_nat_")
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class BuildError(Exception):
    pass


def build(sources, name="nat", defs=None, extra_c=None, opt="-O1"):
    """sources: repo-relative files; defs: {file: [flags]}; extra_c: C++ text appended as its own unit"""
    d = tmpdir(); defs = defs or {}
    objs = []; procs = []
    for i, s in enumerate(sources):
        o = os.path.join(d, "%s_%d.o" % (name, i))
        cc = "gcc" if s.endswith(".c") else "g++"
        procs.append((s, subprocess.Popen([cc, opt, "-w", "-fPIC", "-I", REPO, "-c", os.path.join(REPO, s), "-o", o] + list(defs.get(s, ())),
                                          stderr=subprocess.PIPE, text=True)))
        objs.append(o)
    if extra_c:
        f = os.path.join(d, name + "_x.cpp")
        with open(f, "w") as h: h.write(extra_c)
        o = os.path.join(d, name + "_x.o")
        procs.append(("extra", subprocess.Popen(["g++", opt, "-w", "-fPIC", "-I", REPO, "-c", f, "-o", o], stderr=subprocess.PIPE, text=True)))
        objs.append(o)
    for s, p in procs:
        _, e = p.communicate()
        if p.returncode: raise BuildError("%s: %s" % (s, e[-1500:]))
    so = os.path.join(d, "lib%s.so" % name)
    r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", so] + objs + ["-lm"], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-1500:])
    return ctypes.CDLL(so)


def guarded(fn, timeout=10):
    """run fn() in a child: returns ('ok', value) | ('crash', why) | ('hang', t)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            v = fn()
            os.write(w, pickle.dumps(v))
            os._exit(0)
        except BaseException as e:
            os.write(w, pickle.dumps(("exc", repr(e))))
            os._exit(99)
    os.close(w)
    import select
    data = b""; end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
            return ("hang", timeout)
        a, _, _ = select.select([r], [], [], left)
        if a:
            b = os.read(r, 65536)
            if not b: break
            data += b
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt): return ("crash", "signal %d" % os.WTERMSIG(stt))
    if os.WEXITSTATUS(stt) not in (0,):
        if data: return ("exc", pickle.loads(data))
        return ("crash", "exit status %d" % os.WEXITSTATUS(stt))
    if not data: return ("crash", "exit() called")
    return ("ok", pickle.loads(data))


def search(worker, seconds, procs=8, seed=1, hang=5.0):
    """worker(rng, slot, stop) runs in a child, calling note(x) before each real call and returning a failing
    description or None.  A crash or hang of the child is itself a finding at the noted input."""
    kids = []
    t0 = time.time()
    shared = mmap.mmap(-1, procs * 8192)
    for k in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                cnt = [0]

                def note(x):
                    cnt[0] += 1
                    b = pickle.dumps(x)[:8000]
                    base = k * 8192
                    shared[base + 16:base + 16 + len(b)] = b
                    shared[base:base + 16] = struct.pack("<qq", cnt[0], len(b))
                v = worker(random.Random(seed * 1000 + k), k, procs, t0 + seconds, note)
                os.write(w, pickle.dumps((v, cnt[0])))
                os._exit(0)
            except BaseException as e:
                os.write(w, pickle.dumps((("exc", repr(e)), 0)))
                os._exit(98)
        os.close(w)
        kids.append([pid, r, k, 0, time.time()])
    found = None; evals = 0
    import select
    live = list(kids)
    while live:
        a, _, _ = select.select([x[1] for x in live], [], [], 0.5)
        now = time.time()
        for x in list(live):
            base = x[2] * 8192
            c, ln = struct.unpack("<qq", shared[base:base + 16])
            if x[1] in a:
                data = os.read(x[1], 1 << 20)
                try: _, stt = os.waitpid(x[0], 0)
                except ChildProcessError: stt = 0
                os.close(x[1]); live.remove(x)
                evals += c
                if data:
                    v, n = pickle.loads(data)
                    if isinstance(v, tuple) and v and v[0] == "exc": continue
                    if v is not None and found is None: found = v
                elif c:
                    try: inp = pickle.loads(shared[base + 16:base + 16 + ln])
                    except Exception: inp = "?"
                    if found is None: found = {"input": inp, "observed": "process died (status %s)" % (("signal %d" % os.WTERMSIG(stt)) if os.WIFSIGNALED(stt) else os.WEXITSTATUS(stt))}
            else:
                if c != x[3]: x[3] = c; x[4] = now
                elif c and now - x[4] > hang:
                    os.kill(x[0], signal.SIGKILL); os.waitpid(x[0], 0); os.close(x[1]); live.remove(x); evals += c
                    try: inp = pickle.loads(shared[base + 16:base + 16 + ln])
                    except Exception: inp = "?"
                    if found is None: found = {"input": inp, "observed": "does not return within %.0f s" % hang}
                elif now - t0 > seconds + 4 * hang + 10:
                    os.kill(x[0], signal.SIGKILL); os.waitpid(x[0], 0); os.close(x[1]); live.remove(x); evals += c
        if found is not None:
            for x in live:
                try: os.kill(x[0], signal.SIGKILL); os.waitpid(x[0], 0)
                except Exception: pass
                os.close(x[1])
            break
    return found, evals


def sym(L, name):
    """the exported function with this (unmangled) name, whatever its linkage"""
    t = getattr(L, "_vc_syms", None)
    if t is None:
        o = subprocess.run(["nm", "-D", "--defined-only", L._name], capture_output=True, text=True).stdout
        t = {}
        raw = [x.split()[-1] for x in o.split("\n") if x.strip()]
        dem = subprocess.run(["c++filt"], input="\n".join(raw), capture_output=True, text=True).stdout.split("\n")
        for r, d in zip(raw, dem): t.setdefault(d.split("(")[0], r)
        L._vc_syms = t
    if name not in t: raise BuildError("function %s not found" % name)
    return getattr(L, t[name])


def fn(L, name, res, *args):
    f = sym(L, name)
    f.restype = res; f.argtypes = list(args)
    return f


class Guarded:
    """n bytes that end exactly at an unmapped page (and begin after one when `front`): an access outside faults"""
    def __init__(s, data, front=False):
        libc = ctypes.CDLL(None, use_errno=True)
        libc.mmap.restype = ctypes.c_void_p
        libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        s.n = len(data); k = (s.n + 4095) // 4096 or 1
        base = libc.mmap(None, (k + 2) * 4096, 3, 0x22, -1, 0)
        libc.mprotect(base, 4096, 0); libc.mprotect(base + (k + 1) * 4096, 4096, 0)
        s.addr = base + 4096 if front else base + (k + 1) * 4096 - s.n
        ctypes.memmove(s.addr, bytes(data), s.n)

    def set(s, data): ctypes.memmove(s.addr, bytes(data), len(data))

    def raw(s): return ctypes.string_at(s.addr, s.n)
