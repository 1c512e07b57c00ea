"""Common driver: VC generation + discharge per unit (a function or lemma under contract), replay, search,
evidence, verdict."""
import os, sys, json, time, traceback, pickle, select, signal, subprocess, tempfile, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sx import *
from link import Program, ExtractError, REPO
import lib, native
from norm import Norm
from vecval import symbols, decide as vec_decide, decide_product, NotGround

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
CVC5 = "/usr/bin/cvc5"
Z3NEW = "z3-new"


class Unit:
    """one function (or lemma) under contract"""
    def __init__(s, name, gen, replay=None, timeout=60, fns=(), limit=240, group=None):
        s.name = name; s.gen = gen; s.replay = replay; s.timeout = timeout; s.fns = fns; s.limit = limit


class UnitResult:
    pass


def smt2_of(axioms, hyp, goal):
    s = z3.Solver()
    for a in axioms: s.add(a)
    for h in hyp: s.add(zb(h))
    s.add(zb(bnot(goal)))
    return s


def cvc5_run(smt, t):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n(set-option :produce-models true)\n" + smt + "\n")
        nm = f.name
    try:
        r = subprocess.run([CVC5, "--tlimit=%d" % int(t * 1000), nm], capture_output=True, text=True, timeout=t + 5)
        o = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return o
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(nm)


def relevant(axioms, exprs):
    """axioms sharing symbols (transitively) with exprs -- keeps queries small"""
    syms = {}

    def vars_of(e):
        k = e.get_id()
        if k in syms: return syms[k]
        seen = set(); out = set(); st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                st.extend(x.children())
        syms[k] = out
        return out
    need = set()
    for e in exprs: need |= vars_of(zb(e))
    rest = list(axioms); used = []
    ch = True
    while ch:
        ch = False
        r2 = []
        for a in rest:
            v = vars_of(a)
            if v & need or not v:
                used.append(a); 
                if not v <= need: need |= v; ch = True
            else: r2.append(a)
        rest = r2
    return used


def prove_split(ex, o, ax, timeout):
    """substitute var := P*q + r, pull multiples out of div/mod, then prove; if needed case-split r completely"""
    t0 = time.time()
    sub = []; extra = []; rs = []
    for v, P in ex.split:
        base = getattr(ex, 'split_base', 0)
        q = z3.Int(str(v) + "!q"); r = z3.Int(str(v) + "!r")
        sub.append((v, (P * q + r) if P > 0 else -P * 0 + r + getattr(ex, 'split_base', 0))); extra += [r >= 0, r < abs(P)]; rs.append((r, abs(P), q if P > 0 else z3.IntVal(0), v))
    nm = Norm(sub)
    fs = [nm.boo(zb(a)) for a in ax] + [nm.boo(zb(h)) for h in o.hyp] + [nm.boo(zb(bnot(o.goal)))]
    if any(z3.is_false(f) for f in fs): return z3.unsat, None, "z3+norm"
    s = z3.Solver(); s.set("timeout", int(max(1, min(timeout * 0.4, 10)) * 1000))
    for f in fs + extra: s.add(f)
    r = s.check()

    def model(m):
        out = {}
        for k, v in ex.inputs.items():
            for rr, P, q, vv in rs:
                if vv.eq(v):
                    out[k] = mval(m, dict((x.get_id(), t) for x, t in sub)[v.get_id()]); break
            else: out[k] = mval(m, v)
        return out
    if r == z3.unsat: return r, None, "z3+norm"
    if r == z3.sat: return r, model(s.model()), "z3+norm"
    # complete case split on the residue of the first split variable
    rr, P, q, v = rs[0]
    work = [(a, min(a + (P + 7) // 8, P), 0) for a in range(0, P, (P + 7) // 8)]
    while work:
        a, b, depth = work.pop()
        if time.time() - t0 > timeout: return z3.unknown, None, "z3+norm (residues %d..%d)" % (a, b)
        if b - a == 1:
            n2 = Norm([(rr, z3.IntVal(a))])
            g = [n2.boo(f) for f in fs]
            if any(z3.is_false(f) for f in g): continue
        else: g = fs + [rr >= a, rr < b]
        s = z3.Solver(); s.set("timeout", 4000 if b - a == 1 else 800)
        for f in g: s.add(f)
        for e in extra[2:]: s.add(e)
        r = s.check()
        if r == z3.unsat: continue
        if r == z3.sat:
            if b - a == 1: s.add(rr == a); s.check()
            return r, model(s.model()), "z3+norm"
        if b - a == 1: return r, None, "z3+norm (residue %d)" % a
        k = max(1, (b - a + 5) // 6)
        work += [(x, min(x + k, b), depth + 1) for x in range(a, b, k)]
    return z3.unsat, None, "z3+residues"


def prove_period(ex, o):
    """residue evaluation over a full period (vecval.py), or over the whole range when it is shorter than the period;
    None if the formula is not of that shape"""
    v, P, lo = ex.period[:3]
    hi = ex.period[3] if len(ex.period) > 3 else None
    direct = hi is not None and hi - lo < max(4 * P, 1 << 20)
    fix = [(h.arg(0), h.arg(1)) for h in o.hyp if z3.is_expr(h) and z3.is_eq(h) and z3.is_const(h.arg(0)) and not z3.is_int_value(h.arg(0)) and z3.is_int_value(h.arg(1))]
    if direct:
        r = z3.Int(str(v) + "!r"); nm = Norm(fix + [(v, r)], ex.rng)
    else:
        q = z3.Int(str(v) + "!q"); r = z3.Int(str(v) + "!r")
        nm = Norm(fix + [(v, P * q + r)], ex.rng)
    g = nm.boo(zb(o.goal))
    if z3.is_true(g): return True, None
    ok = {str(r)}
    fn = getattr(ex, "ground_fns", None) or {}
    if not symbols(g) <= ok | set(fn): return None
    hs = [h for h in (nm.boo(zb(h)) for h in o.hyp) if symbols(h) <= ok | set(fn)]
    try: k = vec_decide(hs, g, str(r), P, fns=fn) if not direct else vec_decide(hs, g, str(r), hi + 1, start=lo, fns=fn)
    except NotGround: return None
    if k is None: return True, None
    m = {str(a): b.as_long() for a, b in fix}
    m[str(v)] = k if direct else k + P * max(0, -((k - lo) // P))
    return False, m


ENUM_MAX = 1 << 25


def prove_enum(ex, o, second=False):
    """complete enumeration over the finite domains of the variables a VC mentions (ex.enum: name -> (lo, hi));
    hypotheses over further variables are dropped (sound). None if too large or not of that shape, or if it fails only
    for lack of the dropped hypotheses"""
    g = zb(o.goal)
    sy = symbols(g)
    if not sy <= set(ex.enum): return None
    size = lambda ns: __import__("math").prod(ex.enum[n][1] - ex.enum[n][0] + 1 for n in ns)
    if size(sy) > ENUM_MAX: return None
    if size(sy) > 1 << 16 and not second: return None
    hs = []; dropped = False
    hyp = [(h, symbols(zb(h))) for h in o.hyp]
    for h, s in hyp:
        if s <= sy: hs.append(zb(h))
        else: dropped = True
    try:
        m = decide_product(hs, g, [(n,) + ex.enum[n] for n in sorted(sy)])
        if m is None: return True, None
        if dropped:
            # widen to the hypotheses' variables while the product stays small
            s2 = set(sy)
            for h, s in hyp:
                if s <= set(ex.enum) and size(s2 | s) <= 1 << 22: s2 |= s
            hs = [zb(h) for h, s in hyp if s <= s2]
            m = decide_product(hs, g, [(n,) + ex.enum[n] for n in sorted(s2)])
            if m is None: return True, None
            if any(not s <= s2 for _, s in hyp): return None
    except NotGround:
        return None
    return False, dict({k: lo for k, (lo, hi) in ex.enum.items()}, **m)


def discharge(ex, o, timeout):
    t0 = time.time()
    if o.status: return
    g = o.goal
    if getattr(ex, "enum", None):
        r = prove_enum(ex, o)
        if r is not None:
            o.time = time.time() - t0; o.backend = "finite enumeration (complete)"
            o.status = "ok" if r[0] else "sat"; o.model = r[1]
            return
    if getattr(ex, "period", None):
        r = prove_period(ex, o)
        if r is not None:
            o.time = time.time() - t0; o.backend = "residue evaluation (complete)"
            o.status = "ok" if r[0] else "sat"; o.model = r[1]
            return
    if hasattr(ex.fdom, "lin_unsat") and ex.fdom.lin_unsat(ex, o.hyp, g):
        o.time = time.time() - t0; o.backend = "z3 (products abstracted)"; o.status = "ok"
        return
    ax = relevant(ex.axioms, list(o.hyp) + [zb(g)])
    s = smt2_of(ax, o.hyp, g)
    split = getattr(ex, "split", None)
    s.set("timeout", int(min(timeout, (1.5 if split or getattr(ex, "enum", None) else 8) * SCALE[0]) * 1000))
    r = s.check()
    o.backend = "z3"
    model = None
    if r == z3.unknown and getattr(ex, "enum", None):
        e = prove_enum(ex, o, True)
        if e is not None:
            o.time = time.time() - t0; o.backend = "finite enumeration (complete)"
            o.status = "ok" if e[0] else "sat"; o.model = e[1]
            return
    if r == z3.unknown and split:
        r, model, o.backend = prove_split(ex, o, ax, timeout)
    if r == z3.unknown and not split:
        smt = s.to_smt2()
        left = max(1, timeout - (time.time() - t0))
        a = cvc5_run(smt, min(left, timeout * 0.6))
        if a == "unsat": r = z3.unsat; o.backend = "cvc5"
        else:
            t = z3.Then("simplify", "solve-eqs", "smt").solver()
            for x in s.assertions(): t.add(x)
            left = max(2, timeout - (time.time() - t0))
            t.set("timeout", int(left * 1000)); r = t.check(); o.backend = "z3(tactic)"
            if r == z3.sat: s = t
    o.time = time.time() - t0
    if r == z3.unsat: o.status = "ok"
    elif r == z3.sat:
        o.status = "sat"
        try:
            if model is not None: o.model = model
            else:
                m = s.model()
                o.model = {k: mval(m, v) for k, v in ex.inputs.items()}
        except z3.Z3Exception:
            o.model = None
    else: o.status = "unknown"


def mval(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x): return x.as_long()
    if z3.is_rational_value(x): return float(x.as_fraction())
    if z3.is_algebraic_value(x): return float(x.approx(20).as_fraction())
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return str(x)


def run_unit(unit, tier):
    """executed in a child process; returns a picklable dict"""
    t0 = time.time()
    res = {"unit": unit.name, "obligations": 0, "discharged": 0, "auto": 0, "failed": [], "backends": {}, "solver_s": 0.0,
           "stats": {}, "covers": 0, "error": None, "notes": [], "fns": list(unit.fns), "assume": []}
    ctx = Ctx(tier); ctx.unit = unit.name
    ctx.deadline = t0 + unit.limit * SCALE[0]
    try:
        unit.gen(ctx)
    except BoundExceeded as e:
        res["error"] = ("bound", str(e))
    except (Unsupported, Undecided, ExtractError) as e:
        res["error"] = (type(e).__name__, str(e)[:2000])
    except z3.Z3Exception as e:
        res["error"] = ("z3", str(e)[:500])
    except Exception as e:
        res["error"] = ("internal", traceback.format_exc()[-3000:])
    for ex in ctx.exs:
        res["auto"] += ex.auto
        res["obligations"] += ex.auto; res["discharged"] += ex.auto
        if ex.auto: res["backends"]["interval"] = res["backends"].get("interval", 0) + ex.auto
        for o in ex.obls:
            res["obligations"] += 1
            try:
                if not o.status and time.time() > ctx.deadline + 120: o.status = "unknown"; o.backend = "time limit"
                discharge(ex, o, unit.timeout * SCALE[0])
            except z3.Z3Exception as e:
                o.status = "unknown"; o.backend = str(e)
            res["solver_s"] += o.time
            if os.environ.get("VERIF_SLOW") and o.time > 1: sys.stderr.write("SLOW %.1f %s %s %s\n" % (o.time, o.backend, o.name, str(o.goal)[:200].replace("\n", " ")))
            if o.status == "ok":
                res["discharged"] += 1
                res["backends"][o.backend] = res["backends"].get(o.backend, 0) + 1
            else:
                g = o.goal
                res["failed"].append({"unit": unit.name, "name": o.name, "where": o.where, "status": o.status, "kind": o.kind,
                                      "model": o.model, "goal": str(g)[:400], "backend": o.backend, "tags": o.tags})
        for k, v in ex.stats.items():
            if isinstance(v, dict):
                d = res["stats"].setdefault(k, {})
                for a, b in v.items(): d[a] = d.get(a, 0) + b
            else: res["stats"][k] = res["stats"].get(k, 0) + v
    res["covers"] = ctx.covers
    res["notes"] = ctx.notes
    res["assume"] = ctx.assume
    res["facts"] = ctx.facts
    for f in ctx.failed: res["failed"].append(f); res["obligations"] += 1
    res["obligations"] += ctx.ground; res["discharged"] += ctx.ground
    if ctx.ground: res["backends"]["ground evaluation"] = ctx.ground
    res["obligations"] += ctx.poly; res["discharged"] += ctx.poly
    if ctx.poly: res["backends"]["polynomial normal form"] = ctx.poly
    res["wall"] = time.time() - t0
    if not res["error"] and res["obligations"] == 0:
        res["error"] = ("vacuous", "no obligations generated")
    return res


class Ctx:
    def __init__(s, tier):
        s.tier = tier; s.exs = []; s.covers = 0; s.notes = []; s.assume = []; s.failed = []; s.ground = 0; s.poly = 0
        s.deadline = None; s.facts = {}

    def executor(s, prog, **kw):
        ex = Executor(prog, **kw)
        ex.deadline = s.deadline
        s.exs.append(ex)
        return ex

    def cover(s, ex, st, what):
        """the precondition / final state must be reachable: guards against vacuous proofs"""
        if hasattr(ex.fdom, "witness") and ex.fdom.witness(st.pc): s.covers += 1; return
        sol = ex.mk_solver(20000)
        for c in st.pc: sol.add(zb(c))
        r = sol.check()
        if r == z3.sat: s.covers += 1
        elif r == z3.unsat:
            s.failed.append({"unit": what, "name": "reachability of " + what, "where": "", "status": "unreachable", "kind": "cover",
                             "model": None, "goal": "", "backend": "z3", "tags": None})
        else: s.notes.append("reachability of %s not decided" % what)


def spawn(unit, tier):
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            sys.setrecursionlimit(20000)
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            v = run_unit(unit, tier)
        except MemoryError:
            v = {"unit": unit.name, "error": ("memory", "out of memory"), "obligations": 0, "discharged": 0, "failed": [], "fns": list(unit.fns)}
        except BaseException:
            v = {"unit": unit.name, "error": ("internal", traceback.format_exc()[-3000:]), "obligations": 0, "discharged": 0, "failed": [], "fns": list(unit.fns)}
        d = pickle.dumps(v)
        i = 0
        while i < len(d): i += os.write(w, d[i:i + 60000])
        os._exit(0)
    os.close(w)
    return [pid, r, unit, time.time(), b""]


def run_units(units, tier, procs=8, hard=None):
    todo = list(units); live = []; out = []
    while todo or live:
        while todo and len(live) < procs: live.append(spawn(todo.pop(0), tier))
        a, _, _ = select.select([x[1] for x in live], [], [], 1.0)
        for x in list(live):
            if x[1] in a:
                b = os.read(x[1], 1 << 20)
                if b: x[4] += b; continue
                os.waitpid(x[0], 0); os.close(x[1]); live.remove(x)
                try: out.append(pickle.loads(x[4]))
                except Exception:
                    out.append({"unit": x[2].name, "error": ("died", "unit process died"), "obligations": 0, "discharged": 0, "failed": [], "fns": list(x[2].fns)})
            elif time.time() - x[3] > x[2].limit * SCALE[0] * 1.6 + 150:
                os.kill(x[0], signal.SIGKILL); os.waitpid(x[0], 0); os.close(x[1]); live.remove(x)
                out.append({"unit": x[2].name, "error": ("timeout", "unit exceeded its time limit"), "obligations": 0, "discharged": 0, "failed": [], "fns": list(x[2].fns)})
    order = {u.name: i for i, u in enumerate(units)}
    out.sort(key=lambda r: order.get(r["unit"], 0))
    return out


class Check:
    """subclass: id, units(), optional nat(), search(), assumptions, trusted"""
    id = "?"
    level = "proof"
    title = ""
    assumptions = []
    search_seconds = 60

    def units(s): raise NotImplementedError

    def search_worker(s): return None

    def sanity(s): return None      # translation validation: returns (n compared, first mismatch or None)

    def main(s, tier):
        t0 = time.time()
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        s.tier = tier; s.seed = seed
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        s._units = []; results = []; viol = None; fail_all = []; broken = []
        try:
            s.setup()
            s._units = s.units()
            results = run_units(s._units, tier)
            # second attempt, with larger solver limits, for what the solvers left undecided (never for refuted obligations)
            def und(r): return (r["error"] and r["error"][0] in ("Undecided", "bound", "timeout", "died", "memory", "z3")) or any(f["status"] == "unknown" for f in r["failed"])
            again = [r["unit"] for r in results if und(r)]
            if again and len(again) <= 12 and time.time() - t0 < 250 and not any(f["status"] == "sat" for r in results for f in r["failed"]):
                SCALE[0] = 4.0
                r2 = {r["unit"]: r for r in run_units([u for u in s._units if u.name in again], tier, procs=4)}
                SCALE[0] = 1.0
                results = [r2.get(r["unit"], r) for r in results]
        except ExtractError as e:
            broken.append(("extract", str(e)))
        except native.BuildError as e:
            broken.append(("build", str(e)))
        for r in results:
            if r["error"]: broken.append(("%s: %s" % (r["unit"], r["error"][0]), r["error"][1]))
            fail_all.extend(r["failed"])
        known = s.known_findings()
        tv = None
        conf = None
        if not broken and not fail_all:
            try: tv = s.sanity()
            except Exception as e:
                tv = (0, "sanity run failed: " + traceback.format_exc()[-800:])
            if tv and tv[1] is not None:
                broken.append(("translation validation", str(tv[1])))
        evals = 0
        if fail_all or broken:
            # 1. replay the verifier's counterexamples on the real code
            for f in fail_all:
                if f["model"] is None: continue
                u = next((u for u in s._units if u.name == f["unit"]), None)
                if u is None or u.replay is None: continue
                try:
                    c = u.replay(f["model"])
                except Exception as e:
                    f["replay_error"] = repr(e); continue
                if c: conf = dict(c); conf["obligation"] = f; break
            # 2. directed search on the real code against the same specification
            if conf is None:
                try:
                    w = s.search_worker()
                    if w is not None:
                        secs = s.search_seconds * (1 if tier == "quick" else 3)
                        found, evals = native.search(w, secs, seed=seed)
                        if found: conf = found if isinstance(found, dict) else {"input": str(found)}
                        if conf and (fail_all): conf.setdefault("obligation", fail_all[0])
                except Exception:
                    broken.append(("search", traceback.format_exc()[-1500:]))
        kf_lines = []
        if conf is not None or fail_all or broken:
            rp = os.path.join(EVID, "replays", "%s_%d.txt" % (s.id, int(time.time())))
            with open(rp, "w") as h:
                h.write("property %s: %s\n" % (s.id, s.title))
                if conf: h.write("FAILING INPUT on the real code:\n%s\n" % json.dumps(conf, indent=1, default=str))
                h.write("\nundischarged obligations (%d):\n" % len(fail_all))
                for f in fail_all[:40]: h.write(json.dumps(f, default=str) + "\n")
                h.write("\nunits not decided:\n")
                for b in broken: h.write("%s: %s\n" % b)
                if conf is None: h.write("\nnative search: %d executions without a failing input\n" % evals)
            viol = "VIOLATION property=%s replay=%s" % (s.id, rp)
            if conf is None: viol += " no-failing-input-found"
        ev = s.evidence(results, tier, seed, t0, viol, tv, fail_all, broken)
        with open(os.path.join(EVID, s.id + ".json"), "w") as h: json.dump(ev, h, indent=1, default=str)
        for k in known: print("KNOWN-FINDING: property=%s %s" % (s.id, k))
        tot = sum(r["obligations"] for r in results); dis = sum(r["discharged"] for r in results)
        print("%s %s: %d/%d obligations discharged in %d units, %.1f s" % (s.id, tier, dis, tot, len(results), time.time() - t0))
        if os.environ.get("VERIF_VERBOSE"):
            for r in results: print("  ", r["unit"], r["obligations"], r["discharged"], "%.1fs" % r.get("wall", 0), r["error"] or "", r.get("notes") or "")
            for f in fail_all[:30]: print("   FAILED", {k: v for k, v in f.items() if k != "goal"}, f["goal"][:200])
        if viol:
            if broken: 
                for b in broken[:5]: print("  undecided:", b[0], str(b[1])[:300])
            for f in fail_all[:5]: print("  failed obligation: %s at %s [%s]" % (f["name"], f["where"], f["status"]))
            if conf: print("  failing input: %s" % json.dumps(conf, default=str)[:600])
            print(viol)
            return 1
        return 0

    def setup(s): pass

    def known_findings(s):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                ln = ln.strip()
                if ln.startswith("finding:") and "property=%s " % s.id in ln:
                    out.append(ln.split("property=%s " % s.id, 1)[1])
        return out

    def evidence(s, results, tier, seed, t0, viol, tv, fail_all, broken):
        be = {}; inl = set(); con = set(); libs = set(); unr = {}; fns = []
        for r in results:
            for k, v in (r.get("backends") or {}).items(): be[k] = be.get(k, 0) + v
            stt = r.get("stats") or {}
            inl |= set(stt.get("inlined", {})); con |= set(stt.get("contract_calls", {})); libs |= set(stt.get("lib_calls", {}))
            unr.update(stt.get("unroll", {}))
            fns += r.get("fns") or []
        assume = list(s.assumptions)
        for r in results:
            for a in r.get("assume") or []:
                if a not in assume: assume.append(a)
        return {
            "property": s.id, "tier": tier, "seed": seed, "level": s.level,
            "coverage": {
                "obligations": sum(r["obligations"] for r in results),
                "discharged": sum(r["discharged"] for r in results),
                "checker_cmd": "python3-vt /verif/run.py %s %s" % (s.id, tier),
                "trusted_base": ["clang 18 front end + opt -passes=sroa (IR of /repo's current source)", "/verif/engine VC generator",
                                 "z3 %s, cvc5 1.1.2" % z3.get_version_string(),
                                 "library contracts used: " + ", ".join(sorted(libs))],
                "functions_under_contract": sorted(set(fns)),
                "functions_extracted_and_executed": sorted(inl),
                "calls_replaced_by_a_proved_contract": sorted(con),
                "discharged_by": be,
                "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
                "reachability_covers": sum(r.get("covers", 0) for r in results),
                "loop_unrolling_proved_complete": unr,
                "units": [{"unit": r["unit"], "obligations": r["obligations"], "discharged": r["discharged"], "wall_s": round(r.get("wall", 0), 2),
                           "error": r["error"], "notes": r.get("notes")} for r in results],
                "translation_validation": None if tv is None else {"compared": tv[0], "mismatch": tv[1]},
                "undischarged": [{k: f[k] for k in ("unit", "name", "where", "status")} for f in fail_all[:20]],
                "undecided": [list(b) for b in broken[:10]],
            },
            "assumptions": assume,
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if viol else 0,
        }
