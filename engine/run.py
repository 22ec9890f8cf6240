"""Runs the cases of a property: exploration, solver queries, counterexample replay, evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import signal
import subprocess
import sys
import time
import traceback

sys.setrecursionlimit(20000)
import mpmath
import z3

from engine import sym
from engine.api import SymWorld, AssumptionFailed, sample_value
from engine.loader import Loader, REPO
from engine.nf import TooBig
from engine.sym import Engine, SB, S, negate, EngineLimit, PathEnd, Poison

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def replay(module, fn, params, runs, loose=1.0, timeout=240):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    job = json.dumps({"module": module, "fn": fn, "params": params, "runs": runs, "loose": loose})
    try:
        p = subprocess.run([PY, os.path.join(ROOT, "engine", "replay.py")], input=job, capture_output=True, text=True,
                           timeout=timeout, env=env, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return [{"status": "timeout"} for _ in runs]
    try:
        return json.loads(p.stdout)
    except ValueError:
        return [{"status": "crash", "exc": f"replay process ended with {p.returncode}: {p.stderr[-600:]}"} for _ in runs]


class Hang(BaseException):
    """no decision, claim or query for a long time: the code under test may not end"""


HANG = 100


class CaseRun:
    def __init__(self, module, case, tier, level=0, prev_vars=None, t0=None):
        self.module = module
        self.case = case
        self.name, self.fn, self.params = case["name"], case["fn"], case.get("params", {})
        self.tier = tier
        self.level = level
        self.prev_vars = prev_vars or {}
        self.stats = dict(claims=0, claims_structural=0, closed_by_normal_form=0, closed_by_search=0, unknown=0,
                          validated=0, validation_skipped=0, candidates=0)
        self.obl = []
        self.cands = []
        self.unknowns = []
        self.notes = set()
        self.reached = set()
        self.allvars = {}
        self.funcs = set()
        self.batch = []
        self.samples = []
        self.limit = case.get("limit", 240 if tier == "quick" else 700)
        self.seen_msgs = {}

    # ------------------------------------------------------------ claims
    def claim(self, W, b, msg, pair):
        if os.environ.get("VERIF_TRACE"):
            print(self.name, msg, time.time(), flush=True)
        e = W.eng
        self.stats["claims"] += 1
        try:
            r = e.simplify(b)
        except Poison:
            return self.candidate(W, None, msg + ": undefined value")
        if r is True:
            self.stats["closed_by_normal_form"] += 1
            if pair is not None and e.sample_env is not None and self.stats["closed_by_normal_form"] % 7 == 1:
                # independent check of the normaliser: evaluate both sides un-normalised
                try:
                    x, y = (e.evalf(t, e.sample_env) for t in pair)
                    if abs(x - y) > mpmath.mpf(10) ** -18 * (1 + abs(x) + abs(y)):
                        raise AssertionError(f"normaliser disagrees with evaluation: {msg}")
                except (ValueError, ZeroDivisionError):
                    pass
            self.batch.append(b)
            return
        if r is False:
            return self.candidate(W, negate(b), msg)
        nb = negate(b)
        if e.sample_env is not None:
            try:
                if e.holds(nb, e.sample_env, margin=1e-9):
                    return self.candidate(W, nb, msg)
            except Exception:
                pass
        try:
            f = e.zctx.formula(nb)
        except TooBig:
            self.unknowns.append(msg + " (too large)")
            self.stats["unknown"] += 1
            return
        res = e.zctx._solve([f], e.rlimit * 6, timeout=20000)
        if res == z3.unsat:
            self.stats["closed_by_search"] += 1
            return
        if res == z3.sat or True:
            n = len(self.cands)
            self.candidate(W, nb, msg, sat=res == z3.sat)
            if len(self.cands) == n and res != z3.sat:
                self.stats["unknown"] += 1
                self.unknowns.append(msg)

    def flush(self, e):
        """one solver query for everything the normaliser closed on this path"""
        if self.batch:
            try:
                fs = [e.zctx.formula(negate(b)) for b in self.batch]
                r = e.zctx._solve_pos(fs)
                if r != z3.unsat:
                    r = e.zctx._solve([z3.Or(*fs)])
                if r != z3.unsat:
                    self.notes.add("batch query not unsat")
                    self.unknowns.append(f"batch of {len(fs)} normalised claims: {r}")
            except TooBig:
                pass
            self.batch = []

    # ------------------------------------------------------------ counterexamples
    def candidate(self, W, nb, msg, sat=True):
        e = W.eng
        k = re.sub(r"[\d.]+", "#", msg)
        if self.seen_msgs.get(k, 0) >= 3:
            return
        envs = list(self.envs(e, nb))
        if not envs and not sat:
            return
        self.seen_msgs[k] = self.seen_msgs.get(k, 0) + 1
        self.stats["candidates"] += 1
        self.cands.append({"msg": msg, "choices": list(W.choice_log), "envs": envs[:8]})

    def _ok(self, e, nb, env, margin):
        try:
            memo = {}
            if not all(e.holds(c, env, memo, margin) if c.op not in ("==",) else e.holds(c, env, memo) for c in e.pc):
                return False
            return nb is None or e.holds(nb, env, memo, 1e-9)
        except Exception:
            return False

    def climb(self, e, nb, rng, until):
        """local search for an input on this path that violates the claim (only proposes: the replay decides)"""
        names = [n for n in e.vars]
        box = {n: [float(v) if v is not None else d for v, d in zip(e.vars[n][1:3], (-6.0, 6.0))] for n in names}
        if not names or any(c.op == "==" for c in e.pc):
            return None

        def cost(env):
            memo = {}
            t = 0
            for c, m in [(c, 1e-9) for c in e.pc] + ([(nb, 1e-4)] if nb is not None else []):
                g = e.gap(c, env, memo, m)
                if g is None:
                    return None
                t += g
            return t
        env = {"$uf": sym.default_uf}
        for n in names:
            _, lo, hi, _p = e.vars[n]
            env[n] = mpmath.mpf(sample_value(rng, lo, hi))
        try:
            best = cost(env)
            for _ in range(300):
                if best is not None and best == 0:
                    return env
                if time.time() > until:
                    return None
                new = dict(env)
                for n in rng.sample(names, min(len(names), rng.choice((1, 1, 2, 3, len(names))))):
                    lo, hi = box[n]
                    w = hi - lo
                    v = float(env[n]) + rng.choice((-1, 1)) * w * 10 ** -rng.uniform(0, 3)
                    new[n] = mpmath.mpf(min(max(v, lo + 1e-3 * w), hi - 1e-3 * w))
                c = cost(new)
                if c is not None and (best is None or c < best):
                    env, best = new, c
        except Exception:
            return None
        return env if best is not None and best == 0 else None

    def envs(self, e, nb):
        out = []
        if e.sample_env is not None and self._ok(e, nb, e.sample_env, 1e-7):
            out.append(dump_env(e, e.sample_env))
        import random
        rng = random.Random(f"{SEED}|{self.name}")
        tries = 0
        t0 = time.time()
        while len(out) < 4 and tries < 40 and time.time() - t0 < 4:
            tries += 1
            env = {"$uf": sym.default_uf}
            for name, (s, lo, hi, pos) in e.vars.items():
                env[name] = mpmath.mpf(sample_value(rng, lo, hi))
            if self._ok(e, nb, env, 1e-9):
                out.append(dump_env(e, env))
        if len(out) < 2:
            t0 = time.time()
            while len(out) < 3 and time.time() - t0 < 5:
                env = self.climb(e, nb, rng, t0 + 5)
                if env is not None:
                    out.append(dump_env(e, env))
        try:
            f = [e.zctx.formula(nb)] if nb is not None else []
            for extra in (1, 0):
                ex = list(f)
                if extra:
                    if nb is None or nb.op not in ("!=", "<", ">", "<=", ">="):
                        continue
                    d = nb.a[0] - nb.a[1]
                    gap = S.const(sym.F(1, 50))
                    g = {"!=": SB("or", SB(">", d, gap), SB("<", d, -gap)), "<": SB("<", d, -gap), "<=": SB("<", d, -gap),
                         ">": SB(">", d, gap), ">=": SB(">", d, gap)}[nb.op]
                    ex.append(e.zctx.formula(g))
                m, st = e.zctx.model(ex, e.rlimit * 3)
                if m is not None:
                    env, uf = m
                    d = {}
                    for name, v in env.items():
                        if v is None:
                            _, lo, hi, _p = e.vars[name]
                            d[name] = sample_value(rng, lo, hi)
                        else:
                            d[name] = float(v)
                    out.insert(0, {"env": d, "uf": [[n, [float(x) for x in xs], float(v)] for n, xs, v in uf]})
                    out.append({"env": d, "uf": []})
        except (TooBig, EngineLimit, Poison, OverflowError):
            pass
        return out

    # ------------------------------------------------------------ main
    def run(self):
        fixed = {}
        if self.level == 1:
            names = [n for n, fr in sorted(self.prev_vars.items()) if not fr]
            fixed = {n: SEED for i, n in enumerate(names) if i % 2 == 0}
        elif self.level == 2:
            names = [n for n, fr in sorted(self.prev_vars.items()) if not fr]
            fixed = {n: SEED for i, n in enumerate(names) if i % 6 != 0}
        elif self.level >= 3:
            fixed = {"*": SEED}
        e = Engine(rlimit=self.case.get("rlimit", 300000), max_paths=self.case.get("max_paths", 3000),
                   deadline=time.time() + self.limit)
        first = True
        wit = []
        out = {"case": self.name, "level": self.level, "violations": [], "known": [], "inconclusive": []}
        world = [None]

        def body():
            W = world[0] = SymWorld(e, Loader(), self, self.params, fixed)
            h = getattr(W.loader.load("harness." + self.module), self.fn)
            try:
                h(W)
            finally:
                if getattr(W, "_cpp", None) is not None:
                    self.funcs.update("C++ " + f for f in W._cpp.functions())

        def profiled():
            fn = self.funcs

            def prof(frame, ev, arg):
                if ev == "call":
                    c = frame.f_code
                    if c.co_filename.startswith(REPO):
                        fn.add(os.path.relpath(c.co_filename, REPO) + ":" + c.co_qualname)
            sys.setprofile(prof)
            try:
                body()
            finally:
                sys.setprofile(None)
        seen = [None, time.time()]

        def tick(*_):
            now = (tuple(v for v in e.stats.values()), self.stats["claims"])
            if now != seen[0]:
                seen[:] = [now, time.time()]
            elif time.time() - seen[1] > HANG:
                raise Hang()
        old = signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)
        n = [0]

        started = [time.time()]

        def go():
            n[0] += 1
            started[0] = time.time()
            return profiled() if n[0] <= 3 else body()
        try:
            for res, exc in e.paths(go):
                W = world[0]
                W.close()
                if exc == "poison":
                    exc = Poison("undefined value")
                if exc is not None:
                    tb = traceback.extract_tb(exc.__traceback__)
                    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-5:]))
                    self.candidate(W, None, f"exception {type(exc).__name__}: {str(exc)[:200]} at {where}")
                    self.cands and self.cands[-1].__setitem__("exc", type(exc).__name__)
                else:
                    self.flush(e)
                    if len(wit) < self.case.get("max_validate", 24):
                        w = self.witness(e)
                        if w:
                            wit.append(dict(w, choices=list(W.choice_log)))
                            if len(self.samples) < 2:
                                self.samples.append({"case": self.name, "choices": list(W.choice_log),
                                                     "path_condition": [repr(b) for b in e.pc][:12],
                                                     "witness": {k: v for k, v in list(w["env"].items())[:12]}})
                        else:
                            self.stats["validation_skipped"] += 1
                self.batch = []
                if self.cands:
                    self.handle(out)
                    if out["violations"]:
                        break
        except EngineLimit as x:
            out["inconclusive"].append(f"engine limit: {x}")
            if time.time() - started[0] > HANG / 2:
                self.candidate(world[0], None, "the code does not end")
        except TooBig:
            out["inconclusive"].append("expression too large")
        except RecursionError:
            out["inconclusive"].append("recursion depth")
        except Hang:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.candidate(world[0], None, "the code does not end")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if world[0] is not None:
                world[0].close()
        if not out["violations"] and self.cands:
            self.handle(out)
        if not out["violations"] and wit:
            self.validate(wit, out)
        for u in self.unknowns[:5]:
            out["inconclusive"].append("solver returned unknown: " + u)
        if not out["violations"] and not out["inconclusive"]:
            if e.stats["paths"] == 0:
                out["inconclusive"].append("no feasible path (vacuous)")
            elif self.stats["claims"] == 0:
                out["inconclusive"].append("no claim was reached (vacuous)")
            for lab in self.case.get("must_reach", ()):
                if lab not in self.reached:
                    out["inconclusive"].append(f"never reached: {lab}")
        out["stats"] = dict(self.stats, **e.stats)
        out["funcs"] = sorted(self.funcs)
        out["notes"] = sorted(self.notes | e.side_assumptions)
        out["vars"] = self.allvars
        out["samples"] = self.samples
        return out

    def witness(self, e):
        env = e.sample_env
        if env is None:
            import random
            rng = random.Random(f"{SEED}w{self.name}")
            for _ in range(15):
                t = {"$uf": sym.default_uf}
                for name, (s, lo, hi, pos) in e.vars.items():
                    t[name] = mpmath.mpf(sample_value(rng, lo, hi))
                if self._ok(e, None, t, 0):
                    env = t
                    break
        if env is None:
            e.zctx.check(SB("true"))
            env = e.sample_env
        return dump_env(e, env) if env is not None else None

    def handle(self, out):
        cs, self.cands = self.cands, []
        for c in cs:
            if not c["envs"]:
                out["inconclusive"].append("no concrete input found for: " + c["msg"])
                continue
            runs = [dict(x, choices=c["choices"]) for x in c["envs"]]
            rs = replay(self.module, self.fn, self.params, runs)
            hit = None
            for run, r in zip(runs, rs):
                if r["status"] in ("fail", "exc", "crash"):
                    if r["status"] == "exc" and not c.get("exc") and not r.get("fails"):
                        # the replay fails in a way the symbolic run did not predict: still real
                        pass
                    hit = (run, r)
                    break
            if hit is None:
                out["inconclusive"].append(f"counterexample did not reproduce: {c['msg']} "
                                           f"[{', '.join(r['status'] for r in rs)}]")
            else:
                self.report(out, c["msg"], *hit)
                if out["violations"]:
                    return

    def report(self, out, msg, run, r):
        text = "; ".join(r.get("fails", [])[:3] + ([r["exc"]] if r.get("exc") else []))
        kn = self.case.get("known") or []
        fails = list(r.get("fails", [])) + ([r["exc"]] if r.get("exc") else [])
        for k in kn:
            if all(re.search(k["match"], f) for f in fails):
                out["known"].append({"id": k["id"], "what": k["what"]})
                return
        out["violations"].append({"msg": msg, "observed": text, "run": run, "result": r})

    def validate(self, wit, out):
        rs = replay(self.module, self.fn, self.params, wit, loose=1000.0)
        for w, r in zip(wit, rs):
            if r["status"] == "ok":
                self.stats["validated"] += 1
            elif r["status"] == "assume":
                self.stats["validation_skipped"] += 1
            else:
                self.report(out, "concrete run of a path witness", w, r)
                if out["violations"]:
                    return


def dump_env(e, env):
    return {"env": {k: float(env[k]) for k in e.vars}, "uf": []}


def run_case(a):
    module, case, tier = a
    t0 = time.time()
    prev = None
    hist = []
    for level in range(4):
        try:
            r = CaseRun(module, case, tier, level, prev).run()
        except Exception:
            r = {"case": case["name"], "level": level, "violations": [], "known": [],
                 "inconclusive": ["internal error: " + traceback.format_exc()[-1500:]],
                 "stats": {}, "funcs": [], "notes": [], "vars": prev or {}, "samples": []}
        if r["violations"] or not r["inconclusive"]:
            break
        hist.append({"level": level, "why": r["inconclusive"][:3]})
        prev = r["vars"]
        if time.time() - t0 > (330 if tier == "quick" else 2000) or case.get("no_ladder") or os.environ.get("VERIF_NOLADDER"):
            break
    r["history"] = hist
    r["wall"] = time.time() - t0
    return r


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


DEADLINE = {True: 780, False: 14000}


def check(prop, tier, only=None, jobs=8, verbose=False):
    t0 = time.time()
    hm = importlib.import_module("harness." + prop.split("-")[0].replace(".", "_"))
    cases = hm.cases(tier)
    known = load_known()
    for c in cases:
        c["known"] = [k for k in known["findings"] if k["property"] == prop and re.fullmatch(k.get("case", ".*"), c["name"])]
    if only:
        cases = [c for c in cases if re.search(only, c["name"])]
    module = hm.__name__.split(".")[-1]
    work = [(module, c, tier) for c in cases]
    res = []
    if getattr(hm, "CPP", False):
        from engine import cpp
        try:
            cpp.build()
        except cpp.BuildError as x:
            print(f"INCONCLUSIVE property={prop}: the C++ sources do not compile: {x}")
            return 2
        try:
            return explore(prop, tier, cases, work, jobs, verbose, t0, hm)
        finally:
            cpp.cleanup()
    return explore(prop, tier, cases, work, jobs, verbose, t0, hm)


def empty(name, why):
    return {"case": name, "level": 0, "violations": [], "known": [], "stats": {}, "funcs": [], "inconclusive": [why], "notes": [],
            "vars": {}, "samples": [], "history": [], "wall": 0.0}


def one_case(w, pipe):
    os.setpgid(0, 0)
    pipe.send(run_case(w))
    pipe.close()


def parallel(work, jobs, deadline, verbose):
    """one process per case (a crash of the code under test ends only its own); stops at the first violation"""
    ctx = mp.get_context("fork")
    todo, running, res = list(work), {}, []
    try:
        while (todo or running) and time.time() < deadline:
            while todo and len(running) < jobs:
                w = todo.pop(0)
                here, there = ctx.Pipe(duplex=False)
                p = ctx.Process(target=one_case, args=(w, there))
                p.start()
                there.close()
                running[here] = (p, w)
            for c in mp.connection.wait(list(running), timeout=max(0.5, deadline - time.time())):
                p, w = running.pop(c)
                try:
                    r = c.recv()
                except EOFError:
                    r = None
                c.close()
                p.join()
                if r is None:
                    r = empty(w[1]["name"], f"the process of the case ended with {p.exitcode}")
                res.append(r)
                if verbose:
                    show(r)
                elif r["violations"]:
                    return res
    finally:
        for p, w in running.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
            p.join()
    return res


def explore(prop, tier, cases, work, jobs, verbose, t0, hm):
    res = []
    if jobs == 1 or len(work) == 1:
        for w in work:
            res.append(run_case(w))
            if verbose:
                show(res[-1])
    else:
        res += parallel(work, jobs, t0 + DEADLINE[tier == "quick"], verbose)
        if not any(r["violations"] for r in res):
            done = {r["case"] for r in res}
            for c in cases:
                if c["name"] not in done:
                    res.append(empty(c["name"], "not finished before the deadline of the run"))
    return finish(prop, tier, cases, res, t0, hm)


def show(r):
    st = r["stats"]
    print(f"  {r['case']}: level {r['level']} paths {st.get('paths')} claims {st.get('claims')} nf "
          f"{st.get('closed_by_normal_form')} search {st.get('closed_by_search')} unk {st.get('unknown')} "
          f"val {st.get('validated')} q {st.get('queries')} z3 {st.get('solver_s', 0):.1f}s wall {r['wall']:.1f}s")
    for h in r.get("history", []):
        print("     degraded:", h)
    for x in r["inconclusive"]:
        print("     INCONCLUSIVE", x)
    for v in r["violations"]:
        print("     VIOLATION", v["msg"], "|", v["observed"], "|", v["run"], v["result"].get("where"))
    for v in r["known"]:
        print("     known", v)
    sys.stdout.flush()


def finish(prop, tier, cases, res, t0, hm):
    res.sort(key=lambda r: r["case"])
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "atoms" else tot.get(k, 0) + v
    viol = [(r, v) for r in res for v in r["violations"]]
    inc = [(r, x) for r in res for x in r["inconclusive"]]
    known = {k["id"]: k for r in res for k in r["known"]}
    funcs = sorted({f for r in res for f in r["funcs"]})
    cov = {
        "states": tot.get("paths", 0),
        "transitions": tot.get("decisions", 0),
        "traces_validated_against_impl": tot.get("validated", 0),
        "samples": [s for r in res for s in r["samples"]][:4],
        "functions_encoded": funcs,
        "bounds": getattr(hm, "BOUNDS", ""),
        "outside_bounds": getattr(hm, "OUTSIDE", ""),
        "cases": len(cases),
        "cases_completed_symbolically": sum(1 for r in res if r["level"] == 0 and not r["inconclusive"]),
        "cases_completed_with_inputs_fixed": [
            {"case": r["case"], "fixed_level": r["level"], "why": r["history"]} for r in res if r["level"] > 0],
        "paths": tot.get("paths", 0),
        "infeasible_paths_pruned": tot.get("infeasible", 0),
        "claims": tot.get("claims", 0),
        "claims_closed_after_normalisation": tot.get("closed_by_normal_form", 0),
        "claims_closed_by_solver_search": tot.get("closed_by_search", 0),
        "claims_identical_terms": tot.get("claims_structural", 0),
        "claims_unknown": tot.get("unknown", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_seconds": round(tot.get("solver_s", 0.0), 2),
        "counterexample_candidates_replayed": tot.get("candidates", 0),
        "engine_notes": sorted({n for r in res for n in r["notes"]}),
        "known_findings": sorted(known),
    }
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + list(getattr(hm, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    if viol:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        for r, v in viol[:3]:
            p = os.path.join(d, f"{prop}_{re.sub(r'[^A-Za-z0-9_]', '_', r['case'])}.json")
            case = next(c for c in cases if c["name"] == r["case"])
            with open(p, "w") as f:
                json.dump({"property": prop, "module": hm.__name__.split('.')[-1], "case": r["case"], "fn": case["fn"],
                           "params": case.get("params", {}), "claim": v["msg"], "observed": v["observed"],
                           "run": v["run"], "where": v["result"].get("where")}, f, indent=1)
            print(f"  case {r['case']}: {v['msg']}\n    observed on the real code: {v['observed']}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if inc:
        for r, x in inc[:10]:
            print(f"INCONCLUSIVE property={prop} case={r['case']}: {x}")
        return 2
    print(f"property={prop} holds: {len(cases)} cases, {cov['paths']} paths, {cov['claims']} claims, "
          f"{cov['solver_queries']} queries, {cov['solver_seconds']} s solver, "
          f"{cov['traces_validated_against_impl']} path witnesses run on the real code, {ev['wall_s']} s")
    return 0


COMMON_ASSUMPTIONS = [
    "floating-point arithmetic is modelled by exact real arithmetic (rounding, overflow and underflow are outside)",
    "numpy operations not listed as functions_encoded are modelled by exact real counterparts (engine/npshim.py); "
    "matplotlib is replaced by stubs; jsonpickle is assumed to be a faithful copy",
    "exp, log and roots are handled by exact algebraic rewriting plus monotonicity/bound axioms in the solver",
]
