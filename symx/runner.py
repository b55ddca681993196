"""Parallel exploration of the harnesses of one property, replay of counterexamples, evidence."""
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import subprocess
import sys
import time
import traceback

from . import api, rewrite

CONCRETE_PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
PATH_SECONDS = 30
MAX_HASHED = int(os.environ.get("SYMX_MAX_HASHED", "30000"))  # per worker
REWRITE = 77


class PathTimeout(BaseException):
    pass


# -- worker ------------------------------------------------------------------------------------------------
class Worker:
    def __init__(self, idx, harnesses, tier, jobs, results, shared, eager, seed):
        self.idx, self.harnesses, self.tier = idx, harnesses, tier
        self.jobs, self.results, self.shared = jobs, results, shared
        self.eager = eager
        self.rng = random.Random(seed * 1000 + idx)
        self.funcs = set()
        self.covered = {}
        self.counts = {}

    def run(self):
        from . import engine, shims

        self.engine = engine
        self.g = engine.ENGINE = engine.Engine()
        self.g.max_hashed = 0 if rewrite.ACTIVE or self.eager else MAX_HASHED
        if self.eager < 2:
            self.shimmed = shims.install()
        else:
            self.shimmed = []
        self._monitor()
        signal.signal(signal.SIGALRM, self._alarm)
        sh = self.shared
        try:
            while True:
                with sh["hungry"].get_lock():
                    sh["hungry"].value += 1
                job = self.jobs.get()
                with sh["hungry"].get_lock():
                    sh["hungry"].value -= 1
                if job is None:
                    break
                try:
                    self.explore(*job)
                finally:
                    with sh["outstanding"].get_lock():
                        sh["outstanding"].value -= 1
                        last = sh["outstanding"].value == 0
                    if last:
                        for _ in range(sh["n"]):
                            self.jobs.put(None)
        except BaseException:
            self.results.put(("crash", None, traceback.format_exc()))
        self.results.put(("done", self.idx, {
            "stats": self.g.stats.as_dict(), "funcs": sorted(self.funcs), "counts": self.counts,
            "covered": {k: sorted(v) for k, v in self.covered.items()}, "shims": self.shimmed}))

    def _alarm(self, *_):
        raise PathTimeout()

    def _monitor(self):
        root = os.path.join(api.REPO, "rebulk") + os.sep
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, "symx")
        except ValueError:
            return

        def start(code, _off):
            if code.co_filename.startswith(root):
                self.funcs.add(f"{os.path.basename(code.co_filename)}:{code.co_qualname}")
            return mon.DISABLE

        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)

    def explore(self, hi, prefix):
        from .ctx import SymCtx, eval_value

        eng, g, sh = self.engine, self.g, self.shared
        h = self.harnesses[hi]
        params = h.params(self.tier)
        cnt = self.counts.setdefault(h.name, {"paths": 0, "aborted": 0, "checked": 0, "asserts": 0})
        cov = self.covered.setdefault(h.name, set())
        stack = [(tuple(prefix), None)]
        while stack:
            if sh["stop"].value or sh["skip"][hi]:
                return
            if time.time() > sh["deadline"]:
                self.results.put(("timeout", h.name, None))
                sh["stop"].value = 1
                return
            prefix, model = stack.pop()
            g.reset(prefix, model)
            g.paranoid = cnt["paths"] % 64 == 0
            ctx = SymCtx(g, eager=self.eager, covered=cov)
            asserts0 = g.stats.asserts
            cand = None
            ok = False
            signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS, 0.25)
            try:
                h.fn(ctx, params)
                ok = True
                if len(g.trace) < len(g.prefix):
                    raise eng.Diverged("path ended before its prefix")
            except eng.PathAbort:
                cnt["aborted"] += 1
            except eng.Violation as v:
                cand = (v.label, v.model)
            except eng.Inconclusive as e:
                if "too many decisions" in str(e):
                    cand = ("does not terminate", None)
                else:
                    self.results.put(("inconclusive", h.name, str(e)))
            except eng.HashBlowup:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self.results.put(("hash", h.name, None))
                sh["stop"].value = 1
                return
            except PathTimeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                cand = ("does not terminate", None)
            except eng.Diverged as e:
                self.results.put(("inconclusive", h.name, "diverged: " + str(e)))
            except Exception as e:
                where = api.innermost_repo_frame(e)
                tb = "".join(traceback.format_exception(e)[-6:])
                cand = (f"exception {type(e).__name__}", None, f"{api.describe(e)} at {where}\n{tb}")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if cand is not None:
                try:
                    m = cand[1] if cand[1] is not None else g._ensure_model()
                    self.results.put(("candidate", h.name, {
                        "label": cand[0], "values": g.values(m), "detail": cand[2] if len(cand) > 2 else None}))
                except eng.PathAbort:
                    cnt["aborted"] += 1
                except eng.Inconclusive as e:
                    self.results.put(("inconclusive", h.name, str(e)))
            if ok:
                cnt["paths"] += 1
                g.stats.paths += 1
                n = cnt["paths"]
                if g.checks:
                    cnt["checked"] += 1
                cov |= g.covers
                if n in (1, 2, 4, 8) or (n % 37 == 0 and self.rng.random() < min(1.0, 400.0 / n)):
                    m = g.final_model()
                    self.results.put(("sample", h.name, {
                        "values": g.values(m), "observed": [[k, api.canon(eval_value(v, m))] for k, v in g.observed],
                        "checks": g.checks, "decisions": len(g.trace)}))
            cnt["asserts"] += g.stats.asserts - asserts0
            stack.extend(g.pending)
            while len(stack) > 1 and sh["hungry"].value > sh["waiting"].value:
                # hand out the shallowest branch
                k = min(range(len(stack)), key=lambda i: len(stack[i][0]))
                give, _ = stack.pop(k)
                with sh["outstanding"].get_lock():
                    sh["outstanding"].value += 1
                with sh["waiting"].get_lock():
                    sh["waiting"].value += 1
                self.jobs.put((hi, give))
                with sh["waiting"].get_lock():
                    sh["waiting"].value -= 1
                if sh["hungry"].value <= 0:
                    break


def _worker_main(*args):
    Worker(*args).run()


# -- concrete server -------------------------------------------------------------------------------------------
class Server:
    def __init__(self, prop):
        self.prop = prop
        self.proc = None

    def start(self):
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([api.REPO, api.VERIF]), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        env.pop("REBULK_CHECK_DECLARED_KEYS", None)
        env.pop("REBULK_REGEX_ENABLED", None)
        self.proc = subprocess.Popen([CONCRETE_PY, "-m", "symx.concrete"], cwd=api.VERIF, env=env, text=True,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, harness, params, values, timeout=20):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        req = {"property": self.prop, "harness": harness, "params": params, "values": values, "timeout": timeout}
        try:
            self.proc.stdin.write(json.dumps(req) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
            if not line:
                raise BrokenPipeError
            return json.loads(line)
        except (BrokenPipeError, ValueError):
            self.stop()
            return {"result": "server-error", "label": "concrete run died", "observed": [], "checks": 0, "missing": []}

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc = None


# -- master --------------------------------------------------------------------------------------------------------
def load_known():
    path = os.path.join(api.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                e = json.loads(line)
                if e.get("status") == "known":
                    out.append(e)
    return out


class Check:
    def __init__(self, prop, tier, seed, budget, nproc, only=None, verbose=False):
        self.prop, self.tier, self.seed, self.budget, self.nproc = prop, tier, seed, budget, nproc
        self.verbose = verbose
        self.harnesses = [h for h in api.load(prop) if only is None or h.name in only]
        self.server = Server(prop)
        self.known = [k for k in load_known() if k["property"] == prop]
        self.known_hit = []
        self.violation = None
        self.problems = []
        self.unreproduced = {}
        self.inconclusive = {}
        self.validated = 0
        self.mismatch = {}
        self.samples = []
        self.agg = {"stats": {}, "funcs": set(), "counts": {}, "covered": {}, "shims": set()}
        self.eager_used = []
        self.blowup = False

    def explore(self, harnesses, eager, deadline):
        ctx = mp.get_context("fork")
        n = self.nproc
        jobs, results = ctx.SimpleQueue(), ctx.Queue()
        shared = {"hungry": ctx.Value("i", 0), "waiting": ctx.Value("i", 0), "outstanding": ctx.Value("i", len(harnesses)),
                  "stop": ctx.Value("i", 0),
                  "skip": ctx.Array("i", len(harnesses)), "deadline": deadline, "n": n}
        procs = [ctx.Process(target=_worker_main, args=(i, harnesses, self.tier, jobs, results, shared, eager, self.seed), daemon=True)
                 for i in range(n)]
        for p in procs:
            p.start()
        for i in range(len(harnesses)):
            jobs.put((i, ()))
        byname = {h.name: h for h in harnesses}
        done = 0
        timed_out = set()
        stopped_at = None
        while done < n:
            if self.violation is not None:
                stopped_at = stopped_at or time.time()
                if time.time() > stopped_at + 3:
                    break
            try:
                kind, name, payload = results.get(timeout=1)
            except queue.Empty:
                dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
                if dead or time.time() > deadline + PATH_SECONDS + 30:
                    self.problems.append("worker died" if dead else "workers did not stop")
                    break
                continue
            if kind == "done":
                done += 1
                self._merge(payload)
            elif kind == "crash":
                self.problems.append("worker crash: " + payload)
                shared["stop"].value = 1
            elif kind == "timeout":
                timed_out.add(name)
            elif kind == "hash":
                self.blowup = True
            elif kind == "inconclusive":
                self.inconclusive.setdefault(name, []).append(payload)
            elif kind == "sample":
                self._validate(byname[name], payload)
            elif kind == "candidate":
                if self.violation is None and self._candidate(byname[name], payload):
                    shared["stop"].value = 1
                elif sum(u["conc"]["result"] == "harness-error" for u in self.unreproduced.get(name, ())) > 5:
                    self.problems.append(f"{name}: the harness does not fit the code")
                    shared["stop"].value = 1
                elif len(self.unreproduced.get(name, ())) > 20 and eager < 2:
                    shared["skip"][harnesses.index(byname[name])] = 1  # decided again in the next stage
        for p in procs:
            if p.is_alive():
                p.join(2)
            if p.is_alive():
                p.kill()
        return timed_out

    def _merge(self, w):
        a = self.agg
        for k, v in w["stats"].items():
            a["stats"][k] = max(a["stats"].get(k, 0), v) if k == "max_depth" else a["stats"].get(k, 0) + v
        a["funcs"] |= set(w["funcs"])
        a["shims"] |= set(w["shims"])
        for h, c in w["counts"].items():
            d = a["counts"].setdefault(h, {})
            for k, v in c.items():
                d[k] = d.get(k, 0) + v
        for h, c in w["covered"].items():
            a["covered"].setdefault(h, set()).update(c)

    def _validate(self, h, s):
        rep = self.server.run(h.name, h.params(self.tier), s["values"])
        if rep["result"] == "ok" and rep["observed"] == s["observed"] and not rep["missing"]:
            self.validated += 1
            if len(self.samples) < 12 and (len(self.samples) < 4 or self.validated % 17 == 0):
                self.samples.append({"harness": h.name, "inputs": s["values"], "observed": s["observed"][:8], "decisions": s["decisions"]})
        elif rep["result"] == "fail":
            self._candidate(h, {"label": rep["label"], "values": s["values"], "detail": rep["detail"]})
            self.mismatch.setdefault(h.name, []).append({"sym": s, "conc": rep})
        else:
            self.mismatch.setdefault(h.name, []).append({"sym": s, "conc": rep})

    def _candidate(self, h, c):
        """True when the exploration can stop."""
        params = h.params(self.tier)
        rep = self.server.run(h.name, params, c["values"])
        self.candidates = getattr(self, "candidates", 0) + 1
        if self.verbose and self.candidates <= 3:
            print("candidate", h.name, c["label"], c["values"], "->", rep["result"], rep["label"], rep.get("detail"), c.get("detail") or "", file=sys.stderr)
        if rep["result"] != "fail":
            self.unreproduced.setdefault(h.name, []).append({"cand": c, "conc": rep})
            return False
        for k in self.known:
            if k["harness"] == h.name and k["label"] == rep["label"] and all(c["values"].get(n) == v for n, v in k.get("match", {}).items()):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return False
        self.violation = {"property": self.prop, "harness": h.name, "tier": self.tier, "params": params, "values": c["values"],
                          "label": rep["label"], "detail": rep.get("detail"), "where": rep.get("where"), "about": h.about}
        return True

    def run(self):
        if not self.harnesses:
            print(f"no harness for {self.prop}")
            return 2
        t0 = time.time()
        deadline = t0 + self.budget
        timed_out = self.explore(self.harnesses, 0, deadline)
        if self.blowup and self.violation is None:
            self.server.stop()
            return REWRITE
        if self.violation is None:
            for stage, how in ((1, "booleans"), (2, "all inputs")):
                retry = [h for h in self.harnesses if h.name in self.unreproduced or h.name in self.inconclusive or h.name in self.mismatch]
                if not retry or self.problems or self.violation is not None:
                    break
                self.note(f"re-deciding {[h.name for h in retry]} with {how} made concrete by the solver")
                self.unreproduced, self.inconclusive, self.mismatch = {}, {}, {}
                self.eager_used += [h.name for h in retry if h.name not in self.eager_used]
                timed_out |= self.explore(retry, stage, deadline)
        self.server.stop()
        wall = time.time() - t0
        if self.violation is None:
            for name in sorted(timed_out):
                self.problems.append(f"{name}: time budget of {self.budget} s exhausted")
            for k, v in self.unreproduced.items():
                self.problems.append(f"{k}: {len(v)} solver counterexample(s) did not reproduce, e.g. {str(v[0])[:1500]}")
            for k, v in self.inconclusive.items():
                self.problems.append(f"{k}: inconclusive: {v[0][:500]}")
            for k, v in self.mismatch.items():
                self.problems.append(f"{k}: symbolic and concrete runs differ: {str(v[0])[:1500]}")
            for h in self.harnesses:
                c = self.agg["counts"].get(h.name, {})
                if not c.get("checked"):
                    self.problems.append(f"{h.name}: no path reached an assertion")
                miss = [x for x in h.cover if x not in self.agg["covered"].get(h.name, ())]
                if miss:
                    self.problems.append(f"{h.name}: not reached: {miss}")
        self.evidence(wall)
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violation is not None:
            d = os.path.join(api.VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(self.violation, f, indent=1)
            v = self.violation
            print(f"counterexample: harness {v['harness']}: {v['label']} {v['detail'] or ''} {v['where'] or ''}")
            print(f"inputs: {json.dumps(v['values'], ensure_ascii=True)}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        st = self.agg["stats"]
        print(f"{self.prop} {self.tier}: paths={st.get('paths')} decisions={st.get('decisions')} queries={st.get('queries')} "
              f"asserts={st.get('asserts')} solver={st.get('solver_s', 0):.1f}s validated={self.validated} hashed={st.get('hashed')} wall={wall:.1f}s")
        if self.problems:
            for p in self.problems:
                print("INCONCLUSIVE: " + p)
            return 2
        return 0

    def note(self, s):
        print("note: " + s)
        if self.verbose:
            for d in (self.unreproduced, self.inconclusive, self.mismatch):
                for k, v in d.items():
                    print("   ", k, str(v[0])[:2500])

    def evidence(self, wall):
        a = self.agg
        st = a["stats"]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": st.get("paths", 0),
                "transitions": st.get("decisions", 0),
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or [{"note": "none"}],
                "explanation": "states = feasible paths of the real code explored symbolically (each stands for all inputs satisfying its path "
                               "condition), transitions = solver-decided branch points; every path not cut by an assumption was explored, "
                               "so within the bounds each assertion was decided for every input value.",
                "functions_encoded": sorted(a["funcs"]),
                "harnesses": [{"name": h.name, "about": h.about, "bounds": h.params(self.tier), **a["counts"].get(h.name, {}),
                               "reached": sorted(a["covered"].get(h.name, ()))} for h in self.harnesses],
                "queries": st.get("queries", 0), "asserts": st.get("asserts", 0), "asserts_needing_solver": st.get("asserts_solver", 0),
                "solver_s": round(st.get("solver_s", 0), 2), "paths_outside_assumptions": sum(c.get("aborted", 0) for c in a["counts"].values()),
                "replaced_builtins": sorted(a["shims"]),
                "decided_with_concrete_inputs_instead": self.eager_used,
                "inconclusive": self.problems, "known_findings_hit": [k["what"] for k in self.known_hit],
            },
            "assumptions": sorted({x for h in self.harnesses for x in h.opts.get("assumes", ())}) + [
                "Z3's verdicts; the stand-ins for int/bool/str and for the replaced built-ins (compared with concrete runs on every check)",
                "nothing is claimed beyond the stated bounds"],
            "wall_s": round(wall, 2),
            "violations": 1 if self.violation else 0,
        }
        d = os.path.join(api.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
