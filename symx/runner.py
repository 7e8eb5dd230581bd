"""
Runs the harnesses ("cases") of one property and writes the evidence file.

  exit 0  every case explored completely, every obligation discharged (or known finding)
  exit 1  a counterexample was found *and reproduced on the unpatched code*:
          VIOLATION property=<id> replay=<path>
  exit 2  inconclusive (vacuous harness, nothing explored)

Three situations reduce the coverage of a case without making it inconclusive; both are stated on
stdout and in the evidence (`exhaustive: false`, `reduced_coverage`), and neither occurs on the
tree this was built for:
  * the code under test asks for the concrete value of a real-valued term (or leaves the solver's
    decidable fragment): the case is explored again with the real inputs on a rational grid;
  * the encoding does not fit a path (a counterexample that does not occur on the real code, an
    unknown from the solver, a domain too large to split): the path is left out, and the case is
    explored again, for a minute, with every input split into its values by the solver;
  * the wall-clock budget runs out: the property is reported for the paths explored so far.
"""
import argparse
import hashlib
import importlib
import inspect
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (REPO, VERIF):
    if p not in sys.path:
        sys.path.insert(0, p)

from symx import engine as E  # noqa: E402
from symx import shims  # noqa: E402
from symx import stubs  # noqa: E402

stubs.install()
import logging  # noqa: E402

logging.disable(logging.CRITICAL)


class Case:
    def __init__(self, name, fn, bounds="", covers=(), np_objects=False, uniform=False, floats=False, group=None, weight=1, caches=False, np_ints=False, **params):
        self.name, self.fn, self.bounds, self.covers = name, fn, bounds, tuple(covers)
        self.np_objects, self.uniform, self.params = np_objects, uniform, params
        self.group = group or name
        self.floats = floats
        self.weight = weight
        self.caches = caches
        self.np_ints = np_ints

    def symbolic(self, ctx):
        E.STRUCTURAL_HASH[0] = self.caches
        with shims.symbolic_globals(np_objects=self.np_objects, uniform_fractions=self.uniform, floats=self.floats, keep_ints=self.np_ints):
            self.fn(ctx, **self.params)

    def concrete(self, values):
        ctx = E.ConcreteCtx(values)
        try:
            self.fn(ctx, **self.params)
        except (E.PathEnd, E.Inconclusive):
            return ctx, None
        except Exception as exc:  # the code under test raised
            return ctx, exc
        return ctx, None


def load_known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def active_findings(prop):
    return {k["id"] for k in load_known() if k.get("property") == prop and k.get("status") == "open"}


def run_case(args):
    """The code under test prints; keep stdout for our own lines."""
    import contextlib

    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        return _run_case(args)


def _explore(case, deadline, grid, eager=False):
    found = {}

    def confirm(eng, v):
        """replay a counterexample on the real, unpatched code"""
        m, inputs = v.model
        values = eng.model_values(m, inputs)
        ctx, exc = case.concrete(values)
        if exc is None and not ctx.failures:
            return False
        found.update(status="violated", msg=v.msg, values=values, replay_failures=ctx.failures,
                     replay_exception=None if exc is None else f"{type(exc).__name__}: {exc}")
        if exc is not None:
            found["replay_tb"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
        return True

    eng = E.Engine(name=case.name, deadline=deadline, grid=grid, eager=eager, confirm=confirm)
    res = dict(status="held")
    try:
        eng.explore(case.symbolic)
        missing = [c for c in case.covers if c not in eng.covered]
        if missing and not eng.left_out:
            res.update(status="inconclusive", msg=f"vacuous: cover goals not reached: {missing}")
        if eng.stats["unsupported"]:
            res.update(status="reduced" if grid else "inconclusive",
                       msg="a real-valued term had to be concretised: coverage not total")
        if eng.left_out and res["status"] == "held":
            res.update(status="reduced", msg=f"{eng.stats['spurious']} paths left out ({eng.left_out})")
    except E.Violated:
        res.update(found)
    except E.OutOfTime as i:
        res.update(status="reduced", msg=str(i) + (f" ({eng.left_out})" if eng.left_out else ""))
    except E.Inconclusive as i:
        res.update(status="inconclusive", msg=str(i), tb=traceback.format_exc()[-3000:])
    except Exception:
        res.update(status="inconclusive", msg="harness error", tb=traceback.format_exc()[-3000:])
    res["stats"] = eng.stats
    return eng, res


def _run_case(args):
    prop, idx, tier, deadline = args
    mod = importlib.import_module(f"props.{prop}")
    case = mod.cases(tier)[idx]
    t0 = time.time()
    if t0 >= deadline:
        return dict(case=case.name, bounds=case.bounds, status="reduced", msg="not started: time budget exhausted",
                    stats=dict(paths=0, queries=0, solver_s=0.0), covered=[], wall_s=0.0)
    eng, res = _explore(case, deadline, None)
    left_out = res["status"] == "reduced" and eng.left_out is not None
    if (res["status"] == "inconclusive" or left_out) and time.time() < deadline:
        eng2, res2 = _explore(case, min(deadline, time.time() + (60 if left_out else 240)), 4, eager=left_out)
        for k, v in res["stats"].items():
            if k != "unsupported" and k in res2["stats"]:
                res2["stats"][k] = max(v, res2["stats"][k]) if k == "max_decisions" else v + res2["stats"][k]
        if res2["status"] in ("held", "reduced"):
            how = "with inputs split into their values" if left_out else "with real inputs on a 1/4 grid instead"
            res2.update(status="reduced", msg=f"{res['msg']}; explored {how}")
        if res2["status"] != "inconclusive":
            eng, res = eng2, res2
    res.update(case=case.name, bounds=case.bounds, covered=sorted(eng.covered))
    # cross-check of the encoding: the witnesses of the cover goals are pushed through the
    # real, unpatched code; they must satisfy the same assertions there.
    res["samples"] = [dict(case=case.name, goal=k, inputs=v) for k, v in list(eng.covered.items())[:2]]
    if res["status"] in ("held", "reduced"):
        n = 0
        for label, values in list(eng.covered.items())[:20]:
            ctx, exc = case.concrete(values)
            n += 1
            if exc is not None or ctx.failures:
                res.update(status="violated", msg=f"cover witness {label} fails on the real code", values=values,
                           replay_failures=ctx.failures,
                           replay_exception=None if exc is None else f"{type(exc).__name__}: {exc}")
                break
        res["witnesses_replayed"] = n
    res["wall_s"] = round(time.time() - t0, 3)
    return res


def _child(job, conn):
    try:
        conn.send(run_case(job))
    finally:
        conn.close()


def run_parallel(jobs, cases, width, deadline):
    """One process per case.  A process that dies without an answer (memory) is run again, alone, at the end."""
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo, again, live = list(jobs), [], {}

    def nothing(job, why):
        c = cases[job[1]]
        return dict(case=c.name, bounds=c.bounds, status="reduced", covered=[], wall_s=0.0, msg=why,
                    stats=dict(paths=0, queries=0, solver_s=0.0))

    try:
        while todo or again or live:
            if not todo and again and not live:
                todo, width = [again.pop(0)], 1
            while todo and len(live) < width:
                job = todo.pop(0)
                r, w = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_child, args=(job, w), daemon=True)
                p.start()
                w.close()
                live[r] = (p, job, width == 1)
            ready = wait(list(live), timeout=max(1.0, deadline + 100 - time.time()))
            if not ready:
                for p, job, _ in live.values():
                    yield nothing(job, "no answer within the time budget")
                for job in todo + again:
                    yield nothing(job, "not started: time budget exhausted")
                return
            for r in ready:
                p, job, alone = live.pop(r)
                try:
                    res = r.recv()
                except EOFError:
                    res = None
                r.close()
                p.join()
                if res is not None:
                    yield res
                elif alone:
                    yield nothing(job, f"the process exploring it ended with status {p.exitcode}")
                else:
                    again.append(job)
    finally:
        for p, _, _ in live.values():
            p.kill()


def src_digest(fn):
    try:
        return hashlib.sha256(inspect.getsource(fn).encode()).hexdigest()[:12]
    except (OSError, TypeError):
        return None


def resolve(dotted):
    modname, _, qual = dotted.partition(":")
    obj = importlib.import_module(modname)
    for part in qual.split("."):
        obj = getattr(obj, part)
    return obj


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    mod = importlib.import_module(f"props.{prop}")
    if a.replay:
        rec = json.load(open(a.replay))
        case = [c for c in mod.cases(rec["tier"]) if c.name == rec["case"]][0]
        ctx, exc = case.concrete(rec["values"])
        print("inputs:", json.dumps(rec["values"]))
        print("failures:", ctx.failures, "exception:", repr(exc))
        return 1 if (ctx.failures or exc is not None) else 0
    t0 = time.time()
    cases = mod.cases(a.tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    idxs = [i for i, c in enumerate(cases) if a.case is None or a.case in c.name]
    idxs.sort(key=lambda i: -cases[i].weight)
    budget = a.budget or (600 if a.tier == "quick" else 7200)
    deadline = t0 + budget
    results = []
    jobs = [(prop, i, a.tier, deadline) for i in idxs]

    def took(r):
        results.append(r)
        if a.v:
            print(r["case"], r["status"], r.get("msg", ""), r["stats"]["paths"], r["wall_s"], flush=True)
        return r["status"] == "violated"

    if a.jobs <= 1 or len(jobs) == 1:
        for j in jobs:
            if took(run_case(j)):
                break
    else:
        for r in run_parallel(jobs, cases, a.jobs, deadline):
            if took(r):
                break
    # known findings: each listed open finding is demonstrated on the real code
    kf_lines = []
    for k in load_known():
        if k.get("property") == prop and k.get("status") == "open":
            fn = getattr(mod, "KNOWN", {}).get(k["id"])
            if fn is not None and fn():
                kf_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_decisions" else tot.get(k, 0) + v
    violated = [r for r in results if r["status"] == "violated"]
    incon = [r for r in results if r["status"] == "inconclusive"]
    reduced = [r for r in results if r["status"] == "reduced"]
    rejected = [r for r in reduced if r["stats"]["paths"] == 0]
    functions = []
    for d in mod.TARGETS:
        try:
            functions.append({"function": d, "source_sha256_12": src_digest(resolve(d))})
        except Exception as exc:  # refactored away: behaviour is still judged by the harness
            functions.append({"function": d, "source_sha256_12": None, "note": f"not found: {exc}"})
    tot["solver_s"] = round(tot.get("solver_s", 0), 3)
    ev = dict(
        property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
        seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=mod.LEVEL,
        coverage=dict(
            technique="symbolic execution of the real functions with proxy inputs; Z3 decides every branch and obligation",
            functions_encoded=functions,
            bounds=mod.BOUNDS,
            outside_bounds=mod.OUTSIDE,
            cases=len(results), cases_total=len(jobs),
            states=tot.get("paths", 0),
            transitions=tot.get("branches", 0) + tot.get("concretisations", 0),
            traces_validated_against_impl=sum(r.get("witnesses_replayed", 0) for r in results),
            samples=[x for r in sorted(results, key=lambda r: r["case"]) for x in r.get("samples", [])][:12],
            exhaustive=not (reduced or incon or violated) and len(results) == len(jobs),
            reduced_coverage=[dict(case=r["case"], why=r["msg"]) for r in reduced],
            explanation="states = complete symbolic paths; transitions = solver-decided branches and value "
                        "splits; traces_validated_against_impl = solver-produced witnesses re-run on the "
                        "unpatched code with plain values",
            queries_discharged=tot.get("queries", 0),
            obligations_by_solver=tot.get("obligations", 0),
            obligations_by_path=tot.get("obligations_concrete", 0),
            solver_time_s=tot["solver_s"],
            max_decisions_on_a_path=tot.get("max_decisions", 0),
            cover_goals=sorted({c for r in results for c in r["covered"]}),
            solver="z3 " + E.z3.get_version_string(),
            per_case=[dict(case=r["case"], status=r["status"], bounds=r["bounds"], paths=r["stats"]["paths"],
                           queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 3),
                           wall_s=r["wall_s"]) for r in sorted(results, key=lambda r: r["case"])],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        known_findings=kf_lines,
        result="violated" if violated else ("inconclusive" if incon else "held"),
        violations=len(violated),
        wall_s=round(time.time() - t0, 3),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in kf_lines:
        print(line)
    if violated:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for r in violated:
            tag = hashlib.sha256((r["case"] + json.dumps(r["values"], sort_keys=True)).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{prop}-{tag}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=a.tier, case=r["case"], message=r["msg"], values=r["values"],
                               replay_failures=r.get("replay_failures"), replay_exception=r.get("replay_exception"),
                               traceback=r.get("replay_tb"),
                               how=f"bash /verif/run.sh {prop} --replay {path}"), f, indent=1)
            print(f"counterexample in {r['case']}: {r['msg']}")
            print("  inputs:", json.dumps(r["values"])[:1500])
            print("  on the real code:", r.get("replay_failures") or r.get("replay_exception"))
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if incon:
        for r in incon[:10]:
            print(f"INCONCLUSIVE {r['case']}: {r['msg']}")
            print(r.get("tb", ""))
        return 2
    for r in reduced:
        print(f"REDUCED-COVERAGE {r['case']}: {r['msg']}")
    if len(rejected) == len(results):
        print(f"{prop}: nothing explored")
        return 2
    print(f"{prop}: held on {len(results)} cases, {tot.get('paths', 0)} paths, {tot.get('queries', 0)} solver queries "
          f"({tot['solver_s']} s in z3), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
