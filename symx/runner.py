"""Run all harnesses of a property in parallel workers; write evidence; exit code."""
import importlib
import json
import os
import sys
import time
import traceback
from multiprocessing import get_context


def _prewarm():
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, "/verif")


def _worker(prop, tasks, out, seed, deadline, tier, module):
    try:
        _prewarm()
        import logging
        logging.disable(logging.CRITICAL)
        from symx import harness as H
        importlib.import_module("gwpopulation")
        importlib.import_module(module)
        from symx import stubs  # noqa: F401
        while True:
            i = tasks.get()
            if i is None:
                return
            hi, mode, cfg = _jobs(H, prop, tier)[i]
            h = H.HARNESSES[prop][hi]
            try:
                r = H.run_job(h, mode, cfg, seed, deadline, tier)
            except BaseException as e:
                r = dict(harness=h.name, mode=mode, cfg=str(cfg), error="".join(traceback.format_exception(e))[-4000:])
            out.put((i, r))
    except BaseException as e:
        out.put((-1, dict(error="".join(traceback.format_exception(e))[-4000:])))


def _jobs(H, prop, tier):
    js = []
    for hi, h in enumerate(H.HARNESSES[prop]):
        cfgs = list(h.configs) + (h.thorough if tier == "thorough" else [])
        modes = list(h.modes) + (list(h.tmodes) if tier == "thorough" else [])
        for mode in modes:
            for cfg in cfgs:
                if cfg.get("_modes") and mode not in cfg["_modes"]:
                    continue
                js.append((hi, mode, cfg))
    return js


def run_property(prop, tier, seed, module, only=None, nproc=None, budget=None, verbose=False):
    sys.path.insert(0, "/verif")
    t0 = time.time()
    budget = budget or (400 if tier == "quick" else 3 * 3600)
    ctx = get_context("fork")
    tasks, out = ctx.Queue(), ctx.Queue()
    # the job list is needed here too, but imports stay out of this process
    njobs_q = ctx.Queue()
    def lister(q):
        _prewarm()
        from symx import harness as H
        importlib.import_module("gwpopulation")
        importlib.import_module(module)
        q.put([(H.HARNESSES[prop][hi].name, mode, {k: v for k, v in cfg.items()}, H.HARNESSES[prop][hi].bounds) for hi, mode, cfg in _jobs(H, prop, tier)])
    p = ctx.Process(target=lister, args=(njobs_q,))
    p.start()
    jobs = None
    while jobs is None:
        try:
            jobs = njobs_q.get(timeout=2)
        except Exception:
            if not p.is_alive():
                print("cannot load harness module %s" % module, file=sys.stderr)
                return 2, {}
    p.join()
    sel = [i for i, j in enumerate(jobs) if only is None or only in j[0]]
    n = min(nproc or 8, len(sel)) or 1
    for i in sel:
        tasks.put(i)
    for _ in range(n):
        tasks.put(None)
    ps = [ctx.Process(target=_worker, args=(prop, tasks, out, seed, t0 + budget, tier, module)) for _ in range(n)]
    for q in ps:
        q.start()
    results = {}
    err = []
    known, first = _known(prop), tier == "quick" and not verbose
    while len(results) < len(sel):
        try:
            i, r = out.get(timeout=5)
        except Exception:
            if not any(q.is_alive() for q in ps):
                err.append("worker processes died")
                break
            if time.time() > t0 + budget + 200:
                err.append("timeout")
                break
            continue
        if i < 0:
            err.append(r["error"])
            break
        results[i] = r
        if first and any(not _is_known(known, v) for v in r.get("violations", ())):
            break       # decided: the other jobs cannot change the verdict
        if verbose:
            print(json.dumps({k: v for k, v in r.items() if k not in ("functions", "reached")}, default=str)[:3000], flush=True)
    for q in ps:
        if q.is_alive():
            q.terminate()
    return _finish(prop, tier, seed, jobs, results, err, t0)


def _finish(prop, tier, seed, jobs, results, err, t0):
    known = _known(prop)
    viol, inconc, kf = [], list(err), []
    tot = dict(paths=0, infeasible=0, discarded=0, claims=0, witnesses=0, witness_skipped=0, truncated=0, undecided_paths=0, decided=0, probes=0)
    st = {}
    funcs, reached, samples = set(), set(), []
    grids = set()
    for i, r in sorted(results.items()):
        if "error" in r:
            inconc.append(r["error"])
            continue
        for k in ("paths", "infeasible", "discarded", "claims", "witnesses", "witness_skipped", "undecided_paths", "decided", "probes"):
            tot[k] += r[k]
        tot["truncated"] += bool(r["truncated"])
        for k, v in r["stats"].items():
            st[k] = max(st.get(k, 0), v) if k == "slowest" else round(st.get(k, 0) + v, 3)
        funcs |= set(r["functions"])
        reached |= set(r["reached"])
        grids |= {tuple(g) for g in r["grids"]}
        tag = "%s/%s/%s" % (r["harness"], r["mode"], json.dumps(r["cfg"], default=str))
        samples.append(dict(job=tag, paths=r["paths"], pending=r["pending"], claims=r["claims"], queries=r["stats"]["queries"],
                            unsat=r["stats"]["unsat"], solver_s=r["stats"]["seconds"], wall_s=r["wall"], replays=r["witnesses"],
                            inconclusive=r["inconclusive"][:3]))
        if os.environ.get("SYMX_VACUOUS") and not r["witnesses"]:
            print("NO REPLAY: %s paths %d skipped %d" % (tag, r["paths"], r["witness_skipped"]))
        if r["truncated"]:
            inconc.append("%s: stopped after %d paths" % (tag, r["paths"]))
        if r["paths"] and not r["claims"] and not r["violations"]:
            inconc.append("%s: vacuous, no claim reached" % tag)
        for v in r["violations"]:
            (kf if _is_known(known, v) else viol).append(v)
        inconc += ["%s: %s" % (tag, x) for x in r["inconclusive"]]
    os.makedirs("/verif/evidence", exist_ok=True)
    os.makedirs("/verif/evidence/replays", exist_ok=True)
    lines = []
    for n, v in enumerate(viol):
        path = "/verif/evidence/replays/%s-%d.json" % (prop, n)
        with open(path, "w") as f:
            json.dump(dict(property=prop, **v), f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    bounds = sorted({j[3] for j in jobs if j[3]})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=st.get("forks", 0),
            traces_validated_against_impl=tot["witnesses"],
            samples=samples[:60],
            explanation="states: execution paths of the real code explored symbolically; transitions: branch decisions on symbolic values; "
                        "traces_validated_against_impl: path witnesses replayed on the unpatched code and compared with an exact oracle",
            functions_encoded=sorted(funcs), bounds=bounds, claims_labels=sorted(reached),
            claims=tot["claims"], queries=st.get("queries", 0), unsat=st.get("unsat", 0), sat=st.get("sat", 0),
            unknown=st.get("unknown", 0), memoised=st.get("memo", 0), solver_s=st.get("seconds", 0), slowest_query_s=st.get("slowest", 0),
            claims_decided=tot["decided"], undecided_paths=tot["undecided_paths"], probes_of_undecided_paths=tot["probes"],
            infeasible_paths=tot["infeasible"], paths_outside_assumptions=tot["discarded"], truncated_jobs=tot["truncated"],
            reduced_grids=sorted(grids), inconclusive=inconc[:20],
        ),
        assumptions=[
            "values are extended reals (finite, nan, +-inf modelled); rounding is outside the solver claim and only probed by the replays",
            "sizes, configurations and input ranges as listed under bounds",
            "numpy/scipy/jax/wcosmo/cached_interpolate primitives behave as modelled in symx/shim.py and symx/stubs.py",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    with open("/verif/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["label"], v["detail"][:200]))
    for ln in lines:
        print(ln)
    for v in viol:
        print("  %s [%s, %s] %s: %s\n    inputs %s %s" % (v["harness"], v["mode"], v["cfg"], v["label"], v["detail"][:400], v["env"], v["choices"]))
    if viol:
        return 1, ev
    if inconc:
        for x in inconc[:12]:
            print("UNDECIDED property=%s %s" % (prop, str(x)[:1500]))
        # Undecided parts are reported here and in the evidence and count as not covered.
        # With an infrastructure error, or when most of the property is undecided, there is no answer.
        bad_jobs = sum(1 for r in results.values() if "error" in r or (r["inconclusive"] or r["truncated"]) and not r["decided"])
        if len(results) >= 0.8 * len(jobs):
            err = [e for e in err if e != "timeout"]
        if err or not results or any("error" in r for r in results.values()) or 2 * bad_jobs > len(results):
            return 2, ev
        print("%s: held on everything explored; the parts above are undecided" % prop)
        return 0, ev
    print("%s: held on %d paths, %d claims, %d queries (%.1f s solver), %d replays, %.1f s" % (
        prop, tot["paths"], tot["claims"], st.get("queries", 0), st.get("seconds", 0), tot["witnesses"], time.time() - t0))
    return 0, ev


def _known(prop):
    try:
        with open("/verif/known_findings.json") as f:
            return [k for k in json.load(f)["known"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def _is_known(known, v):
    for k in known:
        if k["harness"] == v["harness"] and v["label"].startswith(k["label"]) and k.get("detail", "") in v["detail"]:
            return True
    return False
