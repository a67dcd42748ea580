"""Runs the cases of one property in worker processes, prints the verdict and
writes evidence."""
from __future__ import annotations
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_env():
    os.environ.setdefault("JAX_ENABLE_X64", "1")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    repo = os.environ.get("VERIF_REPO", "/repo")
    src = os.path.join(repo, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)


def worker(conn, prop, tier, seed):
    setup_env()
    sys.setrecursionlimit(20000)
    import threading
    import warnings
    warnings.filterwarnings("ignore")
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        from engine import harness, interp
        interp.install_scipy_stub()
        cases = {c.name: c for c in mod.cases(tier)}
    except BaseException as e:
        import traceback
        conn.send({"fatal": f"{type(e).__name__}: {e}", "error": traceback.format_exc()[-3000:]})
        return
    conn.send({"ready": list(cases)})
    while True:
        try:
            n = conn.recv()
        except EOFError:
            return
        if n is None:
            return
        try:
            r = harness.run_case(cases[n], seed)
        except BaseException as e:
            import traceback
            r = {"name": n, "status": "error", "undecided": [f"worker: {type(e).__name__}: {e}"],
                 "error": traceback.format_exc()[-3000:], "violations": []}
        conn.send(r)


GRACE = 40


class W:
    def __init__(self, prop, tier, seed):
        ctx = mp.get_context("spawn")
        self.a, b = ctx.Pipe()
        self.p = ctx.Process(target=worker, args=(b, prop, tier, seed), daemon=True)
        self.p.start()
        b.close()
        self.job = None
        self.t0 = None
        self.ready = False


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known:") and f"property={prop} " in l:
                # known: property=C09 case=<case name> <text>
                d = {}
                rest = []
                for w in l.split()[1:]:
                    if "=" in w and not rest and w.split("=")[0] in ("property", "case"):
                        k, v = w.split("=", 1)
                        d[k] = v
                    else:
                        rest.append(w)
                d["text"] = " ".join(rest)
                out.append(d)
    return out


def main(prop, argv):
    setup_env()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    only = [a for a in argv if not a.startswith("--")]
    verbose = "--verbose" in argv or "-v" in argv
    only = [a for a in only if a != "-v"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "5400"))
    njobs = int(os.environ.get("VERIF_JOBS", "7"))

    W0 = W(prop, tier, seed)
    first = W0.a.recv()
    results = []
    if "fatal" in first:
        # importing the code under test failed: is it the code or the check?
        print(f"check error: {first['fatal']}\n{first['error']}")
        return 2
    names = first["ready"]
    if only:
        names = [n for n in names if any(o in n for o in only)]
    W0.ready = True
    ws = [W0] + [W(prop, tier, seed) for _ in range(min(njobs, len(names)) - 1)]
    known = {d["case"] for d in known_findings(prop)}
    queue = list(names)
    import importlib as il
    pend = set(names)
    hard = {}
    while pend:
        for w in list(ws):
            if w.job is None and w.ready and queue:
                w.job = queue.pop(0)
                w.t0 = time.time()
                try:
                    w.a.send(w.job)
                except (BrokenPipeError, OSError):
                    pass
            try:
                has = w.a.poll(0)
                msg = w.a.recv() if has else None
            except (EOFError, OSError):
                msg, has = None, None
            if has is None or (not has and not w.p.is_alive()):
                if w.job:
                    results.append({"name": w.job, "status": "error", "undecided": ["worker died (memory or time)"],
                                    "violations": []})
                    pend.discard(w.job)
                ws.remove(w)
                if queue:
                    ws.append(W(prop, tier, seed))
                continue
            if msg is not None:
                if "ready" in msg:
                    w.ready = True
                elif "fatal" in msg:
                    ws.remove(w)
                else:
                    results.append(msg)
                    pend.discard(w.job)
                    w.job = None
                    if msg["violations"] and msg["name"] not in known:
                        # a confirmed counterexample settles the verdict; the
                        # remaining cases may finish, but not for long
                        budget = min(budget, time.time() - t0 + GRACE)
                    if verbose:
                        print(f"[{time.time()-t0:6.1f}s] {msg['name']}: {msg['status']} paths={msg.get('paths')} "
                              f"obl={msg.get('obligations')} disch={msg.get('discharged')} "
                              f"und={len(msg['undecided'])} viol={len(msg['violations'])} "
                              f"wall={msg.get('wall', 0):.1f}", flush=True)
                        for u in msg["undecided"][:6]:
                            print("      undecided:", u[:600])
                        if msg.get("error"):
                            print(msg["error"])
                        for v in msg["violations"][:3]:
                            print("      violation:", json.dumps(v)[:1500])
            if w.job and time.time() - w.t0 > 1500 and tier == "quick":
                w.p.kill()
        if time.time() - t0 > budget and pend:
            for w in ws:
                if w.job:
                    results.append({"name": w.job, "status": "timeout", "undecided": ["time budget of the run"],
                                    "violations": []})
                    pend.discard(w.job)
            for n in queue:
                results.append({"name": n, "status": "skipped", "undecided": ["time budget of the run"],
                                "violations": []})
                pend.discard(n)
            break
        if not ws:
            break
        time.sleep(0.02)
    for w in ws:
        w.p.kill()
    return report(prop, tier, seed, results, t0, names)


def report(prop, tier, seed, results, t0, names):
    mod = importlib.import_module(f"checks.{prop.lower()}")
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)
    smt = lambda k: sum(r.get("smt", {}).get(k, 0) for r in results)
    und = [f"{r['name']}: {u}" for r in results for u in r["undecided"]]
    viol = [dict(v, case=r["name"]) for r in results for v in r["violations"]]
    kf = known_findings(prop)
    kcases = {d["case"]: d for d in kf}
    unlisted = [v for v in viol if v["case"] not in kcases]
    listed = [v for v in viol if v["case"] in kcases]
    samples = [s for r in results for s in r.get("samples", [])][:6]
    fns = sorted({f for r in results for f in r.get("functions", [])})
    cov = {
        "explanation": getattr(mod, "EXPLANATION", "bounded symbolic execution of the traced compiler IR (jaxpr) of "
                               "the real code; every obligation is decided by z3 for all values on the path"),
        "states": S("paths"),
        "transitions": S("eqns"),
        "traces_validated_against_impl": S("validated"),
        "cases": len(results),
        "paths_explored": S("paths"),
        "paths_shown_reachable": S("reached"),
        "paths_infeasible": S("dead"),
        "ir_equations_executed": S("eqns"),
        "obligations": S("obligations"),
        "discharged": S("discharged"),
        "discharged_normal_form_confirmed_by_solver": S("by_normal_form"),
        "discharged_by_solver_reasoning": S("by_solver"),
        "undecided": len(und),
        "undecided_list": und[:40],
        "divisors_checked_nonzero": S("divisors"),
        "divisors_undecided": S("div_undecided"),
        "negative_controls": S("controls"),
        "negative_controls_refuted": S("controls_ok"),
        "solver_queries": smt("queries"),
        "solver_unsat": smt("unsat"),
        "solver_sat": smt("sat"),
        "solver_unknown": smt("unknown"),
        "solver_time_s": round(smt("time"), 3),
        "replays_on_real_code": S("probes"),
        "functions_encoded": fns,
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "samples": samples or [{"note": "no obligation discharged"}],
        "known_findings_seen": [v["what"][:200] for v in listed],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(unlisted)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop} [{tier}] cases={len(results)} paths={cov['paths_explored']} (reachable "
          f"{cov['paths_shown_reachable']}) obligations={cov['obligations']} discharged={cov['discharged']} "
          f"undecided={len(und)} queries={cov['solver_queries']} solver={cov['solver_time_s']}s "
          f"controls={cov['negative_controls_refuted']}/{cov['negative_controls']} "
          f"validated={cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
    for u in und[:20]:
        print("UNDECIDED", u[:300])
    for c, d in kcases.items():
        if any(v["case"] == c for v in listed):
            print(f"KNOWN-FINDING: property={prop} {d['text']}")
    if unlisted:
        rp = os.path.join(VERIF, "evidence", f"{prop}-counterexample.json")
        json.dump({"property": prop, "how_to_replay": f"/opt/venv/bin/python /verif/checks/run.py {prop} "
                   f"'{unlisted[0]['case']}' -v", "violations": unlisted[:10]}, open(rp, "w"), indent=1, default=str)
        for v in unlisted[:5]:
            print("  " + v["case"] + ": " + v["what"][:400] + " inputs=" + json.dumps(v.get("inputs", {}))[:400])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if any(c["status"] == "error" for c in results):
        for r in results:
            if r.get("error"):
                print(r["error"])
    if cov["negative_controls_refuted"] < cov["negative_controls"]:
        print("check error: a negative control was not refuted")
        return 2
    if cov["discharged"] == 0:
        print("check error: no obligation was discharged")
        return 2
    return 0
