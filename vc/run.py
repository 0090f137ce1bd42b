"""Runs one property's check: proof tasks in parallel, then confirmation on the real code,
then the evidence file.  Exit status 0 or 1 only."""
import os, sys, time, json, random, traceback, multiprocessing as mp, signal, subprocess
from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(fn, conn, hint):
    st = core.Stats()
    r = {"unsupported": None}
    try:
        fn(st)
    except core.Unsupported as e:
        r["unsupported"] = str(e)
    except RecursionError:
        r["unsupported"] = "recursion limit of the symbolic executor"
    except Exception as e:
        r["unsupported"] = "extraction: " + "".join(traceback.format_exception(e)[-3:])[-1500:]
    r.update(obligations=st.obligations, discharged=st.discharged, by=st.by, queries=st.queries, solver_s=st.solver_s,
             functions=list(st.functions), contracts=sorted(st.contracts), inlined=sorted(st.inlined), builtins=sorted(st.builtins),
             loops=st.loops, paths=st.paths, max_query_s=st.max_query_s, covers=st.covers, cover_fail=st.cover_fail, assumptions=sorted(st.assumptions),
             failed=[{"label": o.label, "status": o.status, "tag": o.tag, "model": (str(o.model)[:1500] if o.model is not None else None),
                      "info": o.info if isinstance(o.info, (str, dict, list, type(None))) else str(o.info),
                      "hints": (hint(o.model) if hint and o.model is not None else [])} for o in st.failed])
    try: conn.send(r)
    finally: conn.close()


def run_tasks(tasks, timeout, hint=None, width=8):
    ctx = mp.get_context("fork")
    pend = list(tasks); live = []; out = {}
    while pend or live:
        while pend and len(live) < width:
            name, fn = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(fn, b, hint)); p.start(); b.close()
            live.append((name, p, a, time.time()))
        for it in list(live):
            name, p, a, t0 = it
            res = None
            if a.poll(0.02):
                try: res = a.recv()
                except EOFError: res = {"unsupported": "verifier process died"}
            elif not p.is_alive(): res = {"unsupported": "verifier process died"}
            elif time.time() - t0 > timeout:
                p.kill(); res = {"unsupported": f"no answer within {timeout} s"}
            if res is not None:
                res["wall_s"] = round(time.time() - t0, 2)
                out[name] = res; p.join(); live.remove(it)
        time.sleep(0.005)
    return out


def known_findings(prop):
    """KNOWN_FINDINGS.jsonl: {property, id, match, what}"""
    fs = []
    p = f"{VERIF}/KNOWN_FINDINGS.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("kind", "known") == "known": fs.append(d)
    return fs


def main(prop, tier, make_suite):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = random.Random(seed * 7919 + hash(prop) % 1000 if False else f"{seed}-{prop}")
    res = {}
    broken = None
    suite = None
    try:
        suite = make_suite(tier)
        tasks = suite.tasks(prop)
        res = run_tasks(tasks, getattr(suite, "TASK_TIMEOUT", 300 if tier == "quick" else 600), getattr(suite, "model_hints", None) or globals_hint(suite))
    except core.Unsupported as e:
        broken = str(e)
    except Exception as e:
        broken = "extraction: " + "".join(traceback.format_exception(e)[-3:])[-2000:]
    failed = []; undecided = []
    for n, r in res.items():
        if r.get("unsupported"): undecided.append({"function": n, "reason": r["unsupported"]})
        for f in r.get("failed", []):
            f["function"] = n
            if suite.relevant(prop, f): failed.append(f)
    if broken: undecided.append({"function": "(all)", "reason": broken})
    for n, r in res.items():
        for c in r.get("cover_fail", []): undecided.append({"function": n, "reason": "vacuous: " + c})
    # ---- known findings
    kf = known_findings(prop)
    known_hit = []
    rest = []
    for f in failed:
        k = next((k for k in kf if k.get("obligation") and k["obligation"] in f["label"]), None)
        if k: known_hit.append((k, f))
        else: rest.append(f)
    failed = rest
    # ---- the real code
    exec_res = None; tried = 0; harness_error = None
    try:
        if suite is None:
            suite = make_suite.fallback(tier) if hasattr(make_suite, "fallback") else None
        if suite is not None and hasattr(suite, "prepare"):
            suite.prepare()
            if failed: secs = 60 if tier == "quick" else 180
            elif undecided: secs = 60 if tier == "quick" else 240
            else: secs = getattr(suite, "FIDELITY_S", 4) if tier == "quick" else 60
            suite.known = kf
            exec_res, tried = suite.search(prop, secs, rng, suite.hints(failed) if failed else ())
    except Exception as e:
        harness_error = "".join(traceback.format_exception(e)[-3:])[-2000:]
    for k in getattr(suite, "known_seen", []) or []:
        known_hit.append((k, None))
    viol = 0
    rdir = f"{VERIF}/.build/replay"
    os.makedirs(rdir, exist_ok=True)
    rp = f"{rdir}/{prop}.json"
    shown = set()
    for k, f in known_hit:
        if k["id"] in shown: continue
        shown.add(k["id"])
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if exec_res is not None:
        viol = 1
        json.dump({"property": prop, "confirmed_on_real_code": True, "failure": exec_res, "failed_obligations": failed, "undecided": undecided}, open(rp, "w"), indent=1, default=str)
        for f in failed[:20]: print(f"  failed obligation: {f['label']} [{f['status']}]")
        print(f"  on the real code: {json.dumps(exec_res, default=str)[:1500]}")
        print(f"VIOLATION property={prop} replay={rp}")
    elif failed:
        viol = 1
        json.dump({"property": prop, "confirmed_on_real_code": False, "failed_obligations": failed, "inputs_tried": tried, "undecided": undecided, "harness_error": harness_error}, open(rp, "w"), indent=1, default=str)
        for f in failed[:20]: print(f"  failed obligation: {f['label']} [{f['status']}]")
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
    ob = sum(r.get("obligations", 0) for r in res.values()); di = sum(r.get("discharged", 0) for r in res.values())
    proved = not failed and not undecided and not viol
    fl = sorted({f for r in res.values() for f in r.get("functions", [])})
    by = {}
    for r in res.values():
        for k, v in r.get("by", {}).items(): by[k] = by.get(k, 0) + v
    cov = {
        "obligations": ob, "discharged": di, "checker_cmd": f"./check {prop} {tier}",
        "trusted_base": list(getattr(suite, "TRUST", [])),
        "functions_under_contract": fl,
        "contracts_used_at_call_sites": sorted({c for r in res.values() for c in r.get("contracts", [])}),
        "functions_inlined_into_their_callers": sorted({c for r in res.values() for c in r.get("inlined", [])}),
        "library_calls_with_assumed_contracts": sorted({c for r in res.values() for c in r.get("builtins", [])}),
        "discharged_by": by, "solver_queries": sum(r.get("queries", 0) for r in res.values()),
        "solver_s": round(sum(r.get("solver_s", 0) for r in res.values()), 2),
        "slowest_query_s": round(max([r.get("max_query_s", 0) for r in res.values()] or [0]), 2),
        "paths": sum(r.get("paths", 0) for r in res.values()),
        "reachability_covers": sum(r.get("covers", 0) for r in res.values()),
        "loops": [l for r in res.values() for l in r.get("loops", [])][:40],
        "tasks": {n: {"obligations": r.get("obligations"), "discharged": r.get("discharged"), "wall_s": r.get("wall_s"), "undecided": r.get("unsupported")} for n, r in res.items()},
        "verdict": "every obligation discharged" if proved else ("violation" if viol else "undecided: bounded stand-in on the real code found no failing input"),
        "undecided": undecided,
        "bounded_stand_in": getattr(suite, "BOUNDED", None),
        "real_code_runs_compared_with_the_specification": tried,
        "harness_error": harness_error,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": list(getattr(suite, "ASSUME", [])) + sorted({a for r in res.values() for a in r.get("assumptions", [])}),
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, default=str)
    print(f"{prop}: {di}/{ob} obligations discharged, {len(fl)} functions under contract, {tried} runs of the real code, {cov['verdict']} ({ev['wall_s']} s)")
    for u in undecided[:10]: print("  undecided:", u["function"], "-", u["reason"][-400:])
    if harness_error: print("  harness:", harness_error[-600:])
    return 1 if viol else 0


def globals_hint(suite):
    m = sys.modules[type(suite).__module__]
    return getattr(m, "model_hints", None)
