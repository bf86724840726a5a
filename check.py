#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only contract] : decide one property on /repo's current tree."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\S+) contract=(\S+) case=(\S+) label=\"([^\"]*)\"\s*\|\s*(.*)", line)
            if m:
                out.append(m.groups())
    return out


def casekey(case):
    return ",".join("%s:%s" % (k, v) for k, v in sorted(case.items())).replace(" ", "") or "-"


def worker(fn, args, conn):
    try:
        os.setpgid(0, 0)
        r = fn(*args)
    except BaseException as e:      # noqa
        import traceback
        r = {"crash": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-2500:]}
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


CRASH = (-11, -6, -8, -7, -4)      # SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL


def died(key, got):
    """result of a case whose concrete run ended the process"""
    return {"contract": key[1], "case": {"case": key[2]}, "engine": "python", "obligations": 1, "discharged": 0, "backends": {},
            "undecided": [["*", got["crash"]]], "paths": 0, "labels": {"the code returns (no crash)": (1, 0)}, "samples": 1,
            "functions": [], "solver_s": 0.0, "wall_s": 0.0, "note": "", "refuted": [],
            "violations": [{"label": "the code returns (no crash)", "detail": "the real code ended the process with signal %d" % -got["signal"],
                            "found": "concrete evaluation, inputs drawn with the default seed", "values": None, "draws": None}]}


def run_jobs(jobs, ncpu):
    """jobs: list of (key, fn, args, hard timeout, fallback); forked, in parallel"""
    ctx = mp.get_context("fork")
    res = {}
    queue = list(jobs)
    run = []
    while queue or run:
        while queue and len(run) < ncpu:
            key, fn, args, to, fb = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(fn, args, b))
            p.start()
            b.close()
            run.append((key, p, a, time.time() + to, fb))
        time.sleep(0.005)
        nr = []
        for key, p, a, dl, fb in run:
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    p.join(5)
                    got = {"crash": "worker died (%s)" % p.exitcode, "signal": p.exitcode}
            elif not p.is_alive() and not a.poll():
                got = {"crash": "worker died (%s)" % p.exitcode, "signal": p.exitcode}
            elif time.time() > dl:
                try:
                    os.killpg(p.pid, 9)
                except Exception:
                    p.kill()
                got = {"crash": "hard time limit"}
            if got is None:
                nr.append((key, p, a, dl, fb))
                continue
            a.close()
            p.join(5)
            if "crash" in got and fb is not None:
                fn, args, to = fb
                queue.append((key, fn, args + (got["crash"],), to, None))
            else:
                # a concrete evaluation that is killed by the code it runs (not by memory or time limits)
                if fb is None and got.get("signal") in CRASH:
                    got = died(key, got)
                res[key] = got
        run = nr
    return res


def py_case(idx, prop, ci, tier, seed, budget):
    from pyvc import harness
    c = harness.CONTRACTS[prop][idx]
    return harness.run_case(c, c.cases[ci], tier, seed, time.time() + budget)


def py_case_conc(idx, prop, ci, tier, seed, reason):
    from pyvc import harness
    c = harness.CONTRACTS[prop][idx]
    return harness.run_case_conc_only(c, c.cases[ci], tier, seed, reason)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--case")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--inline", action="store_true")
    ns = ap.parse_args()
    prop, tier = ns.property, ns.tier if ns.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ncpu = min(8, os.cpu_count() or 1)
    jobs = []
    meta = importlib.import_module("contracts.meta")
    info = meta.PROPS[prop]
    trusted = list(info.get("trusted", []))
    if info.get("py"):
        from pyvc.boot import boot
        boot(tuple(info.get("modules", ())))
        from pyvc import harness
        for m in info["py"]:
            importlib.import_module("contracts." + m)
        harness.instrument()
        if info.get("cc"):
            from pyvc import cc
            try:
                cc.build(info["cc"])
            except cc.BuildError as e:
                print("# the C++ sources do not build with the verification scalar: %s" % str(e)[:1500])
        budget = 60 if tier == "quick" else 400
        for i, c in enumerate(harness.CONTRACTS.get(prop, [])):
            if c.tier == "thorough" and tier != "thorough":
                continue
            if ns.only and ns.only not in c.name:
                continue
            for j, case in enumerate(c.cases):
                if ns.case and ns.case not in casekey({k: str(v) for k, v in case.items()}):
                    continue
                b = c.timeout or budget
                jobs.append((("py", c.name, casekey({k: str(v) for k, v in case.items()}), i, j), py_case, (i, prop, j, tier, seed, b), b * 2 + 60,
                             (py_case_conc, (i, prop, j, tier, seed), 60)))
    if ns.inline:
        results = {}
        for key, fn, args, to, fb in jobs:
            results[key] = fn(*args)
    else:
        results = run_jobs(jobs, ncpu)
    sys.exit(report(prop, tier, seed, info, results, t0, trusted, ns))


def report(prop, tier, seed, info, results, t0, trusted, ns):
    known = [k for k in known_findings() if k[0] == prop]
    viol, found, unrep = [], {}, []
    tot = dict(obligations=0, discharged=0, samples=0, paths=0, undecided=0, cases=0)
    backends, funcs, und, contracts, bounded = {}, set(), [], {}, []
    solver = 0.0
    for key in sorted(results, key=str):
        r = results[key]
        if "crash" in r:
            und.append({"contract": key[1], "case": key[2], "reason": r["crash"]})
            if ns.v:
                print(key, r.get("tb", r["crash"]))
            continue
        tot["cases"] += 1
        for k in ("obligations", "discharged", "samples", "paths"):
            tot[k] += r.get(k, 0)
        solver += r.get("solver_s", 0)
        for b, n in r.get("backends", {}).items():
            backends[b] = backends.get(b, 0) + n
        funcs.update(r.get("functions", []))
        cinfo = contracts.setdefault(r["contract"], {"cases": 0, "obligations": {}, "undecided": 0, "note": r.get("note", "")})
        cinfo["cases"] += 1
        for l, (n, d) in r.get("labels", {}).items():
            x = cinfo["obligations"].setdefault(l, [0, 0])
            x[0] += n
            x[1] += d
        for l, why in r.get("undecided", []):
            cinfo["undecided"] += 1
            und.append({"contract": r["contract"], "case": key[2], "label": l, "reason": why})
        if r.get("vacuous"):
            und.append({"contract": r["contract"], "case": key[2], "reason": "no obligation was generated"})
        for b in r.get("bounded", []):
            bounded.append(b)
        vs = list(r.get("violations", []))
        labs = {v["label"] for v in vs}
        for v in r.get("no_input", []):
            if v["label"] not in labs and not any(k[1] == r["contract"] and k[3] == v["label"] for k in known):
                labs.add(v["label"])
                unrep.append((r["contract"], key[2], v, r))
        for v in vs:
            kf = [k for k in known if k[1] == r["contract"] and (k[2] == "*" or re.fullmatch(k[2], key[2])) and k[3] == v["label"]]
            if kf:
                found[kf[0]] = found.get(kf[0], 0) + 1
            else:
                viol.append((r["contract"], key[2], v, r))
        if ns.v:
            print("%-40s %-50s obl %d/%d paths %d samples %d wall %.1f solver %.1f" % (
                r["contract"], key[2][:50], r["discharged"], r["obligations"], r["paths"], r["samples"], r["wall_s"], r["solver_s"]))
            for l, why in r.get("undecided", [])[:6]:
                print("     undecided:", l, why)
            for l, g in r.get("refuted", [])[:6]:
                print("     refuted:", l, g[:300])
            for l, g in r.get("refuted", [])[:3]:
                print("     refuted:", l, g[:300])
            for v in r["violations"][:3]:
                print("     VIOL:", v["label"], v["detail"][:300], v["found"], str(v.get("values"))[:400])
    if not viol:
        viol = unrep
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    lines = []
    for i, (c, case, v, r) in enumerate(viol[:10]):
        path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", c), i))
        with open(path, "w") as f:
            json.dump({"property": prop, "contract": c, "case": r["case"], "engine": r["engine"], "obligation": v["label"],
                       "detail": v["detail"], "inputs": v.get("values"), "draws": v.get("draws"), "found_by": v["found"],
                       "output": v.get("output", ""),
                       "rerun": "cd /verif && ./check %s --only %s -v" % (prop, c)}, f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if v.get("noinput") else ""))
        print("# %s [%s] obligation '%s' failed: %s" % (c, case, v["label"], v["detail"][:400]))
    # inputs found first
    lines.sort(key=lambda s: s.endswith("no-failing-input-found"))
    for k in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    for l in lines[:5]:
        print(l)
    level = info.get("level", "proof")
    complete = not und
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {
              "obligations": tot["obligations"], "discharged": tot["discharged"],
              "checker_cmd": "cd /verif && ./check %s --tier %s" % (prop, tier),
              "trusted_base": trusted or ["see DESIGN.md"],
              "explanation": info.get("explanation", ""),
              "backends": backends, "solver_seconds": round(solver, 2), "paths": tot["paths"],
              "contract_cases": tot["cases"], "evaluations": tot["samples"],
              "contracts": {c: {"cases": d["cases"], "undecided": d["undecided"], "note": d["note"],
                                "obligations": {l: "%d/%d" % (b, a) for l, (a, b) in d["obligations"].items()}}
                            for c, d in contracts.items()},
              "functions_under_contract": sorted(funcs),
              "undecided": und[:60], "undecided_count": len(und),
              "bounded": sorted(set(info.get("bounds", []) + bounded)),
              "all_discharged": complete and tot["discharged"] == tot["obligations"],
          },
          "assumptions": info.get("assumptions", []) + meta_assumptions(),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not ns.only and not ns.case:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d contracts cases, %d/%d obligations discharged, %d undecided, %d concrete evaluations, %d violations, %.1fs" % (
        prop, tier, tot["cases"], tot["discharged"], tot["obligations"], len(und), tot["samples"], len(viol), time.time() - t0))
    return 1 if lines else 0


def meta_assumptions():
    from contracts import meta
    return list(meta.COMMON_ASSUMPTIONS)


if __name__ == "__main__":
    main()
