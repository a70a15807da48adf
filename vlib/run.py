"""Decides one property: symbolic cases in parallel, replay of every
counterexample on the real code, evidence file, exit status."""
import json
import os
import pickle
import resource
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
REALPY = "/opt/venv/bin/python"
QUICK_TOTAL, THOROUGH_TOTAL = 240, 780
MEM = 7 << 30

os.environ["PYTHONHASHSEED"] = "0"


def child(fn, path):
    pid = os.fork()
    if pid:
        return pid
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        sys.setrecursionlimit(20000)
        out = fn()
    except BaseException as e:
        import traceback
        out = {"crash": traceback.format_exc()[-3000:], "exc": repr(e)}
    try:
        with open(path, "wb") as f:
            pickle.dump(out, f)
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def read(path):
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except Exception as e:
        return {"crash": "no result: %r" % e, "exc": repr(e)}


def list_cases(modname, tier):
    from vlib import driver
    import importlib
    driver.install(False)
    mod = importlib.import_module(modname)
    out = []
    for c in mod.cases(tier):
        out.append((c.name, c.weight, c.budget, c.optimize, c.bounds,
                    list(c.reach)))
    return {"cases": out,
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "outside": list(getattr(mod, "OUTSIDE", []))}


def run_case(prop, modname, name, tier, seed, deadline, optimize, traces):
    from vlib import driver
    from vlib.api import Case
    c = Case(name, None, optimize=optimize)
    driver.install(optimize)
    import importlib
    mod = importlib.import_module(modname)
    case = driver.find_case(mod, name, tier)
    r = driver.Run(prop, case, tier, seed, deadline, traces)
    r.explore(modname)
    out = r.result()
    out["source"] = dict((f, r.finder.functions.get(f))
                         for f in out["functions"])
    return out


def replay_batch(traces, workdir, optimize):
    if not traces:
        return []
    i, o = os.path.join(workdir, "rin.json"), os.path.join(workdir,
                                                           "rout.json")
    with open(i, "w") as f:
        json.dump(traces, f)
    cmd = [REALPY] + (["-O"] if optimize else []) + [
        os.path.join(HERE, "vlib", "replay.py"), "--batch", i, o]
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=400)
    try:
        with open(o) as f:
            return json.load(f)
    except (OSError, ValueError):
        return [{"outcome": "error", "detail": p.stdout.decode(
            "utf-8", "replace")[-500:], "obs": []} for _ in traces]


def load_known():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                w = line.strip().split(None, 3)
                if len(w) == 4 and w[0] == "finding:":
                    out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3]
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = "harness." + prop.lower()
    t0 = time.time()
    total = QUICK_TOTAL if tier == "quick" else THOROUGH_TOTAL
    end = t0 + total
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    from vlib import driver  # noqa: engine loaded before forking
    try:
        return _main(prop, tier, only, seed, modname, t0, end, jobs, work)
    finally:
        subprocess.run(["rm", "-rf", work])


def _main(prop, tier, only, seed, modname, t0, end, jobs, work):
    lp = os.path.join(work, "list")
    os.waitpid(child(lambda: list_cases(modname, tier), lp), 0)
    lst = read(lp)
    if "crash" in lst:
        # the code cannot even be imported symbolically: ask the real thing
        print("ERROR property=%s cannot load: %s" % (prop, lst["crash"]))
        return 2
    cases = [c for c in lst["cases"] if only is None or only in c[0]]
    todo = sorted(cases, key=lambda c: -c[1])
    running, results = {}, []
    ntr = 2 if tier == "quick" else 4
    n = 0
    found = None                # when a violation was first confirmed
    cut = set()
    while todo or running:
        if found and time.time() > found + 5:
            todo = []
            for p in running:
                cut.add(running[p][0][0])
                try:
                    os.kill(p, 9)
                except OSError:
                    pass
        while todo and len(running) < jobs and not found:
            c = todo.pop(0)
            name, weight, budget, opt = c[:4]
            b = budget or (100 if tier == "quick" else 500)
            # remaining work shares the remaining time
            rem = end - time.time()
            b = max(2.0, min(b, rem))
            dl = time.time() + b
            path = os.path.join(work, "r%d" % n)
            n += 1
            pid = child(lambda: run_case(prop, modname, name, tier, seed, dl,
                                         opt, ntr), path)
            running[pid] = (c, path, dl, time.time())
        if found and not running:
            break
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.01)
            for p, (c, path, dl, ts) in list(running.items()):
                if time.time() > dl + 30:
                    try:
                        os.kill(p, 9)
                    except OSError:
                        pass
            continue
        if pid not in running:
            continue
        c, path, dl, ts = running.pop(pid)
        if c[0] in cut and not os.path.exists(path):
            continue
        r = read(path)
        r["name"] = c[0]
        r["wall"] = time.time() - ts
        r["bounds"] = c[4]
        results.append(r)
        if not found and r.get("cands") and "VERIF_FULL" not in os.environ:
            # the answer is known once one counterexample is confirmed
            for t in r["cands"][:2]:
                t["module"] = modname
                if t["realised"] and replay_batch(
                        [t], work, t["optimize"])[0]["outcome"] == "violated":
                    found = time.time()
                    break
        if os.environ.get("VERIF_VERBOSE"):
            if "crash" in r:
                print("case %s CRASH %s" % (c[0], r["crash"]))
            else:
                s = r["stats"]
                print("case %-44s %6.1fs paths=%d obl=%d/%d q=%d solver=%.1f"
                      "%s%s%s" % (c[0], r["wall"], s["paths"],
                                  s["discharged"], s["obligations"],
                                  s["queries"], s["solver_s"],
                                  "" if r["complete"] else " INCOMPLETE %r"
                                  % r["incomplete"],
                                  " MISSING %r" % r["missing"]
                                  if r["missing"] else "",
                                  " CANDS %r" % [x["label"] for x in
                                                 r["cands"]]
                                  if r["cands"] else ""))
                for e in r["errors"][:2]:
                    print("   ", e)
            sys.stdout.flush()
    return conclude(prop, tier, seed, modname, lst, results, t0, work, only)


def conclude(prop, tier, seed, modname, lst, results, t0, work, only):
    known_file = load_known()
    good = [r for r in results if "crash" not in r]
    crashed = [r for r in results if "crash" in r]
    violations, unconfirmed, inconclusive, known_lines = [], [], [], []
    # counterexamples
    rdir = os.path.join(HERE, "replays")
    jobs_ = []
    for r in good:
        for t in r["cands"]:
            t["module"] = modname
            jobs_.append((r, t, None))
        for kid, t in r["known"].items():
            t["module"] = modname
            t.pop("_m", None)
            jobs_.append((r, t, kid))
    for opt in (False, True):
        part = [j for j in jobs_ if bool(j[1]["optimize"]) == opt]
        outs = replay_batch([j[1] for j in part], work, opt)
        for (r, t, kid), o in zip(part, outs):
            hit = o["outcome"] == "violated"
            if kid is not None:
                if hit and (prop, kid) in known_file:
                    line = "KNOWN-FINDING: property=%s %s" % (
                        prop, known_file[(prop, kid)])
                    if line not in known_lines:
                        known_lines.append(line)
                elif hit:
                    violations.append((r, t, o))
                continue
            if hit:
                violations.append((r, t, o))
            elif t["realised"] and t["exact"] and \
                    o["outcome"] not in ("timeout",):
                unconfirmed.append((r, t, o))
            else:
                inconclusive.append((r, t, o))
    # validation of passing models
    val = dict(run=0, agree=0, differ=0, skipped=0)
    differ = []
    for opt in (False, True):
        ts = []
        for r in good:
            for t in r["traces"]:
                if bool(t["optimize"]) == opt:
                    t["module"] = modname
                    ts.append((r, t))
        outs = replay_batch([t for _, t in ts], work, opt)
        for (r, t), o in zip(ts, outs):
            val["run"] += 1
            if o["outcome"] == "violated":
                violations.append((r, t, o))
            elif o["outcome"] == "ok" and json.loads(json.dumps(
                    t["obs"])) == o["obs"]:
                val["agree"] += 1
            elif o["outcome"] in ("timeout", "error"):
                val["skipped"] += 1
                differ.append((r, t, o))
            else:
                val["differ"] += 1
                differ.append((r, t, o))
    for line in known_lines:
        print(line)
    printed = set()
    for r, t, o in violations:
        key = (o.get("label"))
        if key in printed or len(printed) >= 3:
            continue
        printed.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(printed)))
        t = dict(t)
        t.pop("_m", None)
        t["observed"] = o
        with open(path, "w") as f:
            json.dump(t, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case %s: %s" % (t["case"], o.get("label")))
        for n_, k_, v_ in t["inputs"][:12]:
            print("    %s = %s" % (n_, str(v_)[:100]))
        for k_, v_ in (o.get("info") or {}).items():
            print("    %s: %s" % (k_, str(v_)[-600:]))
    verbose = os.environ.get("VERIF_VERBOSE")
    for r, t, o in unconfirmed:
        print("UNCONFIRMED property=%s case=%s label=%s replay says %s %s" % (
            prop, t["case"], t["label"], o["outcome"], o.get("detail", "")))
        if verbose:
            print("   ", t["inputs"], t.get("info"), o)
    for r, t, o in inconclusive:
        print("INCONCLUSIVE property=%s case=%s label=%s (%s)" % (
            prop, t["case"], t["label"], o["outcome"]))
        if verbose:
            print("   ", t["inputs"], t.get("info"), o)
    for r, t, o in differ[:5]:
        print("NOTE property=%s case=%s: model and real run differ (%s %s)" % (
            prop, t["case"], o["outcome"], o.get("detail", "")))
        if verbose:
            print("   inputs", t["inputs"])
            a, b = t.get("obs"), o.get("obs")
            for x, y in zip(json.loads(json.dumps(a)), b or []):
                if x != y:
                    print("   model", x, "\n   real ", y)
            if len(a) != len(b or []):
                print("   lengths", len(a), len(b or []))
    for r in crashed:
        print("NOTE property=%s case=%s gave no result: %s" % (
            prop, r["name"], r["exc"][:200]))
    write_evidence(prop, tier, seed, lst, good, crashed, violations,
                   unconfirmed, inconclusive, known_lines, val, t0)
    tot = sum(r["stats"]["obligations"] for r in good)
    print("property=%s tier=%s cases=%d paths=%d obligations=%d queries=%d "
          "validated=%d/%d wall=%.1fs %s" % (
              prop, tier, len(good), sum(r["stats"]["paths"] for r in good),
              tot, sum(r["stats"]["queries"] for r in good), val["agree"],
              val["run"], time.time() - t0,
              "complete" if all(r["complete"] for r in good) and not crashed
              else "incomplete"))
    if violations:
        return 1
    if unconfirmed:
        return 2
    if not tot and not (only and not good):
        return 2
    return 0


def write_evidence(prop, tier, seed, lst, good, crashed, violations,
                   unconfirmed, inconclusive, known_lines, val, t0):
    funcs, uf, inc, source = {}, {}, {}, {}
    st = {}
    for r in good:
        for k, v in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
        for k, v in r["uf"].items():
            uf[k] = uf.get(k, 0) + v
        for k, v in r["incomplete"].items():
            inc[k] = inc.get(k, 0) + v
        source.update(r["source"])
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    samples = []
    for r in good:
        for t in r["traces"][:1]:
            samples.append({"case": t["case"], "inputs": [
                [n, str(v)[:120]] for n, k, v in t["inputs"][:8]],
                "observed": [[a, str(b)[:120]] for a, b in t["obs"][:4]]})
    cov = {
        "states": st.get("decisions", 0) + st.get("paths", 0),
        "transitions": st.get("decisions", 0),
        "traces_validated_against_impl": val["agree"],
        "trace_validation": val,
        "samples": samples[:12],
        "exhaustive": bool(good) and all(r["complete"] for r in good) and
        not crashed,
        "symbolic_paths": st.get("paths", 0),
        "paths_cut": st.get("limits", 0),
        "obligations": st.get("obligations", 0),
        "discharged": st.get("discharged", 0),
        "solver_queries": st.get("queries", 0),
        "solver_sat": st.get("sat", 0), "solver_unsat": st.get("unsat", 0),
        "solver_unknown": st.get("unknown", 0),
        "solver_seconds": round(st.get("solver_s", 0), 2),
        "functions_encoded": sorted(
            "%s#%s" % (f, source.get(f) or "") for f in funcs),
        "uninterpreted": uf,
        "incomplete": inc,
        "cases": [{
            "case": r["case"], "bounds": r["bounds"],
            "python_O": r["optimize"],
            "paths": r["stats"]["paths"],
            "obligations": r["stats"]["obligations"],
            "discharged": r["stats"]["discharged"],
            "queries": r["stats"]["queries"],
            "solver_s": round(r["stats"]["solver_s"], 2),
            "wall_s": round(r["wall"], 2), "complete": r["complete"],
            "checks": dict((k, v[0]) for k, v in r["labels"].items()),
            "reached": r["reached"], "not_reached": r["missing"],
        } for r in sorted(good, key=lambda r: r["case"])],
        "cases_without_result": [r["name"] for r in crashed],
        "outside_the_bounds": lst["outside"],
        "known_findings": known_lines,
        "unconfirmed_counterexamples": len(unconfirmed),
        "inconclusive_counterexamples": len(inconclusive),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough")
          else "quick", "seed": seed, "level": "model_checking",
          "coverage": cov,
          "assumptions": lst["assumptions"],
          "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
