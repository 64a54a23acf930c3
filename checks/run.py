#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Decides one property: regenerates the LLVM IR of /repo's current tree, explores every path
of the property's harnesses with symbolic inputs (Z3 decides), replays counterexamples
natively, and writes evidence/<PROPERTY>.json.

Exit 0: held on everything explored (a harness stopped by its limits is named, on the output and in the evidence: it covered
less than its bounds say). Exit 1: VIOLATION line, reproduced natively.
Exit 2: no verdict (build failure, unsupported construct, unreproduced model, or limits stopped most harnesses).
"""
import argparse, concurrent.futures as cf, json, os, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

ROOT = B.ROOT
TIERS = {
    # tier: per-harness limits for the engine (seconds, steps per path), native samples per harness
    "quick": dict(time=240, steps=10_000_000, samples=4, deadline=480),
    "thorough": dict(time=3600, steps=20_000_000, samples=32, deadline=6 * 3600),
}


def bounds():
    return json.load(open(os.path.join(ROOT, "checks", "bounds.json")))


def known():
    out, f = [], os.path.join(ROOT, "known_findings.json")
    if os.path.exists(f):
        out = json.load(open(f))["findings"]
    return out


def explore(tsx, ll, h, lim, seed, end):
    # what is left of the whole check's time
    secs = int(max(20, min(lim["time"], end - time.time())))
    cmd = [tsx, ll, h, "--time", str(secs), "--steps", str(lim["steps"]), "--samples", str(lim["samples"]), "--seed", str(seed)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * 1.5 + 60)
    except subprocess.TimeoutExpired:
        return {"harness": h, "crash": "engine timeout"}
    try:
        return json.loads(p.stdout)
    except ValueError:
        return {"harness": h, "crash": "engine exit %s: %s" % (p.returncode, p.stderr[-1500:])}


def native_run(binary, h, inputs, timeout, cap=False):
    arg = ",".join("%d:%s" % (w, v) for w, v in inputs)
    e = dict(os.environ)
    e.pop("TDM_ALLOC_CAP", None)
    e.pop("RUST_BACKTRACE", None)
    if cap:
        e["TDM_ALLOC_CAP"] = "1"
    try:
        p = subprocess.run([binary, h, arg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return {"rc": "timeout"}
    r = {"rc": p.returncode, "covers": [], "checks": 0, "panicked": False, "failed": [], "text": ""}
    for l in p.stdout.decode("utf-8", "replace").splitlines():
        k, _, v = l.partition(" ")
        if k == "COVERS":
            r["covers"] = v.split("\x01") if v else []
        elif k == "CHECKS":
            r["checks"] = int(v)
        elif k == "PANICKED":
            r["panicked"] = v == "true"
        elif k == "FAILED":
            r["failed"].append(v)
        else:
            r["text"] += l + "\n"
    return r


def reproduces(kind, r, msg):
    rc = r["rc"]
    if kind == "check":
        return rc == 10
    if kind == "alloc":
        return rc in (10, 12)
    if kind == "steps":
        return rc in ("timeout", 10, 12) or (isinstance(rc, int) and rc < 0)
    if kind == "panic":
        # the engine models no unwinding, so any native abnormal end at this point confirms it
        return rc in (10, 11) or (isinstance(rc, int) and rc < 0)
    return rc in (10, 11) or (isinstance(rc, int) and rc < 0)


def valgrind(binary, h, inputs):
    arg = ",".join("%d:%s" % (w, v) for w, v in inputs)
    try:
        p = subprocess.run(["valgrind", "-q", "--error-exitcode=99", binary, h, arg], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120)
        return p.returncode == 99
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop, lim = a.prop, TIERS[tier]
    mod = prop.lower()
    t0 = time.time()
    hs = [(n, v) for n, v in B.harnesses(prop, tier) if not a.only or a.only in n]
    if not hs:
        print("no harness for", prop)
        return 2
    tsx = B.engine()
    lls = {}
    for v in sorted({v for _, v in hs}):
        lls[v] = B.module(v, [n for n, x in hs if x == v], mod)
    t_build = time.time() - t0
    res = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {ex.submit(explore, tsx, lls[v], n, lim, seed, t0 + lim["deadline"]): (n, v) for n, v in hs}
        natives = {}

        def native(profile, v):
            if (profile, v) not in natives:
                natives[(profile, v)] = B.native(profile, mod, v)
            return natives[(profile, v)]

        for v in sorted(lls):
            native("release" if v == "rel" else "debug", v)  # builds while the engine runs
        for f in cf.as_completed(futs):
            r = f.result()
            r["variant"] = futs[f][1]
            res.append(r)
            if a.v:
                print("  %-40s %s paths=%s q=%s solver=%ss wall=%ss viol=%s err=%s" % (
                    r["harness"], "ok" if r.get("complete") else "INCOMPLETE", r.get("paths"), r.get("queries"), r.get("solver_s"),
                    r.get("wall_s"), [(x["kind"], x["msg"]) for x in r.get("violations", [])], [e[:300] for e in r.get("errors", [])] or r.get("crash")), flush=True)
    res.sort(key=lambda r: r["harness"])
    problems, violations, found, limited = [], [], [], {}
    kf = [k for k in known() if k["property"] == prop]
    validated, samples = 0, []
    rdir = os.path.join(B.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for r in res:
        h, v = r["harness"], r["variant"]
        if r.get("crash") == "engine timeout":
            limited[h] = r["crash"]
            continue
        if "crash" in r:
            problems.append("%s: %s" % (h, r["crash"]))
            continue
        for i, x in enumerate(r["violations"]):
            k = [k for k in kf if k["harness"] == h and k["message"] == x["msg"]]
            if k:
                found.append((k[0], x))
                continue
            tmo = 20 if x["kind"] == "steps" else 60
            how, out = None, None
            for profile in (["release"] if v == "rel" else ["debug", "release"]):
                b = native(profile, v)
                out = native_run(b, h, x["inputs"], tmo, cap=x["kind"] == "alloc")
                if reproduces(x["kind"], out, x["msg"]):
                    how = profile
                    break
                if x["kind"] == "memory" and valgrind(b, h, x["inputs"]):
                    how = profile + " under valgrind"
                    break
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, h, i))
            arg = ",".join("%d:%s" % (w, y) for w, y in x["inputs"])
            json.dump({"property": prop, "harness": h, "variant": v, "kind": x["kind"], "message": x["msg"], "stack": x["stack"],
                       "inputs": x["inputs"], "reproduced": how, "native": out,
                       "replay": "cd %s/harness && cargo run --offline --bin replay --features %s -- %s %s" % (
                           ROOT, ",".join([mod] + B.VARIANTS[v][1]), h, arg)}, open(path, "w"), indent=1)
            if how:
                violations.append((h, x, path, how))
            elif x["kind"] == "steps" and out["rc"] in (0, 78):
                limited[h] = "step limit on a path that ends"
            else:
                problems.append("%s: %s `%s` did not reproduce natively (%s)" % (h, x["kind"], x["msg"], path))
        for e in r["errors"]:
            if e.startswith(("time limit", "solver returned unknown")):
                limited[h] = e.split(" [")[0]
            else:
                problems.append("%s: %s" % (h, e[:600]))
        if not r["complete"] and not r["errors"] and not r["violations"]:
            limited[h] = "time or path limit"
        missing = [] if h in limited else [c[1:] for c in r["covers"] if c.startswith("?") and c[1:] not in r["covers"]]
        if missing:
            problems.append("%s: never reached: %s" % (h, ", ".join(missing)))
        if not any(c for c in r["covers"]) and not r["checks"] and h not in limited:
            problems.append("%s: vacuous (no check, no cover)" % h)
        # the engine against the real build: replay sampled paths natively
        b = native("release" if v == "rel" else "debug", v)
        for s in r["samples"]:
            o = native_run(b, h, s["inputs"], 60)
            want = (0, s["covers"], s["checks"], s["panicked"])
            got = (o["rc"], o.get("covers"), o.get("checks"), o.get("panicked"))
            if want == got:
                validated += 1
                if len(samples) < 24:
                    samples.append({"harness": h, "inputs": s["inputs"][:64], "reached": [c for c in s["covers"] if not c.startswith("?")], "checks": s["checks"]})
            elif not r["violations"]:
                problems.append("%s: engine and native run disagree on %s: engine %r native %r" % (h, s["inputs"][:40], want, got))
    if 2 * len(limited) > len(res):
        problems.append("limits stopped %d of %d harnesses" % (len(limited), len(res)))
    tot = lambda k: sum(r.get(k, 0) for r in res)
    src = sorted({(n, f) for r in res for n, f in r.get("source", []) if "/repo/" in f})
    names = demangle([n for n, _ in src])
    bd = bounds().get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "assumptions": bd.get("assumptions", []) + sorted({s for r in res for s in r.get("stubs", [])}),
        "coverage": {
            "explanation": "states: distinct symbolic paths explored to their end; transitions: LLVM instructions executed symbolically; "
                           "traces_validated_against_impl: sampled paths whose concrete inputs were run natively with the same outcome",
            "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples or [{"none": True}],
            "exhaustive": not problems and all(r.get("complete") for r in res),
            "bounds": bd.get("bounds", ""), "outside": bd.get("outside", ""),
            "checks_decided": tot("checks"), "forks": tot("forks"),
            "solver": {"name": "z3 " + str(next((r.get("z3") for r in res if r.get("z3")), "")), "queries": tot("queries"),
                       "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "cached": tot("cached"),
                       "seconds": round(tot("solver_s"), 3), "max_query_s": max([r.get("max_query_s", 0) for r in res] or [0])},
            "functions_encoded": sorted({"%s (%s)" % (n, f.split("/repo/", 1)[1]) for n, (_, f) in zip(names, src)}),
            "ir_functions_executed": len({f for r in res for f in r.get("functions", [])}),
            "build_s": round(t_build, 2),
            "harnesses": [{"name": r["harness"], "configuration": r["variant"], "complete": r.get("complete"), "paths": r.get("paths"),
                           "checks": r.get("checks"), "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"),
                           "reached": {k: n for k, n in r.get("covers", {}).items() if not k.startswith("?")}} for r in res],
            "stopped_by_limits": ["%s: %s" % x for x in sorted(limited.items())],
            "problems": problems,
        },
    }
    if os.environ.get("TSX_LINES"):
        lines = sorted({(f.split("/repo/", 1)[1], l) for r in res for f, l in r.get("lines", []) if "/repo/" in f})
        json.dump(lines, open(os.path.join(os.environ["TSX_LINES"], prop + ".json"), "w"))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for f in natives.values():
        if os.path.exists(f):
            os.unlink(f)
    for k in kf:
        hit = [x for kk, x in found if kk is k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif not a.only and any(r["harness"] == k["harness"] for r in res):
            print("note: known finding no longer observed: %s" % k["what"])
    print("%s %s: %d harnesses, %d paths, %d queries, %.1f s solver, %d native replays, %.1f s" % (
        prop, tier, len(res), tot("paths"), tot("queries"), tot("solver_s"), validated, time.time() - t0))
    if violations:
        for h, x, path, how in violations:
            print("  %s: %s (%s; %s build)" % (h, x["msg"], x["kind"], how))
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][2]))
        return 1
    for h in sorted(limited):
        print("  not explored to its bounds: %s (%s)" % (h, limited[h]))
    if problems:
        for p in problems:
            print("  no verdict: " + p)
        return 2
    return 0


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        out = p.stdout.split("\n")
        return out[:len(names)] if len(out) >= len(names) else names
    except FileNotFoundError:
        return names


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("no verdict: build failed\n%s" % e)
        sys.exit(2)
