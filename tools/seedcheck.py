#!/usr/bin/env python3
"""tools/seedcheck.py [ID...] [--no-check]: for each planted change, in a scratch clone of /repo: applies, builds, passes the
stable tests, demo fails with it and passes without. Then runs the check of its property in a mount namespace where the
patched clone lies over /repo and a copy of /verif over /verif, so that nothing here is touched."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedcheck/repo"
E = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedcheck/target", CARGO_NET_OFFLINE="true", VERIF_SEED="1", VERIF_TIER="quick")
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=E, **kw)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(ROOT + "/seeded"))
os.makedirs("/tmp/seedcheck", exist_ok=True)
if not os.path.exists(W):
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
for i in ids:
    d = "%s/seeded/%s" % (ROOT, i)
    meta = json.load(open(d + "/meta.json"))
    sh("git fetch -q; git reset -q --hard origin/HEAD; git clean -qfd", W)
    r = {}
    if "--check-only" not in sys.argv:
        r["demo clean"] = sh("bash %s/demo.sh" % d, W).returncode
        r["apply"] = sh("git apply %s/patch.diff" % d, W).returncode
        t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
        r["tests"] = "FAILED" if ("FAILED" in t.stdout or "error" in t.stdout.lower() and "test result" not in t.stdout or t.returncode) else "ok"
        dm = sh("bash %s/demo.sh" % d, W)
        r["demo bug"] = dm.returncode
        r["says"] = [l for l in dm.stdout.splitlines() if "panicked" in l or l.startswith("error")][:1]
        if r["tests"] != "ok":
            print(t.stdout[-1500:])
    if "--no-check" not in sys.argv:
        t0 = time.time()
        sh("git reset -q --hard origin/HEAD; git apply %s/patch.diff" % d, W)
        os.makedirs("/tmp/seedcheck/verif", exist_ok=True)
        old = "--exclude .build" if os.path.exists("/tmp/seedcheck/verif/.build") else ""
        sh("rsync -a --delete --exclude .git --exclude evidence %s %s/ /tmp/seedcheck/verif/" % (old, ROOT), "/")
        c = sh("unshare -Urm bash -c 'mount --bind /tmp/seedcheck/repo /repo && mount --bind /tmp/seedcheck/verif /verif && cd /verif && python3 checks/run.py %s --tier quick'" % meta["property"], "/")
        r["check"] = c.returncode
        r["viol"] = [l[:160] for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:2]
        r["secs"] = round(time.time() - t0)
        if c.returncode == 2:
            r["tail"] = c.stdout[-600:]
    print(i, meta["property"], r, flush=True)
