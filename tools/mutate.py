#!/usr/bin/env python3
"""tools/mutate.py WORKDIR SEED COUNT [FILE...]: random one-token changes to /repo's sources that compile and pass the tests,
each judged by the checks anchored at the changed file. A development aid: prints the changes nothing noticed.
Runs in a mount namespace with copies of /repo and /verif, so that nothing here is touched."""
import json, os, random, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, seed, count, only = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
os.makedirs(W, exist_ok=True)
R, V = W + "/repo", W + "/verif"
E = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true", VERIF_SEED="1", VERIF_TIER="quick")
def sh(cmd, cwd, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=E, **kw)
    except subprocess.TimeoutExpired:
        return None
if not os.path.exists(R):
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
sh("git fetch -q; git reset -q --hard origin/HEAD; git clean -qfd", R)
old = "--exclude .build" if os.path.exists(V + "/.build") else ""
sh("rsync -a --delete --exclude .git --exclude evidence --exclude seeded %s %s/ %s/" % (old, ROOT, V), "/")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "), (r" << ", " >> "), (r" >> ", " << "), (r" \| ", " & "), (r" & ", " | "),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bis_some\(", "is_none("), (r"\bis_none\(", "is_some("), (r"\bis_empty\(\)", "is_empty() == false"),
       (r"\.next\(\)", ".next_back()"), (r"\bpush\(", "insert(0, "), (r"\bOk\b", "OkX"), (r"\bLess\b", "Greater"), (r"\.rev\(\)", ""), (r"\.take\((\w+)\)", ".take(\\1 + 1)"),
       (r"\b(\d+)usize\b", "1usize"), (r"\bSome\((\w+)\)$", "None"), (r"saturating_sub", "wrapping_sub"), (r"\?;$", ".ok();"),
       (r"\blen\(\)", "len() + 1"), (r"\blen\(\)", "len().saturating_sub(1)"), (r"\bmaybe_", ""), (r"KNOWN", "UNKNOWN"), (r"\b_unchecked\b", "")]
def sites():
    out = []
    fs = only or [os.path.relpath(os.path.join(b, f), R) for d in ("src", "encode_derive/src", "decode_derive/src", "estimable_derive/src")
                  for b, _, x in os.walk(os.path.join(R, d)) for f in x if f.endswith(".rs") and f != "main.rs"]
    for f in sorted(fs):
        test = 0
        for i, l in enumerate(open(os.path.join(R, f)).read().split("\n")):
            s = l.strip()
            if "#[cfg(test)]" in s:
                test = 1
            if test or s.startswith(("//", "#", "use ", "pub use", "fn ", "pub fn", "impl", "where", "mod ", "pub mod", "write!", "panic!", "assert", "debug_assert")) or not s:
                continue
            code = l.split(" //")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    out.append((f, i, code[:m.start()] + m.expand(b) + code[m.end():]))
            for m in re.finditer(r"(?<![\w.#x])(\d+)(?![\w.])", code):
                n = int(m.group(1))
                for k in (n + 1, n - 1):
                    if k >= 0:
                        out.append((f, i, code[:m.start(1)] + str(k) + code[m.end(1):]))
            if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "pub ", "}", ")")) and "(" in s:
                out.append((f, i, ""))
    return out
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
S = sites()
random.Random(seed).shuffle(S)
print(len(S), "sites", flush=True)
stats = dict(nocompile=0, tests=0, caught=0, missed=0, odd=0)
done = 0
for f, i, new in S:
    if done >= count:
        break
    sh("git checkout -q -- .", R)
    p = os.path.join(R, f)
    ls = open(p).read().split("\n")
    was = ls[i]
    ls[i] = new
    open(p, "w").write("\n".join(ls))
    if sh("cargo check --workspace --offline", R, timeout=300) is None or sh("cargo check --workspace --offline", R).returncode:
        stats["nocompile"] += 1
        continue
    t = sh("timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", R)
    if t.returncode:
        stats["tests"] += 1
        continue
    done += 1
    t0, hit, odd = time.time(), None, []
    for q in sorted((q for q in props if any(f == a or f.startswith(a + "/") for a in q["anchors"]["files"])), key=lambda q: len(q["anchors"]["files"])):
        c = sh("unshare -Urm bash -c 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && timeout 900 python3 checks/run.py %s --tier quick'" % (R, V, q["id"]), "/")
        if c.returncode == 1:
            hit = q["id"]
            break
        if c.returncode:
            odd.append((q["id"], c.returncode, c.stdout[-300:]))
    k = "caught" if hit else "odd" if odd else "missed"
    stats[k] += 1
    print("%s %s:%d [%ds] %s\n  - %s\n  + %s" % (k.upper(), f, i + 1, time.time() - t0, hit or odd or "", was.strip(), new.strip()), flush=True)
    print(stats, flush=True)
