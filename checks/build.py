"""Build steps shared by setup and every check.

Everything is built from /repo's current working tree into /verif/.build (git-ignored):
  engine   the symbolic executor (tsx), Rust + libz3
  std      LLVM bitcode of core/alloc/std, taken from the stable toolchain's rlibs
  ir/<v>   LLVM bitcode of the harness crate, /repo's crate and its dependencies
  mod/<v>  linked and reduced LLVM IR per property
  native   the replay binary (same harness code, compiled natively)
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
TRIPLE = "x86_64-unknown-linux-gnu"

IRFLAGS = ("-C panic=abort -C debuginfo=line-tables-only -C opt-level=2 -C codegen-units=1 -C no-vectorize-loops "
           "-C no-vectorize-slp -C linker-plugin-lto --emit=llvm-bc,link --cap-lints allow ")
DBG = "-C overflow-checks=on -C debug-assertions=on"
REL = "-C overflow-checks=off -C debug-assertions=off"
VARIANTS = {
    # name: (extra rustc flags, harness cargo features selecting a configuration of /repo's crate)
    "dbg": (DBG, []),
    "rel": (REL, []),
    "ccp": (DBG, ["ccp"]),
    "elo": (DBG, ["elo"]),
    "rlx": (DBG, ["rlx"]),
    "chk": (DBG, ["chk"]),
    "imh": (DBG, ["imh"]),
    "avf": (DBG, ["avf"]),
    "exp": (DBG, ["exp"]),
    "irc": (DBG, ["irc"]),
    "ser": (DBG, ["ser"]),
}


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], (p.stdout[-2000:] + p.stderr[-6000:])))
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "--print", "sysroot"], env=env()).strip()
    return os.path.join(_sysroot, "lib", "rustlib", TRIPLE)


def tool(n):
    return os.path.join(sysroot(), "bin", n)


def engine():
    with Lock("engine"):
        run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(ROOT, "engine"),
            env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "engine"), RUSTFLAGS="--cap-lints allow"))
    return os.path.join(BUILD, "engine", "release", "tsx")


def std():
    d = os.path.join(BUILD, "std")
    out = []
    with Lock("std"):
        os.makedirs(d, exist_ok=True)
        for c in ("core", "alloc", "std"):
            rl = glob.glob(os.path.join(sysroot(), "lib", "lib%s-*.rlib" % c))
            if len(rl) != 1:
                raise BuildError("rlib of %s: %r" % (c, rl))
            bc = os.path.join(d, os.path.basename(rl[0])[3:-5] + ".bc")
            out.append(bc)
            if os.path.exists(bc):
                continue
            sub = os.path.join(d, c + ".objs")
            os.makedirs(sub, exist_ok=True)
            run([tool("llvm-ar"), "x", rl[0]], cwd=sub)
            parts = []
            for o in sorted(glob.glob(os.path.join(sub, "*.o"))):
                part = o[:-2] + ".part.bc"
                subprocess.run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + part, o],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(part) and os.path.getsize(part) > 0:
                    parts.append(part)
            if not parts:
                raise BuildError("no bitcode in " + rl[0])
            run([tool("llvm-link"), "-o", bc + ".tmp"] + parts)
            os.rename(bc + ".tmp", bc)
            for f in glob.glob(os.path.join(sub, "*")):
                os.unlink(f)
            os.rmdir(sub)
    return out


def fresh(td):
    """Cargo judges freshness by modification times; go by content: a /repo that differs from the one last built in td is rebuilt."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                q = os.path.join(base, f)
                h.update(q.encode() + b"\0" + open(q, "rb").read() + b"\0")
    key, mark = h.hexdigest(), os.path.join(td, "repo.sha")
    if os.path.exists(mark) and open(mark).read() == key:
        return
    for name in ("tezos-data-model", "encode_derive", "decode_derive", "estimable_derive"):
        for g in glob.glob(os.path.join(td, "**", ".fingerprint", name + "-*"), recursive=True):
            for q in glob.glob(os.path.join(g, "*")):
                os.unlink(q)
            os.rmdir(g)
    os.makedirs(td, exist_ok=True)
    open(mark, "w").write(key)


def bitcode(variant, mod):
    """Compile the harness crate against /repo's working tree; return the .bc files."""
    flags, feats = VARIANTS[variant]
    td = os.path.join(BUILD, "ir", variant)
    fresh(td)
    cmd = ["cargo", "build", "--offline", "--lib", "--target", TRIPLE, "--message-format=json"]
    cmd += ["--features", ",".join([mod] + feats)]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, env=env(CARGO_TARGET_DIR=td, RUSTFLAGS=IRFLAGS + flags))
    if p.returncode != 0:
        msgs = []
        for l in p.stdout.splitlines():
            try:
                j = json.loads(l)
                if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                    msgs.append(j["message"]["rendered"])
            except ValueError:
                pass
        raise BuildError("harness does not compile against /repo\n" + "\n".join(msgs)[:6000] + p.stderr[-2000:])
    out = []
    for l in p.stdout.splitlines():
        j = json.loads(l)
        if j.get("reason") != "compiler-artifact" or "lib" not in j["target"]["kind"] and "rlib" not in j["target"]["kind"]:
            continue
        rl = [f for f in j["filenames"] if f.endswith(".rlib")]
        if not rl or TRIPLE not in rl[0]:
            continue
        rl = rl[0]
        deps = os.path.join(td, TRIPLE, "debug", "deps")
        base = os.path.basename(rl)[3:-5]
        if os.path.dirname(rl) != deps:
            cand = [f for f in glob.glob(os.path.join(deps, "lib%s-*.rlib" % base)) if os.path.samefile(f, rl)]
            if len(cand) != 1:
                raise BuildError("cannot identify " + rl)
            base = os.path.basename(cand[0])[3:-5]
        bc = os.path.join(deps, base + ".bc")
        if not os.path.exists(bc):
            raise BuildError("no bitcode " + bc)
        out.append(bc)
    return out


def module(variant, names, mod):
    """Linked LLVM IR holding the given harness entry points and all they reach."""
    sb = std()
    with Lock("ir-" + variant):
        bcs = bitcode(variant, mod)
        h = hashlib.sha256()
        for b in bcs + sb:
            h.update(open(b, "rb").read())
        h.update(",".join(names).encode())
        key = h.hexdigest()[:16]
        d = os.path.join(BUILD, "mod", variant)
        os.makedirs(d, exist_ok=True)
        ll = os.path.join(d, "%s-%s.ll" % (mod, key))
        if not os.path.exists(ll):
            for f in glob.glob(os.path.join(d, mod + "-*.ll")):
                os.unlink(f)
            allbc = ll + ".all"
            mn = ll + ".min"
            run([tool("llvm-link"), "-o", allbc] + bcs + sb)
            run([tool("opt"), "-passes=internalize,globaldce,strip-nonlinetable-debuginfo",
                 "--internalize-public-api-list=" + ",".join(names + ["__sym_eprint", "__sym_write"]), allbc, "-o", mn])
            run([tool("llvm-dis"), mn, "-o", ll + ".tmp"])
            os.unlink(allbc)
            os.unlink(mn)
            os.rename(ll + ".tmp", ll)
    return ll


def native(profile, mod, variant):
    """The replay binary for one property's module in one configuration."""
    feats = [mod] + VARIANTS[variant][1]
    td = os.path.join(BUILD, "native")
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "replay", "--features", ",".join(feats)]
    if profile == "release":
        cmd.append("--release")
    with Lock("native"):
        fresh(td)
        run(cmd, cwd=os.path.join(ROOT, "harness"), env=env(CARGO_TARGET_DIR=td, RUSTFLAGS="--cap-lints allow"))
        out = os.path.join(BUILD, "native", "bin")
        os.makedirs(out, exist_ok=True)
        dst = os.path.join(out, "replay-%s-%s-%s" % ("-".join(feats), profile, os.getpid()))
        import shutil
        shutil.copy2(os.path.join(td, profile, "replay"), dst)
    return dst


# harness entry points: fn pNN_name() quick, fn pNNt_name() thorough only;
# a suffix __<variant> selects the configuration it is built in (default dbg)
HN = re.compile(r"^\s*fn\s+((p\d\d)(t?)_\w+)\s*\(\s*\)", re.M)


def harnesses(prop, tier):
    """[(name, variant)] of a property."""
    out = []
    f = os.path.join(ROOT, "harness", "src", prop.lower() + ".rs")
    for m in HN.finditer(open(f).read()):
        if m.group(2).upper() != prop:
            raise BuildError("harness %s in %s" % (m.group(1), f))
        if tier == "thorough" or not m.group(3):
            n = m.group(1)
            out.append((n, n.rsplit("__", 1)[1] if "__" in n else "dbg"))
    return out
