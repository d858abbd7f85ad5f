"""Build the harness, execute programs on the real code, let TLC judge the recorded traces."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HT_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
TARGET = os.path.join(ROOT, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness", "src")):
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "harness", "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(bins):
    """build the wanted harness binaries against the current tree; returns a directory of binaries"""
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"): env.pop(k, None)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        stamp = os.path.join(TARGET, "tree")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        dest = os.path.join(TARGET, "bin-" + th[:16])
        if old != th:
            # cargo goes by mtimes; a file put back with an old mtime must still be rebuilt
            subprocess.run(["cargo", "clean", "--offline", "-p", "hash-trie", "-p", "hth"], cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True)
            for d in os.listdir(TARGET):
                if d.startswith("bin-") and d != os.path.basename(dest): shutil.rmtree(os.path.join(TARGET, d), ignore_errors=True)
            open(stamp, "w").write(th)
        need = [b for b in bins if not os.path.exists(os.path.join(dest, b))]
        if need:
            cmd = ["cargo", "build", "--offline", "--locked"] + [x for b in need for x in ("--bin", b)]
            r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
            if r.returncode != 0: raise ToolError("harness build failed:\n" + "\n".join(l for l in r.stderr.splitlines() if l.startswith("error") or " --> " in l)[-3000:])
            os.makedirs(dest, exist_ok=True)
            for b in need: shutil.copy2(os.path.join(TARGET, "debug", b), os.path.join(dest, b))
        return dest


def limits(mem=2 << 30):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


OPN = {"ins": "insert", "rem": "remove", "tr": "transform", "tm": "transmute", "fork": "threads", "join": "threads", "t": "threads", "reref": "ref"}


def split_program(text):
    """-> list of histories, each a list of lines (H, K, commands)"""
    hs = []
    for l in text.splitlines():
        if not l.strip() or l.startswith("#"): continue
        if l.startswith("H "): hs.append([l])
        else: hs[-1].append(l)
    return hs


def run_bin(exe, prog, out, crumb, frm=0, uh=-1, uc=-1, timeout=300, mem=2 << 30):
    try:
        r = subprocess.run([exe, prog, out, crumb, str(frm), str(uh), str(uc)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           preexec_fn=limits(mem), timeout=timeout, env={"PATH": os.environ.get("PATH", ""), "RUST_BACKTRACE": "0"})
        return r.returncode
    except subprocess.TimeoutExpired:
        return 86


def record(exe, prog, trace, maxcrash=2):
    """run the program; panics are events; a hang or crash becomes an event, after which the rest of the program still runs"""
    hs = split_program(open(prog).read())
    crumb, part = trace + ".crumb", trace + ".part"
    frm, crashes = 0, 0
    with open(trace, "wb") as out:
        while frm < len(hs):
            rc = run_bin(exe, prog, part, crumb, frm)
            if rc == 0:
                out.write(open(part, "rb").read()); break
            c = open(crumb).read().split() if os.path.exists(crumb) else []
            if len(c) < 2 or not c[0].isdigit(): raise ToolError(f"harness failed (rc {rc}) before running any command of {prog}")
            hi, ci = int(c[0]), int(c[1])
            rc2 = run_bin(exe, prog, part, crumb, frm, hi, ci)
            if rc2 != 0: rc2 = run_bin(exe, prog, part, crumb, frm, hi, 0)
            if rc2 == 0: out.write(open(part, "rb").read())
            else:  # not reproducible up to here: only the failure itself is known
                out.write((json.dumps({"op": "init", "lab": f"{hi}.{hs[hi][0].split()[1]}", "n": 0, "hc": []}) + "\n").encode())
            op = hs[hi][2 + ci].split()
            op = op[2] if op[0] == "t" else op[0]
            out.write((json.dumps({"op": OPN.get(op, op), "e": "hang" if rc == 86 else "crash", "msg": f"exit {rc}", "cmd": ci}) + "\n").encode())
            frm = hi + 1
            crashes += 1
            if crashes >= maxcrash: break
    for f in (crumb, part):
        if os.path.exists(f): os.unlink(f)
    return crashes


def tlc(module, cfg, meta, env=None, workers=1, mem="2g", extra=(), timeout=800, cwd=SPEC, par=False):
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC" if par else "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + mem, "-XX:TieredStopAtLevel=1", "-cp", CP, "-Dtlc2.TLC.ide=none", "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, module]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module} {cfg} {env}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout.replace("\n", " "))
    gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return r.returncode, r.stdout, gen, dist


def validate(trace, meta, cfg="TraceCheck.cfg", module="TraceCheck.tla", first=0):
    """-> (list of (line number, set of clauses), events)"""
    n = sum(1 for _ in open(trace, "rb"))
    if n == 0: return [], 0, 0, 0
    rc, out, gen, dist = tlc(module, cfg, meta, env={"TRACE": trace})
    bad = []
    for l in out.splitlines():
        m = re.match(r'"BAD (\d+) (.*)"$', l)
        if m: bad.append((int(m.group(1)), set(re.findall(r'\\"([^"\\]+)\\"', m.group(2)))))
    if rc != 0 or dist != n + first: raise ToolError(f"TLC could not validate {trace} (rc {rc}, {dist} states for {n} events)\n" + out[-1500:])
    return bad, n, dist, gen
