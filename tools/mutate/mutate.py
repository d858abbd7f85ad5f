#!/usr/bin/env python3
"""Single-token mutants of the library, built in scratch copies and run through a fixed sample of every profile:
which mutants does no clause of the specification notice?   mutate.py SEED COUNT WORKERS OUT"""
import sys, os, re, random, subprocess, json, shutil, time, collections, concurrent.futures as cf
V = "/verif"; sys.path.insert(0, f"{V}/lib")
import core, jobs, props
seed, count, workers, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
BASE = "/tmp/mut"
FILES = only or ["src/node/lnode.rs", "src/node/cnode.rs", "src/node/snode.rs", "src/node/mnode.rs", "src/hash_trie.rs", "src/map.rs", "src/set.rs", "src/flag.rs", "src/bit_indexed_array.rs", "src/results.rs", "src/transformations.rs"]
CFGS = ["u8u8", "u64u32", "u64u128"]
SWAPS = [("left_op", "right_op"), ("both_op", "both_op.flip()"), ("lr", "rr"), ("rk", "lk"), ("rv", "lv"), ("lnode", "this"), ("rlnode", "llnode"), ("rsnode", "lsnode"), ("UnchangedL", "UnchangedR"), ("UnchangedLR", "UnchangedL"),
         ("UnchangedLR", "UnchangedR"), ("this", "right"), ("true", "false"), ("==", "!="), ("depth + 1", "depth"), ("depth", "depth + 1"), (".flip()", ""), ("&&", "||"), ("left", "right"), ("unchangedl", "unchangedr"),
         ("Sequential", "MiddleIndex"), ("<", "<="), (">", ">="), ("- 1", ""), ("+ 1", ""), ("this_flag", "right_flag"), ("this_hash", "right_hash"), ("size += ", "size = "), ("bits_t", "bits_u"), ("key", "this.key()"), ("values_t", "values_u"), ("1", "0"), ("1", "2"), ("0", "1")]


def mutants():
    res = []
    for f in FILES:
        src = open(f"{BASE}/src/{f}").read().split("\n")
        body = 0
        for n, l in enumerate(src):
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub fn", "pub(", "impl", "where", "fn ", "<F as")) or "Fn(" in l or " fn " in l: continue
            if "#[cfg(test)]" in l or s.startswith("mod ") and "test" in s: break
            for a, b in SWAPS:
                for x, y in ((a, b), (b, a)) if b and a.isidentifier() and b.isidentifier() else ((a, b),):
                    pat = r"(?<![\w.])" + re.escape(x) + r"(?!\w)" if x[0].isalnum() else (r"(?<![-=<>&|])" + re.escape(x) + r"(?![-=<>&|])")
                    for m in re.finditer(pat, l):
                        if x == "<" and not re.search(r"\w < \w", l[max(0, m.start() - 2):m.end() + 2]): continue
                        if x == ">" and not re.search(r"\w > \w", l[max(0, m.start() - 2):m.end() + 2]): continue
                        res.append((f, n, m.start(), x, y))
            m = re.search(r"reduce_op\(&(\w+), &(\w+)\)", l)
            if m:
                for g in (1, 2): res.append((f, n, m.start(), m.group(0), m.group(g) + ".clone()"))
    return res


def apply(d, mu):
    f, n, p, x, y = mu
    L = open(f"{BASE}/src/{f}").read().split("\n")
    L[n] = L[n][:p] + y + L[n][p + len(x):]
    open(f"{d}/repo/{f}", "w").write("\n".join(L))
    return L[n].strip()


def sample_jobs():
    js = {}
    for p, l in props.QUICK.items():
        if p in ("C20", "C06"): continue
        for j in props.jobs(p, "quick"):
            if j[1] in CFGS and "spec" != j[0] and "70000" not in j[0] and "5000" not in j[0]: js.setdefault((j[0], j[1]), j)
    r = random.Random(7); keys = sorted(js); r.shuffle(keys)
    return [js[k] for k in keys]


def worker(w):
    d = f"{BASE}/{w}"
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", f"{BASE}/src", f"{d}/repo"]); subprocess.run(["rm", "-rf", f"{d}/repo/target"])
        shutil.copytree(f"{V}/harness", f"{d}/harness", ignore=shutil.ignore_patterns("target"))
        t = open(f"{d}/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"'); open(f"{d}/harness/Cargo.toml", "w").write(t)
    return d


def run(args):
    i, mu, w = args
    d = worker(w)
    t0 = time.time()
    line = apply(d, mu)
    res = dict(i=i, file=mu[0], line=mu[1] + 1, frm=mu[3], to=mu[4], text=line[:200])
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=f"{d}/target")
        r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=f"{d}/repo", env=env, capture_output=True, text=True)
        if r.returncode: res["r"] = "nocompile"; return res
        r = subprocess.run(["cargo", "build", "--offline", "-q"] + [x for c in CFGS + ["aux"] for x in ("--bin", c)], cwd=f"{d}/harness", env=env, capture_output=True, text=True)
        if r.returncode: res["r"] = "nobuild"; return res
        cl = collections.Counter()
        n = 0
        for cfg, text in CHUNKS:
            prog, tr = f"{d}/p.txt", f"{d}/t.nd"
            open(prog, "w").write(text)
            try: core.record(f"{d}/target/debug/{cfg}", prog, tr)
            except core.ToolError: cl["toolerror"] += 1; break
            try:
                bad, *_ = core.validate(tr, f"{d}/meta")
            except Exception as e: cl["evalerror"] += 1; res["err"] = str(e)[-300:]; break
            n += 1
            for _, cs in bad:
                for c in cs: cl[c] += 1
            if len(cl) and sum(cl.values()) > 20: break
        res["r"] = "killed" if cl else "SURVIVED"; res["jobs"] = n; res["clauses"] = cl.most_common(5); res["n"] = sum(cl.values())
    finally:
        shutil.copy(f"{BASE}/src/{mu[0]}", f"{d}/repo/{mu[0]}")
        res["s"] = round(time.time() - t0)
    return res


def chunks():
    by = {c: [j for j in sample_jobs() if j[1] == c] for c in CFGS}
    out = []
    for lo, hi in ((0, 5), (5, 18), (18, 42)):
        for c in CFGS: out.append((c, "".join(jobs.program(1, "C25", j) for j in by[c][lo:hi])))
    return out


CHUNKS = []
if __name__ == "__main__":
    if not os.path.isdir(f"{BASE}/src"):
        os.makedirs(BASE, exist_ok=True); subprocess.run(["cp", "-a", "/repo", f"{BASE}/src"]); subprocess.run(["rm", "-rf", f"{BASE}/src/target"])
    ms = mutants(); r = random.Random(seed); r.shuffle(ms); ms = ms[:count]
    CHUNKS += chunks(); print(len(mutants()), "mutants,", [len(t.splitlines()) for _, t in CHUNKS], "lines", flush=True)
    os.environ["HT_WD"] = BASE; os.makedirs(BASE, exist_ok=True)
    import queue, threading
    q = queue.Queue(); [q.put((i, m)) for i, m in enumerate(ms)]
    lock = threading.Lock()
    def loop(w):
        while True:
            try: i, m = q.get_nowait()
            except queue.Empty: return
            res = run((i, m, w))
            with lock, open(out, "a") as f: f.write(json.dumps(res) + "\n")
    ts = [threading.Thread(target=loop, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
