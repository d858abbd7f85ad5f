#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on the current tree of /repo
check.py --replay FILE                re-run a recorded counterexample
check.py --setup                      build everything once"""
import collections, concurrent.futures as cf, json, os, re, shutil, sys, threading, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import core, gen, jobs as J, props as P, specgen
try: import extra as X
except ImportError: X = None
NPROC = 8
THOROUGH_S = 720  # seconds, models and rounds together, after which the thorough tier starts no new round


def one_job(a):
    """generate, execute; worker process. -> (job, text, trace file, reference trace or None, crashes)"""
    bins, wd, seed, prop, job, ref, idx, stop = a
    if os.path.exists(stop): return idx, None
    text = J.program(seed, prop, job)
    base = os.path.join(wd, f"j{idx}")
    open(base + ".txt", "w").write(text)
    crashes = core.record(os.path.join(bins, job[1]), base + ".txt", base + ".nd")
    if ref:
        open(base + ".rtxt", "w").write(J.ref_program(ref, text))
        core.record(os.path.join(bins, J.REF_CFG if ref == "hash" else job[1]), base + ".rtxt", base + ".rnd")
    if crashes:
        with open(stop + ".n", "a") as f: f.write("x" * crashes)
        if os.path.getsize(stop + ".n") >= 12: open(stop, "w").close()
    return idx, crashes


def tlc_pool(files, wd, nproc):
    """concatenate the traces into balanced batches, validate them all; -> {file: [(line, clauses)]}, events, states, transitions"""
    sizes = {f: os.path.getsize(f) for f in files}
    limit = 45 << 20
    nb = max(min(nproc, len(files)), -(-sum(sizes.values()) // limit))
    batches = [[0, []] for _ in range(nb)]
    for f in sorted(files, key=lambda f: -sizes[f]):
        b = min(batches); b[0] += sizes[f]; b[1].append(f)
    batches = [b[1] for b in batches if b[1]]
    def run(k):
        path = os.path.join(wd, f"batch{k}.nd")
        index, n = [], 0
        with open(path, "wb") as o:
            for f in batches[k]:
                data = open(f, "rb").read()
                c = data.count(b"\n")
                if c: index.append((n, c, f)); o.write(data); n += c
        bad, n2, dist, gen_ = core.validate(path, os.path.join(wd, f"meta{k}"))
        os.unlink(path)
        return bad, index, n2, dist, gen_
    res, ev, st, tr = collections.defaultdict(list), 0, 0, 0
    with cf.ThreadPoolExecutor(nproc) as ex:
        for bad, index, n, dist, gn in ex.map(run, range(len(batches))):
            ev += n; st += dist; tr += gn
            for line, clauses in bad:
                s, c, f = next(x for x in index if x[0] < line <= x[0] + x[1])
                res[f].append((line - s, clauses))
    return res, ev, st, tr


def locate(lines, ln):
    """event number ln (1-based) of a trace -> (history index, thread tag, event)"""
    i = ln - 1
    while '"op":"init"' not in lines[i].replace(" ", "")[:20]: i -= 1
    lab = re.search(r'"lab": ?"([^"]*)"', lines[i]).group(1)
    return int(lab.split(".")[0]), lab, i, json.loads(lines[ln - 1])


def enrich(ev, prog):
    """crashes and hangs carry only the command number: take the arguments from the program"""
    if "cmd" in ev and ev.get("e") in ("hang", "crash"):
        t = prog[2 + ev["cmd"]].split()
        if t[0] == "t": t = t[2:]
        try:
            if t[0] == "ins": ev["het"] = int(t[7]); ev["s"] = int(t[1])
            elif t[0] == "rem": ev["het"] = int(t[4]); ev["s"] = int(t[1])
            elif t[0] == "find": ev["het"] = int(t[3]); ev["s"] = int(t[1])
            elif t[0] in ("tr", "tm"): ev.update(s=int(t[1]), par=int(t[3]), cl=int(t[4]), set=int(int(t[1]) >= 12))
            elif t[0] in gen.JOINT: ev.update(s=int(t[1]), par=int(t[4]) & 1, fl=int(t[4]) >> 1, cb=int(t[5]), cl=int(t[6]), cr=int(t[7]), set=int(int(t[1]) >= 12))
        except (IndexError, ValueError): pass
    return ev


def relevant(prop, clauses, ev):
    own = {c for c in clauses if P.owns(prop, c)}
    if prop in P.TWIN and "e" in ev and P.TWIN[prop](ev): own |= {c for c in clauses if c.endswith(P.FAILS)}
    return own


def known(prop):
    """findings that stand: lines `known: property=<id> clauses=<regex> history=<label regex> <text>`"""
    out = []
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) clauses=(\S+) history=(\S+) (.*)", l)
        if m and m.group(1) == prop: out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def campaign(prop, tier, seed, wd, log, begun):
    """quick: one round.  thorough: rounds with new seeds and other configurations until the time is used up or something is found"""
    left, t0, rnd, cov = begun + THOROUGH_S - time.time(), time.time(), 0, None
    while True:
        d = os.path.join(wd, f"r{rnd}")
        os.makedirs(d)
        lg = {}
        out, c = one_round(prop, seed + 7919 * rnd, d, lg, P.jobs(prop, "quick", rnd))
        if not out: shutil.rmtree(d, ignore_errors=True)
        for k, v in lg.items(): log[k] = round(log.get(k, 0) + v, 1)
        if cov is None: cov = c
        else:
            for k in ("states", "transitions", "traces_validated_against_impl", "events", "jobs"): cov[k] += c[k]
            for k in ("operations", "profiles"): cov[k] = dict(collections.Counter(cov[k]) + collections.Counter(c[k]))
        rnd += 1
        cov["rounds"] = rnd
        used = time.time() - t0
        if out or tier == "quick" or used + used / rnd > left: return out, cov


def one_round(prop, seed, wd, log, jl):
    ref = P.REF.get(prop)
    need = sorted({j[1] for j in jl} | ({J.REF_CFG} if ref == "hash" else set()))
    os.environ["HT_WD"] = wd
    nspec = sum(j[3] for j in jl if j[0] == "spec")
    with cf.ThreadPoolExecutor(1) as ex:
        sim = ex.submit(specgen.simulate, prop, seed, min(nspec, 4000), wd) if nspec else None
        t0 = time.time()
        bins = core.build(need)
        log["build_s"] = round(time.time() - t0, 1)
        if sim: log["spec_histories"] = sim.result(); log["simulate_s"] = round(time.time() - t0 - log["build_s"], 1)
    stop = os.path.join(wd, "stop")
    t0 = time.time()
    with cf.ProcessPoolExecutor(NPROC) as ex:
        done = [i for i, c in ex.map(one_job, [(bins, wd, seed, prop, j, ref, i, stop) for i, j in enumerate(jl)]) if c is not None]
    log["record_s"] = round(time.time() - t0, 1)
    t0 = time.time()
    files = [os.path.join(wd, f"j{i}.nd") for i in done] + ([os.path.join(wd, f"j{i}.rnd") for i in done] if ref else [])
    bad, ev, st, tr = tlc_pool(files, wd, NPROC)
    log["validate_s"] = round(time.time() - t0, 1)
    out, hists, ops, samples = [], 0, collections.Counter(), []
    for i in done:
        base = os.path.join(wd, f"j{i}")
        data = open(base + ".nd").read()
        hists += data.count('"op":"init"')
        ops.update(re.findall(r'^\{"op": ?"(\w+)"', data, re.M))
        if base + ".nd" not in bad: continue
        lines = data.splitlines()
        progs = core.split_program(open(base + ".txt").read())
        rbad = collections.defaultdict(set)
        if ref and base + ".rnd" in bad:
            rl = open(base + ".rnd").read().splitlines()
            for ln, cs in bad[base + ".rnd"]: rbad[locate(rl, ln)[0]] |= cs
        for ln, cs in bad[base + ".nd"]:
            hi, lab, start, e = locate(lines, ln)
            own = relevant(prop, cs, enrich(e, progs[hi])) - rbad[hi]
            if own: out.append((own, jl[i], progs[hi], lines[start:ln], base))
    if done:
        for i in (done[0], done[len(done) // 2]):
            p = core.split_program(open(os.path.join(wd, f"j{i}.txt")).read())[0]
            samples.append({"job": list(jl[i]), "program": p[:12]})
    return out, dict(states=st, transitions=tr, traces_validated_against_impl=hists, events=ev, operations=dict(ops.most_common()), jobs=len(done), samples=samples,
                     profiles=dict(collections.Counter(j[0] for j in jl)), configurations=sorted({j[1] for j in jl}))


def save_replay(prop, n, own, job, prog, trace):
    d = os.path.join(core.WORK, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{n}.txt")
    with open(path, "w") as f:
        f.write(f"# property={prop} cfg={'aux' if job[0] == 'aux' else job[1]} job={':'.join(map(str, job))}\n# violated: {' '.join(sorted(own))}\n# last event: {trace[-1][:1500]}\n")
        f.write("\n".join(prog) + "\n")
        if job[0] == "aux": f.write(f"# aux {job[1]} {os.environ.get('VERIF_SEED', '1')} {job[3]}\n")
    return path


def main():
    if sys.argv[1] == "--setup":
        core.build(J.ALL + J.STD + ['aux'])
        if X: X.setup()
        return 0
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    wd = os.path.join(core.WORK, f"{prop}.{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    log, violations, cov = {}, [], {}
    try:
        models, mt = [], None
        if X and X.models_of(prop, tier):
            mt = threading.Thread(target=lambda: models.extend(X.run_models(prop, tier, wd)))
            mt.start()
            if tier == "thorough": mt.join()
        if prop in P.OWN: violations, cov = campaign(prop, tier, seed, wd, log, t0)
        if X:
            v2, c2 = X.checks(prop, tier, seed, wd, log)
            violations += v2
            for k, v in c2.items():
                cov[k] = cov[k] + v if k in cov and isinstance(v, (int, list)) else v
        if mt:
            mt.join()
            if len(models) != len(X.models_of(prop, tier)): raise core.ToolError("a model run did not finish")
            for m in models:
                cov["states"] = cov.get("states", 0) + m["states"]; cov["transitions"] = cov.get("transitions", 0) + m["transitions"]
                if m["rc"] != 0: raise core.ToolError(f"model {m['name']} failed:\n{m['tail']}")
            cov["models"] = [{k: m[k] for k in ("name", "states", "transitions", "wall_s")} for m in models]
    finally:
        if not os.environ.get("KEEP_WORK"): shutil.rmtree(wd, ignore_errors=True)
    kn, reported, seen = known(prop), 0, set()
    for own, job, prog, trace, base in violations:
        label = prog[0].split()[1] if prog else ""
        hit = next((k for k in kn if all(k[0].fullmatch(c) for c in own) and k[1].fullmatch(label)), None)
        if hit:
            if hit[2] not in seen: print(f"KNOWN-FINDING: property={prop} {hit[2]}"); seen.add(hit[2])
            continue
        reported += 1
        key = tuple(sorted(own))
        if key in seen and reported > 1 or len(seen) > 8: continue
        seen.add(key)
        path = save_replay(prop, len(seen), own, job, prog, trace)
        print(f"violated {' '.join(key)} in {label} ({job[1]}): {trace[-1][:400]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    cov.setdefault("states", 0); cov.setdefault("transitions", 0); cov.setdefault("traces_validated_against_impl", 0); cov.setdefault("samples", [])
    cov["timing"] = log
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": reported,
               "assumptions": ["TLC evaluates the specification correctly", "the harness records what the library returned", "only the explored histories are decided"]},
              open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: {cov.get('traces_validated_against_impl')} histories, {cov.get('events', 0)} events, {cov['states']} states, {reported} violations, {time.time() - t0:.1f} s {log}")
    return 1 if reported else 0


def replay(path):
    head = open(path).readline()
    prop, cfg = re.search(r"property=(\S+)", head).group(1), re.search(r"cfg=(\S+)", head).group(1)
    if X and cfg in X.REPLAY: return X.REPLAY[cfg](path, prop)
    bins = core.build([cfg])
    wd = os.path.join(core.WORK, f"replay.{os.getpid()}")
    os.makedirs(wd, exist_ok=True)
    tr = os.path.join(wd, "t.nd")
    core.record(os.path.join(bins, cfg), path, tr)
    bad = core.validate(tr, os.path.join(wd, "meta"))[0]
    lines = open(tr).read().splitlines()
    progs = core.split_program(open(path).read())
    n = 0
    for ln, cs in bad:
        hi, lab, start, e = locate(lines, ln)
        own = relevant(prop, cs, enrich(e, progs[hi])) if prop in P.OWN else cs
        n += bool(own)
        print(f"event {ln} of {len(lines)}: violates {sorted(cs)}{'' if own else ' (other properties)'}\n  {lines[ln - 1][:1500]}")
    shutil.rmtree(wd, ignore_errors=True)
    if n: print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
    return 1 if n else 0


if __name__ == "__main__":
    try: rc = main()
    except core.ToolError as e:
        print("ERROR:", e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
