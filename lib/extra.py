"""Model-level TLC runs and the checks that do not go through the history language (word traits, operator values)."""
import json, os, sys, time
import core
sys.path.insert(0, os.path.join(core.ROOT, "tools"))

# property -> models (cfg, module), run in the quick tier | added in the thorough tier
def _m(mod, *cfgs): return [(mod, f"{c}.cfg") for c in cfgs]
MAP = lambda *k: _m("HashTrieMap", *("HashTrieMap" + x for x in k))
TJ = lambda *k: _m("TrieJoin", *("TrieJoin" + x for x in k))
LAWS = _m("MapLaws", "MapLaws2")
OWNER = lambda *k: _m("Ownership", *("Ownership" + x for x in k))
TRIE = _m("TrieMC", "TrieMC4")
QUICK = {
    "C01": TRIE + MAP("MCp3"), "C02": TRIE + MAP("MCp", "MCp3"), "C03": TRIE + MAP("MCp", "MCp3"), "C04": TRIE + TJ("3mm"),
    "C05": MAP("MCp3", "MC2e") + OWNER("2"), "C06": TRIE + _m("TrieMC", "TrieEmit4", "TrieEmit5"), "C07": TRIE + MAP("MC2s"), "C08": TRIE + MAP("MC1s"),
    "C09": TJ("3ff") + LAWS, "C10": TJ("3fm", "3ftr"), "C11": TJ("3mf", "3mtr") + LAWS, "C12": TJ("3mm") + MAP("MC1c"), "C13": TJ("3fm", "3mtr", "3mm") + _m("Strategy", "StrategyPar"),
    "C14": _m("Strategy", "StrategyPar", "StrategySeq", "StrategyPar5"), "C15": LAWS + TJ("3fmc"), "C16": LAWS + MAP("MC1s", "MC2s"), "C17": MAP("MC2e"),
    "C18": _m("TrieShare", "TrieShare3"), "C19": OWNER("1", "2", "2b"), "C20": OWNER("2", "2b"), "C21": OWNER("1", "2"), "C22": MAP("MCp"),
    "C23": _m("BitWordsMC", "BitWordsMC"), "C24": _m("OperatorsMC", "OperatorsMC") + LAWS, "C25": TRIE + TJ("3ff"),
}
THOROUGH = {
    "C05": MAP("MC2b", "MC1"), "C07": MAP("MC2"), "C08": MAP("MC2b"), "C09": TJ("4ff"), "C10": TJ("4fm", "4ftr"), "C11": TJ("4mf", "4mtr"), "C12": TJ("4mm", "4mmc") + MAP("MC1"),
    "C13": TJ("3allc"), "C15": TJ("4fmc"), "C16": MAP("MC2"), "C17": MAP("MC2", "MC1", "MC1s"), "C18": _m("TrieShare", "TrieShare3c", "TrieShare4ff"), "C19": OWNER("22"), "C20": OWNER("22b"), "C21": OWNER("22"), "C25": TJ("3allc"), "C24": _m("MapLaws", "MapLaws3"),
}
REPLAY = {}


def models_of(prop, tier):
    return QUICK.get(prop, []) + (THOROUGH.get(prop, []) if tier == "thorough" else [])


def run_models(prop, tier, wd):
    out = []
    for mod, cfg in models_of(prop, tier):
        t0 = time.time()
        rc, text, gen, dist = core.tlc(mod + ".tla", cfg, os.path.join(wd, "meta." + cfg), workers=1 if "Emit" in cfg else 2 if tier == "quick" else 8, mem="8g", timeout=800)
        if "Emit" in cfg and rc == 0:   # the catalogue the scenarios come from is what the model reaches
            import gen_tries
            n = int(cfg[8])
            if gen_tries.parse(text, n) != open(os.path.join(core.SPEC, "gen", f"tries{n}.txt")).read(): rc, text = 1, f"spec/gen/tries{n}.txt is not what TrieMC reaches"
        out.append(dict(name=cfg[:-4], rc=rc, tail=text[-1500:], states=dist, transitions=gen, wall_s=round(time.time() - t0, 1)))
    return out


def aux(prop, what, seed, count, wd, log):
    t0 = time.time()
    bins = core.build(["aux"])
    log["build_s"] = round(time.time() - t0, 1)
    tr = os.path.join(wd, "aux.nd")
    rc = 0
    import subprocess
    try:
        r = subprocess.run([os.path.join(bins, "aux"), tr, what, str(seed), str(count)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=core.limits(), timeout=300)
        rc = r.returncode
    except subprocess.TimeoutExpired: rc = 86
    own = lambda cs, line: ({prop + "." + c for c in cs}, ("aux", what, 0, count), [], [line], "")
    if rc != 0: return [own({"crash"}, f"aux {what} {seed} {count}: exit {rc}")], {}
    t0 = time.time()
    bad, n, dist, gen = core.validate(tr, os.path.join(wd, "meta.aux"), cfg="AuxCheck.cfg", module="AuxCheck.tla", first=1)
    log["validate_s"] = round(time.time() - t0, 1)
    lines = open(tr).read().splitlines()
    pairs = sum(len(json.loads(l).get("bs", [])) for l in lines) if what == "words" else 0
    cov = dict(states=dist, transitions=gen, traces_validated_against_impl=n, events=n, samples=[l[:300] for l in lines[300:303]])
    if pairs: cov["word_argument_pairs"] = pairs
    return [own(cs, lines[ln - 1]) for ln, cs in bad], cov


def replay_aux(path, prop):
    l = [x for x in open(path).read().splitlines() if x.startswith("# aux ")][0].split()
    wd = os.path.join(core.WORK, f"replay.{os.getpid()}")
    os.makedirs(wd, exist_ok=True)
    v, _ = aux(prop, l[2], int(l[3]), int(l[4]), wd, {})
    for own, _, _, tr, _ in v[:20]: print(sorted(own), tr[0][:1000])
    if v: print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
    return 1 if v else 0


REPLAY["aux"] = REPLAY["words"] = REPLAY["ops"] = replay_aux


def checks(prop, tier, seed, wd, log):
    if prop == "C23": return aux(prop, "words", seed, 40 if tier == "quick" else 3000, wd, log)
    if prop == "C24": return aux(prop, "ops", seed, 0, wd, log)
    return [], {}


def setup(): pass
