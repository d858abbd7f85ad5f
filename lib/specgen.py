"""Histories chosen by the specification: TLC simulates HashTrieMapSim, every behaviour becomes a program.  Python only adds
what the abstract machine does not speak about: hashes, numbers for new keys and values, strategies, equivalent key types."""
import json, os, random
import core, gen

ALL = ["clone", "drop", "ins", "rem", "find", "tr", "tm", "ff", "fm", "ftr", "mf", "mtr", "mm"]
CFG = """SPECIFICATION SimSpec
CONSTANTS Keys = {%s}  Use = {0, 1, 2, 6, 7, 9, 10, 12, 13, 17, 18}  Depth = %d
  Acts = {%s}
  WClone = %d  WIns = %d  WRem = %d  WTr = %d  WTm = %d  WJoint = %d
  Some <- RandomOne  Fresh <- FreshNumber  Base <- BaseNumber  Tables <- RandomTable
INVARIANTS TypeOK Identity Emit
CHECK_DEADLOCK FALSE
"""
W = {  # property -> operations, weights clone ins rem tr tm joint
    "C02": (ALL, (1, 14, 4, 1, 1, 2)), "C03": (ALL, (1, 8, 10, 1, 1, 2)), "C07": (ALL, (1, 8, 3, 8, 1, 1)), "C08": (ALL, (1, 8, 3, 1, 8, 1)),
    "C09": (ALL[:7] + ["ff"], (1, 8, 3, 1, 1, 8)), "C10": (ALL[:7] + ["fm", "ftr"], (1, 8, 3, 1, 1, 8)), "C11": (ALL[:7] + ["mf", "mtr"], (1, 8, 3, 1, 1, 8)),
    "C12": (ALL[:7] + ["mm"], (1, 8, 3, 1, 1, 8)), "C17": (ALL, (4, 6, 3, 6, 1, 2)), "C05": (ALL, (4, 6, 4, 2, 1, 3))}
DEFAULT = (ALL, (1, 8, 4, 2, 1, 4))


def simulate(prop, seed, num, wd, n=6, depth=60):
    """-> number of histories, written one JSON array per line to wd/spec.jsonl"""
    acts, w = W.get(prop, DEFAULT)
    cfg = os.path.join(wd, "sim.cfg")
    open(cfg, "w").write(CFG % (", ".join(map(str, range(n))), depth, ", ".join(f'"{a}"' for a in acts), *w))
    rc, out, _, _ = core.tlc("HashTrieMapSim.tla", cfg, os.path.join(wd, "meta.sim"), extra=("-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(seed)))
    hs = []
    for l in out.splitlines():
        if l.startswith('"HIST '):
            x = json.loads(l)[5:]
            if hs and x[:400] == hs[-1][:400]: hs[-1] = x   # one per behaviour: the simulator also prints siblings of the last step
            else: hs.append(x)
    if rc != 0 or len(hs) < num: raise core.ToolError("simulation of HashTrieMapSim failed:\n" + out[-1500:])
    with open(os.path.join(wd, "spec.jsonl"), "w") as f: f.write("\n".join(hs) + "\n")
    return len(hs)


def program(wd, seed, cfg, k, count, n=6):
    hs = open(os.path.join(wd, "spec.jsonl")).read().splitlines()
    off = gen.HAND.index(cfg) * 37
    out = []
    for j in range(count):
        i = (off + k * count + j) % len(hs)
        rng = random.Random(f"{seed}:spec:{cfg}:{i}")
        nx = rng.randint(0, 2)
        h = gen.Hist(rng, cfg, f"spec{k}.{i}", n + nx, gen.hashes(rng, cfg, n + nx))
        for r in (0, 6, 9, 12, 17): h.new(r)
        for c in json.loads(hs[i]):
            op, a = c[0], c[1:]
            if op == "new": h.new(a[0])
            elif op == "clone": h.clone(*a)
            elif op == "drop": h.drop(*a)
            elif op == "ins": h.ins(*a, het=int(rng.random() < .15))
            elif op == "rem": h.rem(*a, het=int(rng.random() < .15))
            elif op == "find": h.find(*a, het=int(rng.random() < .15))
            elif op in gen.UNARY: h.un(op, a[0], a[1], rng.randrange(2), a[2], a[3])
            else: h.joint(op, a[0], a[1], a[2], rng.randrange(2), a[3:6], a[6:9])
            if rng.random() < .05 and h.regs: h.e(f"obs {rng.choice(sorted(h.regs))}")
            if rng.random() < .03: h.e("eqm")
        for r in sorted(h.regs): h.e(f"obs {r}")
        h.e("eqm"); h.e("census")
        out.append(h.text())
    return "".join(out)
