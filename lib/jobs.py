"""A job is (profile, cfg, k, count): a deterministic program of `count` histories for one harness binary."""
import random
import os
import gen, scen, specgen

ALL = list(gen.HAND)
STD = list(gen.STD)
NARROW = ["u8u8", "u16u8", "u32u16", "u64u32", "szsz"]


def any_ladder(rng, cfg, label, kinds=("ins", "rem", "tr", "ff", "fm", "ftr", "mf", "mtr", "mm")):
    bits, lb = gen.CFG[cfg]
    levels = -(-bits // lb)
    return gen.ladder(rng, cfg, label, rng.choice(kinds), rng.choice([0, levels - 1, rng.randrange(levels)]), rng.choice([None, None, 4]))


OPS = dict(new=0, clone=1, drop=0, ins=8, rem=5, find=1, visit=0, tr=0, tm=0, ff=0, fm=0, ftr=0, mf=0, mtr=0, mm=0, obs=2, keep=0, reref=0, eqm=0, census=0)


def focus(**w):
    def f(rng, cfg, label): return gen.mixed(rng, cfg, label, w={**OPS, **w}, length=50, tail=False)
    return f


PROFILES = {
    "mixed": gen.mixed,
    "chains": lambda r, c, l: gen.mixed(r, c, l, shape=r.choice(["all", "few", "dup"])),
    "deep": lambda r, c, l: gen.mixed(r, c, l, shape=r.choice(["deep", "path", "high"])),
    "sets": lambda r, c, l: gen.mixed(r, c, l, want=True),
    "insrem": focus(ins=30, rem=20, find=5),
    "unary": focus(tr=16, tm=16),
    "tr": focus(tr=30), "tm": focus(tm=30, ins=6),
    "ff": focus(ff=30), "fm": focus(fm=20, ftr=16), "mf": focus(mf=20, mtr=16), "mm": focus(mm=30),
    "joints": focus(ff=6, fm=6, ftr=6, mf=6, mtr=6, mm=6),
    "persist": lambda r, c, l: gen.mixed(r, c, l, w=dict(clone=10, drop=9, obs=16, keep=10, reref=6, tr=8, ff=8, census=0)),
    "eq": lambda r, c, l: gen.mixed(r, c, l, w=dict(clone=8, drop=4, eqm=14, obs=0, keep=0, reref=0, census=0, tr=14)),
    "inst": lambda r, c, l: gen.mixed(r, c, l, flags="inst", w=dict(ff=10, find=8, visit=4, tr=12, census=0, eqm=0, obs=0, keep=0, reref=0)),
    "census": lambda r, c, l: gen.mixed(r, c, l, w=dict(census=20, drop=10, clone=8, obs=0, eqm=0, keep=2, reref=2)),
    "twin_par": gen.twin_par, "twin_flip": gen.twin_flip, "twin_cst": gen.twin_cst, "twin_set": gen.twin_set, "twin_het": gen.twin_het,
    "ladder": any_ladder,
    "ladder_ins": lambda r, c, l: any_ladder(r, c, l, ("ins",)), "ladder_rem": lambda r, c, l: any_ladder(r, c, l, ("rem",)),
    "ladder_tr": lambda r, c, l: any_ladder(r, c, l, ("tr",)),
    "ladder_ff": lambda r, c, l: any_ladder(r, c, l, ("ff",)), "ladder_fm": lambda r, c, l: any_ladder(r, c, l, ("fm", "ftr")),
    "ladder_mf": lambda r, c, l: any_ladder(r, c, l, ("mf", "mtr")), "ladder_mm": lambda r, c, l: any_ladder(r, c, l, ("mm",)),
    "std": lambda r, c, l: gen.mixed(r, c, l, shape=r.choice(["rand", "seq", "rand", "few"]), nmax=r.choice([12, 40]), flags=r.choice(["", "quiet"])),
    "wide": lambda r, c, l: gen.wide(r, c, l, "plain"),
    **{"wide_" + m: (lambda r, c, l, m=m: gen.wide(r, c, l, m)) for m in ("par", "cst", "set", "het", "inst", "keep", "eq", "census")},
    "wide_fuse": lambda r, c, l: gen.wide(r, c, l, "fuse", lim=40, ops=2),
    "threads": gen.threads, "hammer": gen.hammer, "fuses": gen.fuses,
}


def _bulk(kinds, types=("A", "A", "B", "SA")):
    return lambda n: (lambda r, c, l: gen.bulk(r, c, l, n, kinds, types))


BULK = {"insrem": ("ins", "rem", "find"), "tr": ("tr",), "tm": ("tm",), "all": ("ins", "rem", "tr", "tm", "find")}
for _k in gen.JOINT: BULK[_k] = (_k,)
for _k, _v in BULK.items():
    for _n in (300, 1000, 5000, 70000): PROFILES[f"bulk_{_k}_{_n}"] = _bulk(_v)(_n)


# scenario profiles: (seed, cfg, chunk, chunks) -> program
SCN = {}
for _k in gen.JOINT:
    SCN["scn_" + _k] = lambda s, c, k, K, _k=_k, **o: scen.joint(s, _k, c, k, K, **o)
    if any(t[0][0] == "S" for t in gen.JOINT[_k]): SCN[f"scn_{_k}_s"] = lambda s, c, k, K, _k=_k, **o: scen.joint(s, _k, c, k, K, set_=True, **o)
for _k in gen.UNARY: SCN["scn_" + _k] = lambda s, c, k, K, _k=_k, **o: scen.unary(s, _k, c, k, K, **o)
for _k in gen.JOINT: SCN["scn_c" + _k] = lambda s, c, k, K, _k=_k, **o: scen.corners(s, _k, c, k, K, **o)
for _k in gen.JOINT: SCN["scn_m" + _k] = lambda s, c, k, K, _k=_k, **o: scen.meets(s, _k, c, k, K, **o)
SCN["scn_points"] = lambda s, c, k, K, **o: scen.points(s, c, k, K, **o)


def parse_opts(name):
    """scn_ff:n=5,sample=.1,mode=par -> name, options"""
    name, _, o = name.partition(":")
    opts = {}
    for x in filter(None, o.split(",")):
        a, b = x.split("=")
        opts[a] = int(b) if b.isdigit() else float(b) if b.replace(".", "", 1).isdigit() else b == "yes" if b in ("yes", "no") else b
    return name, opts


def program(seed, prop, job):
    prof, cfg, k, count = job
    if prof.startswith("scn_"):
        name, o = parse_opts(prof)
        return SCN[name](seed, cfg, k, count, **o)
    if prof == "spec": return specgen.program(os.environ["HT_WD"], seed, cfg, k, count)
    f = PROFILES[prof]
    out = []
    for i in range(count):
        rng = random.Random(f"{seed}:{prof}:{cfg}:{k}:{i}" if prof != "x" else 0)
        out.append(f(rng, cfg, f"{prof}{k}.{i}"))
    return "".join(out)


# ---- reference programs: what is violated there as well is not the fault of the dimension under study
def neutral_hashes(n):
    """distinct hashes, at most 4 children in any branch of an 8-way trie"""
    return [(i & 3) | (i >> 2 & 3) << 3 | (i >> 4 & 3) << 6 | (i >> 6 & 3) << 9 | (i >> 8 & 3) << 12 for i in range(n)]


def ref_program(kind, text):
    out = []
    for l in text.splitlines():
        if kind == "seq" and l.startswith("H "): l += " seq"
        elif kind == "hash" and l.startswith("K "): l = "K " + " ".join("%x" % h for h in neutral_hashes(len(l.split()) - 1))
        elif kind == "nofuse" and l.endswith(" -2"): l = l[:-3] + " -1"
        out.append(l)
    return "\n".join(out) + "\n"


REF_CFG = "u16u8"
