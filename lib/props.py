"""Which clauses each property owns, and which jobs look for them."""
import re
from gen import JOINT
from jobs import ALL, NARROW, STD

FAILS = (".panic", ".hang", ".crash")
RES = (".res", ".ptr", ".vis", ".sz", ".prb") + FAILS


def op(*names):
    """the clauses about the outcome (not the calls) of these operations, and about single-key operations on that outcome"""
    return lambda c: any(c == n + ".later" or c == n + s or (c.startswith(n + ".") and c.endswith(s) and ".het" not in c) for n in names for s in RES)


def owns(prop, c):
    """does the violated clause c speak about this property?"""
    return bool(OWN[prop](c))


OWN = {
    "C01": lambda c: c.startswith("find.") and ".het" not in c or c.endswith(".prb"),
    "C02": op("insert"), "C03": op("remove"),
    "C04": lambda c: c.endswith((".sz", ".vis")) or c.startswith("visit."),
    "C05": lambda c: c.startswith("persist.") or c == "ref" or c.startswith("ref."),
    "C06": lambda c: True,
    "C07": op("transform"), "C08": op("transmute"), "C09": op("ff"), "C10": op("fm", "ftr"), "C11": op("mf", "mtr"), "C12": op("mm"),
    "C13": lambda c: c.endswith((".calls", ".red")) and not c.startswith("cmp."),
    "C14": lambda c: c.startswith("cmp.par."), "C15": lambda c: c.startswith("cmp.cst."), "C16": lambda c: c.startswith("cmp.set."),
    "C17": lambda c: c.startswith("eq."),
    "C18": lambda c: c.startswith(("clones.", "inst.")),
    "C19": lambda c: c.startswith("census.") or c.endswith(".crash"),
    "C20": lambda c: True,
    "C21": lambda c: c.startswith(("persist.", "ref", "census.")) or c.endswith((".crash", ".hang", ".panic")),
    "C22": lambda c: c.startswith("cmp.het.") or ".het." in c,
    "C24": lambda c: c.startswith("cmp.flip."),
    "C25": lambda c: c.endswith(FAILS),
}
# the second run of a pair failed where the first did not: also a difference
TWIN = {
    "C14": lambda e: e.get("par") == 1, "C24": lambda e: e.get("fl") == 1, "C15": lambda e: max(e.get("cb", -1), e.get("cl", -1), e.get("cr", -1)) >= 0,
    "C16": lambda e: e.get("set") == 1 or e.get("s", 0) >= 12, "C22": lambda e: e.get("het") == 1,
}
REF = {"C06": "hash", "C20": "seq", "C21": "nofuse"}


def spread(profile, cfgs, total, count):
    """`total` histories of the profile, spread over the configurations, `count` per job"""
    per = max(1, total // len(cfgs))
    out = []
    for c in cfgs:
        k, left = 0, per
        while left > 0:
            out.append((profile, c, k, min(count, left))); k += 1; left -= count
    return out


# property -> list of (profile, number of histories in the quick tier; for scenario profiles: number of chunks)
QUICK = {
    "C01": [("mixed", 270), ("insrem", 300), ("joints", 180), ("ladder", 36), ("scn_points:what=irf", 32)],
    "C02": [("insrem", 600), ("chains", 180), ("deep", 180), ("ladder_ins", 45), ("scn_points:what=i", 32)],
    "C03": [("insrem", 600), ("chains", 180), ("deep", 180), ("ladder_rem", 36), ("scn_points:what=r", 32)],
    "C04": [("mixed", 270), ("sets", 180), ("joints", 180), ("unary", 180), ("ladder", 36), ("scn_points", 32), ("scn_tr", 32), ("scn_tm", 16)]
           + [(f"scn_{k}:sample=.2", 16) for k in JOINT],
    "C05": [("persist", 720), ("mixed", 180), ("scn_points:what=irf,mode=keep", 32)] + [(f"scn_{k}:sample=.1", 16) for k in JOINT],
    "C06": [("mixed", 270), ("std", 150), ("chains", 180), ("deep", 180), ("sets", 90), ("ladder", 54), ("scn_points", 32)] + [(f"scn_{k}:sample=.1", 16) for k in JOINT],
    "C07": [("tr", 720), ("ladder_tr", 27), ("scn_tr", 32)],
    "C08": [("tm", 720), ("ladder_tr", 27), ("scn_tm", 32)],
    "C09": [("ff", 720), ("ladder_ff", 27), ("scn_ff", 48), ("scn_ff_s:sample=.3", 16)],
    "C10": [("fm", 720), ("ladder_fm", 27), ("scn_fm", 40), ("scn_ftr", 40), ("scn_fm_s:sample=.3", 16)],
    "C11": [("mf", 720), ("ladder_mf", 27), ("scn_mf", 40), ("scn_mtr", 40), ("scn_mf_s:sample=.3", 16)],
    "C12": [("mm", 720), ("ladder_mm", 27), ("scn_mm", 40), ("scn_mm_s:sample=.5", 16)],
    "C13": [("joints", 450), ("unary", 270), ("ladder", 27), ("sets", 90), ("scn_tr", 16), ("scn_tm", 16)] + [(f"scn_{k}:sample=.2", 16) for k in JOINT],
    "C14": [("twin_par", 720), ("scn_tr:mode=par", 16)] + [(f"scn_{k}:mode=par,sample=.15", 16) for k in JOINT if k != "mm"] + [("scn_ff_s:mode=par,sample=.1", 16)],
    "C15": [("twin_cst", 900), ("scn_tr:mode=cst", 16), ("scn_tm:mode=cst", 16)] + [(f"scn_{k}:mode=cst,sample=.15", 16) for k in JOINT] + [("scn_ff_s:mode=cst,sample=.1", 16)],
    "C16": [("twin_set", 720), ("scn_tr:mode=set", 16), ("scn_tm:mode=set", 16), ("scn_points:mode=set,what=irf", 16)] + [(f"scn_{k}:mode=set,sample=.2", 16) for k in ("ff", "fm", "mf", "mm")],
    "C17": [("eq", 720), ("persist", 90), ("scn_tr", 16)],
    "C18": [("inst", 720), ("scn_points:flags=inst,what=irf", 16), ("scn_tr:flags=inst", 16)] + [(f"scn_{k}:flags=inst,sample=.1", 16) for k in JOINT],
    "C19": [("census", 540), ("mixed", 90), ("ladder", 18), ("scn_points:census=yes", 16), ("scn_tr:census=yes", 16), ("scn_tm:census=yes", 16)] + [(f"scn_{k}:census=yes,sample=.1", 16) for k in JOINT],
    "C20": [("threads", 180), ("hammer", 180)],
    "C21": [("fuses", 720), ("scn_points:mode=fuse,census=yes,sample=.1", 16), ("scn_tr:mode=fuse,census=yes,sample=.2", 16), ("scn_tm:mode=fuse,census=yes,sample=.2", 16)] + [(f"scn_{k}:mode=fuse,census=yes,sample=.01", 16) for k in JOINT],
    "C22": [("twin_het", 720), ("mixed", 90), ("scn_points:mode=het,what=irf", 32)],
    "C24": [("twin_flip", 720), ("scn_ff:mode=flip,sample=.15", 16), ("scn_ff_s:mode=flip,sample=.15", 16), ("scn_mff:mode=flip", 9)],
    "C25": [("mixed", 270), ("joints", 180), ("chains", 90), ("deep", 90), ("ladder", 54), ("scn_points", 16), ("scn_tr", 16), ("scn_tm", 16)] + [(f"scn_{k}:sample=.15", 16) for k in JOINT],
}
# every pair of key sets at the top, the ends and the bottom of the hash
for _p, _l in {"C25": [(k, 18) for k in JOINT], "C09": [("ff", 18)], "C10": [("fm", 18), ("ftr", 18)], "C11": [("mf", 18), ("mtr", 18)], "C12": [("mm", 18)],
               "C04": [(k, 9) for k in JOINT], "C06": [(k, 9) for k in JOINT], "C13": [(k, 27) for k in JOINT]}.items():
    QUICK[_p] = QUICK[_p] + [(f"scn_c{k}" + {9: ":sample=.4", 27: ":answers=2", 18: ""}[c], c) for k, c in _l]
# chains against chains: (options, number of chunks) per kind
for _p, _l in {"C04": ("", 9), "C06": ("", 9), "C13": ("", 18), "C14": (":mode=par", 9), "C15": (":mode=cst", 18), "C16": (":mode=set", 18), "C18": (":flags=inst", 9),
               "C19": (":census=yes,hists=3", 9), "C21": (":mode=fuse,census=yes,hists=1,reps=10", 9), "C25": ("", 18)}.items():
    QUICK[_p] = QUICK[_p] + [("scn_m" + k + _l[0], _l[1]) for k in JOINT if not (_p == "C14" and k == "mm" or _p == "C16" and k in ("ftr", "mtr"))]
for _p, _l in {"C09": ("ff",), "C10": ("fm", "ftr"), "C11": ("mf", "mtr"), "C12": ("mm",)}.items():
    QUICK[_p] = QUICK[_p] + [("scn_m" + k, 36) for k in _l]
# wide branches and maps of a hundred entries, in every mode
for _p, _l in {"C01": ["wide"], "C02": ["wide"], "C03": ["wide"], "C04": ["wide"], "C05": ["wide_keep"], "C06": ["wide"], "C07": ["wide"], "C08": ["wide"], "C09": ["wide"], "C10": ["wide"],
               "C11": ["wide"], "C12": ["wide"], "C13": ["wide"], "C14": ["wide_par"], "C15": ["wide_cst"], "C16": ["wide_set"], "C17": ["wide_eq"], "C18": ["wide_inst"],
               "C19": ["wide_census"], "C21": ["wide_fuse"], "C22": ["wide_het"], "C25": ["wide", "wide_par"]}.items():
    QUICK[_p] = QUICK[_p] + [(x, {"C14": 1080, "C15": 1440, "C18": 1440, "C22": 720, "C21": 360}.get(_p, 720)) for x in _l]
# maps of many entries: profile -> histories in the quick tier
BULK = {'C01': ['bulk_insrem_300'],
        'C02': ['bulk_insrem_300', 'bulk_insrem_5000'],
        'C03': ['bulk_insrem_300', 'bulk_insrem_5000'],
        'C04': ['bulk_all_300', 'bulk_all_5000', 'bulk_all_70000', 'bulk_ff_300', 'bulk_fm_1000'],
        'C06': ['bulk_all_300', 'bulk_all_5000'],
        'C07': ['bulk_tr_300', 'bulk_tr_5000'],
        'C08': ['bulk_tm_300', 'bulk_tm_5000'],
        'C09': ['bulk_ff_300', 'bulk_ff_1000', 'bulk_ff_5000'],
        'C10': ['bulk_fm_300', 'bulk_ftr_300', 'bulk_fm_5000'],
        'C11': ['bulk_mf_300', 'bulk_mtr_300', 'bulk_mf_5000'],
        'C12': ['bulk_mm_300', 'bulk_mm_1000', 'bulk_mm_5000'],
        'C13': ['bulk_tr_300', 'bulk_ff_300', 'bulk_mm_300', 'bulk_mf_300'],
        'C25': ['bulk_all_70000', 'bulk_ff_5000', 'bulk_mm_5000', 'bulk_mf_5000']}
for _p, _l in BULK.items():
    QUICK[_p] = QUICK[_p] + [(x, {"300": 36, "1000": 9, "5000": 9, "70000": 2}[x.rsplit("_", 1)[1]]) for x in _l]
# histories chosen by the specification (HashTrieMapSim)
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17", "C25"): QUICK[_p] = QUICK[_p] + [("spec", 360)]
COUNT = {"ladder": 3, "wide": 5, "fuses": 10, "threads": 10, "hammer": 5, "bulk": 1}


def jobs(prop, tier, rnd=0):
    """round 0 is the quick tier; every further round moves the scenario chunks to other configurations"""
    out = []
    for prof, total in QUICK[prop]:
        if prof.startswith("scn_"):
            out += [(prof, ALL[(k + len(out) + rnd) % len(ALL)], k, total) for k in range(total)]
            continue
        cfgs = STD if prof == "std" else ALL
        if total < len(cfgs): cfgs = (["szsz", "u64u32", "u32u16", "u128u8"] * 2)[rnd % 4:][:total]
        out += spread(prof, cfgs, total, COUNT.get(prof.split("_")[0], 50))
    return out
