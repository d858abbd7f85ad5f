"""Generates history programs for the harness.  No oracle here: the generator only tracks which ids are
probably present in a register, to choose interesting operations."""
import random

CFG = {  # name: (hash bits, log2 of branch width)
    "u8u8": (8, 3), "u16u8": (16, 3), "u32u16": (32, 4), "u64u32": (64, 5), "u128u64": (128, 6),
    "u64u128": (64, 7), "szsz": (64, 6), "u8u16": (8, 4), "u128u8": (128, 3)}
STD = {"fnv8": (8, 3), "fnv16": (16, 4), "sip32": (32, 4), "fnv64": (64, 5), "sip64": (64, 6)}  # ordinary hashers of the carried number
HAND = list(CFG)
CFG.update(STD)
A, B, C, SA, SB = range(0, 6), range(6, 9), range(9, 12), range(12, 17), range(17, 20)
TYPES = {"A": A, "B": B, "C": C, "SA": SA, "SB": SB}
def rtype(r): return next(t for t, rg in TYPES.items() if r in rg)
JOINT = {"ff": [("A", "A", "A"), ("SA", "SA", "SA")], "fm": [("A", "B", "A"), ("SA", "SB", "SA")], "ftr": [("A", "C", "A")],
         "mf": [("A", "B", "B"), ("SA", "SB", "SB")], "mtr": [("A", "C", "C")], "mm": [("A", "B", "C"), ("SA", "SB", "SA")]}
UNARY = {"tr": [("A", "A"), ("B", "B"), ("C", "C"), ("SA", "SA"), ("SB", "SB")], "tm": [("A", "B"), ("B", "A"), ("B", "C"), ("SA", "SB"), ("SB", "SA")]}
ROLES = {"ff": "jff", "fm": "ffm", "ftr": "fft", "mf": "fmf", "mtr": "ftf", "mm": "mmm"}
CODES = {"j": [0, 1, 2, 3, 4], "f": [0, 1, 2], "m": [0, 2], "t": [0, 2]}
SCODES = {"j": [0, 1, 2, 4], "f": [0, 2], "m": [0, 2], "t": [0, 2]}
CONST = {"j": [0, 1, 2, 4], "f": [0, 2], "m": [2], "t": [2]}


def hashes(rng, cfg, n, shape=None):
    bits, lb = CFG[cfg]
    levels = -(-bits // lb)
    mask = (1 << bits) - 1
    shape = shape or rng.choice(["path", "path", "path", "path", "few", "few", "all", "rand", "seq", "high", "deep", "dup", "edge"])
    if shape == "all":
        return [rng.getrandbits(bits)] * n
    if shape == "few":
        hs = [x & mask for x in hashes(rng, cfg, rng.randint(2, 3), "path")]
        return [rng.choice(hs) for _ in range(n)]
    if shape == "rand":
        return [rng.getrandbits(bits) for _ in range(n)]
    if shape == "seq":
        return [i & mask for i in range(n)]
    if shape == "high":
        return [(rng.getrandbits(4) << (bits - 4)) & mask for _ in range(n)]
    if shape == "edge":     # the ends of the range, single bits and their complements, words of one repeated slot
        slot = lambda x: sum(x << (l * lb) for l in range(levels)) & mask
        e = [0, mask, 1, mask ^ 1, 1 << (bits - 1), mask >> 1] + [slot(rng.choice([0, 1, (1 << lb) - 1, (1 << lb) // 2])) for _ in range(2)]
        b = [1 << rng.randrange(bits), 1 << rng.randrange(bits)]
        e = rng.sample(e, rng.randint(2, 5)) + b + [mask ^ b[0]]
        return [rng.choice(e) for _ in range(n)]
    # path: a tree of slots, splitting only at a few levels
    last = levels - 1
    if shape == "deep":
        split = {last, max(0, last - 1)}
    else:
        k = rng.randint(1, min(3, levels))
        split = set(rng.sample(range(levels), k))
        if rng.random() < .5: split.add(0)
        if rng.random() < .35: split.add(last)
    width = {l: (1 << min(lb, bits - l * lb)) for l in range(levels)}
    slots = {l: (rng.sample(range(width[l]), min(width[l], rng.randint(2, 4))) if l in split else [rng.randrange(width[l])]) for l in range(levels)}
    out = []
    for _ in range(n):
        if out and rng.random() < (.5 if shape == "dup" else .25):
            out.append(rng.choice(out)); continue
        h = 0
        for l in range(levels): h |= rng.choice(slots[l]) << (l * lb)
        out.append(h & mask)
    return out


class Hist:
    def __init__(self, rng, cfg, label, n, hs, flags=""):
        self.rng, self.cfg, self.n, self.hs = rng, cfg, n, hs
        self.out = [f"H {label} {flags}".strip(), "K " + " ".join("%x" % h for h in hs)]
        self.regs = {}      # register -> set of ids (approximate)
        self.ctr = 1000
        self.thread = None
    def text(self): return "\n".join(self.out) + "\n"
    def e(self, s): self.out.append(s if self.thread is None else f"t {self.thread} {s}")
    def num(self, k=1):
        self.ctr += k
        return self.ctr - k
    def live(self, t): return [r for r in TYPES[t] if r in self.regs]
    # ---- operations
    def new(self, d): self.e(f"new {d}"); self.regs[d] = set()
    def clone(self, s, d):
        if s != d and s in self.regs: self.e(f"clone {s} {d}"); self.regs[d] = set(self.regs[s])
    def drop(self, s): self.e(f"drop {s}"); self.regs.pop(s, None)
    def ins(self, s, d, i, rep, het=0, fuse=-1, tv=None):
        tag, val = tv or (self.num(), self.num())
        self.e(f"ins {s} {d} {i} {tag} {val} {int(rep)} {het} {fuse}")
        if s in self.regs and (rep or i not in self.regs[s]): self.regs[d] = self.regs[s] | {i}
    def rem(self, s, d, i, het=0, fuse=-1):
        self.e(f"rem {s} {d} {i} {het} {fuse}")
        if i in self.regs.get(s, ()): self.regs[d] = self.regs[s] - {i}
    def find(self, s, i, het=0, fuse=-1): self.e(f"find {s} {i} {het} {fuse}")
    def dig(self, t): return "".join(map(str, t)) or "-"
    def un(self, kind, s, d, par, cst, tab, base=None, fuse=-1):
        base = self.num(self.n) if base is None else base
        self.e(f"{kind} {s} {d} {par} {cst} {self.dig(tab)} {base} {fuse}")
        if s in self.regs: self.regs[d] = {i for i in self.regs[s] if (cst if cst >= 0 else tab[i]) < 2}
    def joint(self, kind, s, r, d, par, cs, tabs, base=None, fuse=-1, fl=None):
        base = self.num(3 * self.n) if base is None else base
        if kind == "ff": par |= 2 * ((base * 2654435761 >> 9) & 1 if fl is None else fl)   # a flipped operator for both sides
        self.e(f"{kind} {s} {r} {d} {par} {cs[0]} {cs[1]} {cs[2]} {self.dig(tabs[0])} {self.dig(tabs[1])} {self.dig(tabs[2])} {base} {fuse}")
        if s in self.regs and r in self.regs:
            a, b = self.regs[s], self.regs[r]
            ro = ROLES[kind]
            lim = {"j": 4, "f": 2, "m": 2, "t": 2}
            keep = lambda p, i: (cs[p] if cs[p] >= 0 else tabs[p][i]) < lim[ro[p]] and not (cs[p] >= 0 and ro[p] in "mt")
            self.regs[d] = {i for i in a & b if keep(0, i)} | {i for i in a - b if keep(1, i)} | {i for i in b - a if keep(2, i)}
    def follow(self, d, to=None, p=.5, het=0, ids=None):
        """now and then a single-key operation on the register just made"""
        if self.rng.random() < p and d in self.regs:
            to = self.rng.choice(to or (d,))
            i = self.rng.choice(ids) if ids else self.pick(d, .6)
            x = self.rng.random()
            if x < .5: self.ins(d, to, i, 1, het)
            elif x < .6: self.ins(d, to, i, 0, het)
            else: self.rem(d, to, i, het)
    def follow2(self, kind, d1, d2, p=.25):
        """the same single-key operation on two results that must agree"""
        if self.rng.random() < p and d1 in self.regs:
            i = self.pick(d1, .6)
            if self.rng.random() < .6:
                tv = (self.num(), self.num()); rep = int(self.rng.random() < .8)
                for d in (d1, d2): self.ins(d, d, i, rep, tv=tv)
            else:
                for d in (d1, d2): self.rem(d, d, i)
            self.e(f"cmp {kind} {d1} {d2}")
    # ---- random answers
    def table(self, role, set_=False):
        rng, codes = self.rng, (SCODES if set_ else CODES)[role]
        m = rng.random()
        if m < .3: c = rng.choice(codes); return [c] * self.n
        if m < .6:
            c, d = rng.choice(codes), rng.choice(codes)
            return [d if rng.random() < .2 else c for _ in range(self.n)]
        return [rng.choice(codes) for _ in range(self.n)]
    def cst(self, role, p=.15): return self.rng.choice(CONST[role]) if self.rng.random() < p else -1
    def pick(self, s, present=.5):
        ids = sorted(self.regs.get(s, ()))
        return self.rng.choice(ids) if ids and self.rng.random() < present else self.rng.randrange(self.n)
    def types(self, kinds, want):
        ok = [t for t in kinds if all(self.live(x) for x in t[:-1]) and (want is None or (t[0][0] == "S") == want)]
        return self.rng.choice(ok) if ok else None


def setup(h, maps=True, sets=True, fill=None, regs=None):
    """populate one register of each type, plus derived variants"""
    rng = h.rng
    todo = regs or ([0, 1, 6, 9] if maps else []) + ([12, 13, 17] if sets else [])
    for r in todo:
        prev = [x for x in h.live(rtype(r))]
        if prev and rng.random() < .5: h.clone(rng.choice(prev), r)
        else: h.new(r)
        ids = list(range(h.n)); rng.shuffle(ids)
        for i in ids[:rng.randint(0, h.n) if fill is None else fill]: h.ins(r, r, i, rng.random() < .3)


W_BASE = dict(new=1, clone=3, drop=2, ins=30, rem=16, find=4, visit=1, tr=6, tm=5, ff=6, fm=4, ftr=3, mf=4, mtr=3, mm=4, obs=5, keep=3, reref=2, eqm=1, census=1)


def step(h, w, names, want=None, het=True, fuse=-1, par=None, cst=.15):
    rng = h.rng
    op = rng.choices(names, [w[x] for x in names])[0]
    ty = lambda: rng.choice([t for t in TYPES if h.live(t)] if want is None else [t for t in TYPES if h.live(t) and (t[0] == "S") == want])
    P = lambda: rng.randrange(2) if par is None else par
    if op == "new":
        t = rng.choice([t for t in TYPES if want is None or (t[0] == "S") == want]); h.new(rng.choice(TYPES[t])); return
    if not h.regs: return
    if op in ("ins", "rem", "find", "clone", "drop", "visit", "obs", "keep"):
        t = ty(); s = rng.choice(h.live(t)); d = s if rng.random() < .6 else rng.choice(TYPES[t])
        ht = int(het and rng.random() < .2)
        if op == "ins": h.ins(s, d, h.pick(s, .35), rng.random() < .5, ht, fuse)
        elif op == "rem": h.rem(s, d, h.pick(s, .75), ht, fuse)
        elif op == "find": h.find(s, h.pick(s), ht, fuse)
        elif op == "clone": h.clone(s, rng.choice(TYPES[t]))
        elif op == "drop":
            if len(h.live(t)) > 1: h.drop(s)
        elif op == "visit": h.e(f"visit {s} {fuse}")
        elif op == "obs": h.e(f"obs {s}")
        elif op == "keep": h.e(f"keep {s} {h.pick(s, .9)}")
    elif op in ("reref", "eqm", "census"): h.e(op)
    elif op in UNARY:
        t = h.types(UNARY[op], want)
        if t:
            role = "f" if op == "tr" else "m"
            h.un(op, rng.choice(h.live(t[0])), rng.choice(TYPES[t[1]]), P(), h.cst(role, cst), h.table(role, t[0][0] == "S"), fuse=fuse)
    else:
        t = h.types(JOINT[op], want)
        if t:
            ro = ROLES[op]
            s, r = rng.choice(h.live(t[0])), rng.choice(h.live(t[1]))
            h.joint(op, s, r, rng.choice(TYPES[t[2]]), P(), [h.cst(x, cst) for x in ro], [h.table(x, t[0][0] == "S") for x in ro], fuse=fuse)


def mixed(rng, cfg, label, w=None, length=60, nmin=4, nmax=12, flags="", shape=None, want=None, het=True, cst=.15, fuse=-1, tail=True):
    n = rng.randint(nmin, nmax)
    if nmax == 12 and shape is None and rng.random() < .08:
        n, shape = rng.randint(17, 44), rng.choice(["all", "few", "few", "rand", "dup", "path"])
    h = Hist(rng, cfg, label, n, hashes(rng, cfg, n, shape), flags)
    w = {**W_BASE, **(w or {})}
    names = [k for k in w if w[k]]
    setup(h, maps=want is not True, sets=want is not False)
    for _ in range(length): step(h, w, names, want, het, fuse, cst=cst)
    if tail:
        for r in sorted(h.regs): h.e(f"obs {r}")
        h.e("eqm"); h.e("census"); h.e("reref")
        rs = sorted(h.regs); rng.shuffle(rs)
        for r in rs:
            h.drop(r)
            if rng.random() < .3: h.e("census")
        h.e("census")
    return h.text()


# ------------------------------------------------------------------ twins
def twin_par(rng, cfg, label, length=14):
    n = rng.randint(4, 14) if rng.random() < .93 else rng.randint(17, 40)
    h = Hist(rng, cfg, label, n, hashes(rng, cfg, n, rng.choice(["all", "few", "few", "rand", "dup"]) if n > 16 else None))
    setup(h)
    pairs = {"A": (4, 5), "B": (7, 8), "C": (10, 11), "SA": (15, 16), "SB": (18, 19)}
    src = {"A": (0, 1, 2), "B": (6,), "C": (9,), "SA": (12, 13), "SB": (17,)}
    for k in range(length):
        op = rng.choice(["tr", "tr", "ff", "ff", "fm", "ftr", "mf", "mtr"])
        t = h.types(UNARY[op] if op == "tr" else JOINT[op], None)
        if not t: continue
        S = lambda x: rng.choice([r for r in h.live(x) if r in src[x]])
        d1, d2 = pairs[t[-1]]
        st = t[0][0] == "S"
        if op == "tr":
            s, c, tab, b = S(t[0]), h.cst("f"), h.table("f", st), h.num(h.n)
            h.un(op, s, d1, 0, c, tab, b); h.un(op, s, d2, 1, c, tab, b)
        else:
            s, r, b = S(t[0]), S(t[1]), h.num(3 * h.n)
            cs, tabs = [h.cst(x) for x in ROLES[op]], [h.table(x, st) for x in ROLES[op]]
            h.joint(op, s, r, d1, 0, cs, tabs, b); h.joint(op, s, r, d2, 1, cs, tabs, b)
        h.e(f"cmp par {d1} {d2}")
        t0 = rng.choice([x for x in TYPES if h.live(x)]); s = rng.choice([r for r in h.live(t0)])
        d = rng.choice(src[t0])
        (h.ins(s, d, h.pick(s, .3), 1) if rng.random() < .6 else h.rem(s, d, h.pick(s, .9)))
    return h.text()


def twin_flip(rng, cfg, label, length=14):
    """a joint operation with an operator and with the flipped form of its mirror image"""
    n = rng.randint(4, 14) if rng.random() < .93 else rng.randint(17, 40)
    h = Hist(rng, cfg, label, n, hashes(rng, cfg, n, rng.choice(["all", "few", "few", "rand", "dup"]) if n > 16 else None))
    setup(h)
    pairs, src = {"A": (4, 5), "SA": (15, 16)}, {"A": (0, 1, 2), "SA": (12, 13)}
    for k in range(length):
        t = rng.choice(["A", "SA"])
        S = lambda: rng.choice([r for r in h.live(t) if r in src[t]])
        s, r, (d1, d2), par = S(), S(), pairs[t], rng.randrange(2)
        cs, tabs = [h.cst(x) for x in "jff"], [h.table(x, t == "SA") for x in "jff"]
        # not the answer that leaves the choice of the side to the library
        cs[0] = cs[0] or rng.choice((1, 2)); tabs[0] = [x or rng.choice((1, 2)) for x in tabs[0]]
        b, f = h.num(3 * h.n), rng.randrange(2)
        h.joint("ff", s, r, d1, par, cs, tabs, b, fl=f); h.joint("ff", s, r, d2, par, cs, tabs, b, fl=1 - f)
        h.e(f"cmp flip {d1} {d2}")
        s = rng.choice(h.live(t)); d = rng.choice(src[t])
        (h.ins(s, d, h.pick(s, .3), 1) if rng.random() < .6 else h.rem(s, d, h.pick(s, .9)))
    return h.text()


def twin_cst(rng, cfg, label, length=14):
    n = rng.randint(4, 12) if rng.random() < .93 else rng.randint(17, 40)
    h = Hist(rng, cfg, label, n, hashes(rng, cfg, n, rng.choice(["all", "few", "few", "rand", "dup"]) if n > 16 else None))
    setup(h)
    pairs = {"A": (4, 5), "B": (7, 8), "C": (10, 11), "SA": (15, 16), "SB": (18, 19)}
    src = {"A": (0, 1, 2), "B": (6,), "C": (9,), "SA": (12, 13), "SB": (17,)}
    for k in range(length):
        op = rng.choice(["tr", "tm", "ff", "ff", "ff", "fm", "ftr", "mf", "mtr", "mm"])
        t = h.types(UNARY[op] if op in UNARY else JOINT[op], None)
        if not t: continue
        S = lambda x: rng.choice([r for r in h.live(x) if r in src[x]])
        d1, d2 = pairs[t[-1]]
        st = t[0][0] == "S"; par = rng.randrange(2)
        if op in UNARY:
            role = "f" if op == "tr" else "m"
            s, c, b = S(t[0]), rng.choice(CONST[role]), h.num(h.n)
            h.un(op, s, d1, par, -1, [c] * n, b); h.un(op, s, d2, par, c, [], b)
        else:
            s, r, b, ro = S(t[0]), S(t[1]), h.num(3 * h.n), ROLES[op]
            which = [rng.random() < .5 for _ in ro]
            if not any(which): which[rng.randrange(3)] = True
            tabs = [h.table(x, st) for x in ro]; cs = [-1, -1, -1]
            for p in range(3):
                if which[p]: cs[p] = rng.choice(CONST[ro[p]]); tabs[p] = [cs[p]] * n
            h.joint(op, s, r, d1, par, [-1, -1, -1], tabs, b); h.joint(op, s, r, d2, par, cs, tabs, b)
        h.e(f"cmp cst {d1} {d2}")
        t0 = rng.choice([x for x in TYPES if h.live(x)]); s = rng.choice(h.live(t0)); d = rng.choice(src[t0])
        (h.ins(s, d, h.pick(s, .3), 1) if rng.random() < .6 else h.rem(s, d, h.pick(s, .9)))
    return h.text()


def twin_set(rng, cfg, label, length=24):
    """every operation on a map register and on the mirrored set register"""
    n = rng.randint(4, 12) if rng.random() < .93 else rng.randint(17, 40)
    h = Hist(rng, cfg, label, n, hashes(rng, cfg, n, rng.choice(["all", "few", "few", "rand", "dup"]) if n > 16 else None))
    mir = {0: 12, 1: 13, 2: 14, 3: 15, 4: 16, 6: 17, 7: 18, 8: 19}
    Am, Bm = [0, 1, 2, 3, 4], [6, 7, 8]
    def both(f, g, d, s=None):
        f(); g(); h.e(f"cmp set {d} {mir[d]}")
    def ins(s, d, i, rep, het=0):
        tv = (h.num(), h.num())
        both(lambda: h.ins(s, d, i, rep, het, tv=tv), lambda: h.ins(mir[s], mir[d], i, rep, het, tv=tv), d)
    def rem(s, d, i, het=0): both(lambda: h.rem(s, d, i, het), lambda: h.rem(mir[s], mir[d], i, het), d)
    for r in (0, 1, 6):
        h.new(r); h.new(mir[r])
        ids = list(range(n)); rng.shuffle(ids)
        for i in ids[:rng.randint(0, n)]: ins(r, r, i, rng.random() < .4)
    for _ in range(length):
        x = rng.random()
        t = rng.choice([Am, Bm]); lv = [r for r in t if r in h.regs]; s, d = rng.choice(lv), rng.choice(t)
        ht = int(rng.random() < .2)
        if x < .3: ins(s, d, h.pick(s, .35), rng.random() < .5, ht)
        elif x < .45: rem(s, d, h.pick(s, .75), ht)
        elif x < .5:
            i = h.pick(s); h.find(s, i, ht); h.find(mir[s], i, ht); h.e(f"cmp set {s} {mir[s]}")
        elif x < .6:
            tab, b, c, p = h.table("f", True), h.num(n), h.cst("f"), rng.randrange(2)
            both(lambda: h.un("tr", s, d, p, c, tab, b), lambda: h.un("tr", mir[s], mir[d], p, c, tab, b), d)
        elif x < .7:
            d = rng.choice(Bm if t is Am else Am); tab, b, c = h.table("m", True), h.num(n), h.cst("m")
            both(lambda: h.un("tm", s, d, 0, c, tab, b), lambda: h.un("tm", mir[s], mir[d], 0, c, tab, b), d)
        else:
            op = rng.choice(["ff", "fm", "mf"])
            s = rng.choice([r for r in Am if r in h.regs]); r = rng.choice([r for r in (Am if op == "ff" else Bm) if r in h.regs])
            d = rng.choice(Bm if op == "mf" else Am)
            ro = ROLES[op]; cs, tabs, b, p = [h.cst(y) for y in ro], [h.table(y, True) for y in ro], h.num(3 * n), rng.randrange(2)
            both(lambda: h.joint(op, s, r, d, p, cs, tabs, b), lambda: h.joint(op, mir[s], mir[r], mir[d], p, cs, tabs, b), d)
    return h.text()


def twin_het(rng, cfg, label, length=40):
    n = rng.randint(4, 12) if rng.random() < .93 else rng.randint(17, 40)
    h = Hist(rng, cfg, label, n, hashes(rng, cfg, n, rng.choice(["all", "few", "few", "rand", "dup"]) if n > 16 else None))
    setup(h, regs=[0, 6, 12, 17], fill=0)
    pair = {0: (4, 5), 6: (7, 8), 12: (15, 16), 17: (18, 19)}
    for _ in range(length):
        s = rng.choice(list(pair)); a, b = pair[s]
        x = rng.random()
        if x < .6:
            i, rep, tv = h.pick(s, .4), rng.random() < .5, (h.num(), h.num())
            h.ins(s, a, i, rep, 0, tv=tv); h.ins(s, b, i, rep, 1, tv=tv)
            grew = rep or i not in h.regs[s]
        elif x < .85:
            i = h.pick(s, .75); h.rem(s, a, i, 0); h.rem(s, b, i, 1); grew = i in h.regs[s]
        else:
            i = h.pick(s); h.find(s, i, 0); h.find(s, i, 1); grew = False
        h.e(f"cmp het {a} {b}")
        if grew: h.clone(rng.choice((a, b)), s)
    return h.text()


# ------------------------------------------------------------------ wide branches
def ladder(rng, cfg, label, kind, level=0, spread=None, base=None):
    """grow one branch through every occupancy up to the word width, then use it and shrink it again.
    spread: None = all in one branch; k = reference layout with at most k children per branch"""
    bits, lb = CFG[cfg]
    W = 1 << min(lb, bits - level * lb)
    order = list(range(W)); rng.shuffle(order)
    base = (rng.getrandbits(bits) if base is None else base) & ((1 << bits) - 1)
    base &= ~(((1 << lb) - 1) << (level * lb))
    hs = [(base | (i << (level * lb))) & ((1 << bits) - 1) for i in range(W)]
    if spread: hs = [((i % spread) | ((i // spread % spread) << lb) | ((i // spread // spread) << (2 * lb))) & ((1 << bits) - 1) for i in range(W)]
    h = Hist(rng, cfg, label, W, hs, "quiet")
    h.new(0)
    cuts = sorted(rng.sample(range(1, W + 1), min(W, 5)) + [W])
    for k, i in enumerate(order, 1):
        h.ins(0, 0, i, 0)
        if kind == "ins" and rng.random() < .15: h.ins(0, 0, rng.choice(order[:k]), 1)
        if kind == "tr" and (k in cuts or rng.random() < .1):
            s = rng.randrange(2)
            h.un("tr", 0, 1, s, -1, h.table("f")); h.un("tm", 0, 6, 0, -1, h.table("m"))
            if k == W: h.un("tr", 0, 2, 1, -1, [1] * W); h.un("tr", 0, 2, 0, -1, [1 if rng.random() < .5 else 0 for _ in range(W)])
    h.e("obs 0")
    if kind == "rem":
        h.clone(0, 1)
        rng.shuffle(order)
        for i in order: h.rem(0, 0, i)
        h.e("obs 0"); h.e("obs 1")
    if kind in JOINT:
        t = JOINT[kind][0]
        for _ in range(4):
            k = rng.randint(0, W); r = {"A": 1, "B": 6, "C": 9}[t[1]]
            h.new(r)
            for i in rng.sample(order, k): h.ins(r, r, i, 0)
            k = rng.randint(0, W)
            h.clone(0, 2)
            for i in rng.sample(order, k): h.rem(2, 2, i)
            for s in rng.sample((0, 2), 2):
                h.joint(kind, s, r, {"A": 3, "B": 7, "C": 10}[t[2]], rng.randrange(2), [h.cst(x) for x in ROLES[kind]], [h.table(x) for x in ROLES[kind]])
                h.joint(kind, s, r, {"A": 3, "B": 7, "C": 10}[t[2]], rng.randrange(2), [-1] * 3, [[rng.choice(CODES[x][:2]) for _ in range(W)] for x in ROLES[kind]])
    return h.text()


def bulk(rng, cfg, label, n=300, kinds=("ins", "rem", "tr", "tm"), types=("A", "A", "B", "SA")):
    """maps of many entries"""
    bits, lb = CFG[cfg]
    sh = rng.choice(["rand", "rand", "seq", "mul"] + (["few", "lowhigh"] if n <= 600 else []))
    mask = (1 << bits) - 1
    if sh == "rand": hs = [rng.getrandbits(bits) for _ in range(n)]
    elif sh == "seq": hs = [i & mask for i in range(n)]
    elif sh == "mul": hs = [(i * 0x9E3779B97F4A7C15F39CC0605CEDC835) & mask for i in range(n)]
    elif sh == "few":
        cl = [rng.getrandbits(bits) for _ in range(rng.randint(1, 8))]; hs = [rng.choice(cl) for _ in range(n)]
    else: hs = [((i & 15) << (bits - 4) | (i >> 4)) & mask for i in range(n)]
    h = Hist(rng, cfg, label, n, hs, "quiet")
    t = rng.choice(types)
    if kinds[0] in JOINT: t = "A"
    s, d = TYPES[t][0], TYPES[t][1]
    def blk(s, d, rem, a, b):
        h.e(f"bulk {s} {d} {int(rem)} {a} {b} {h.num(n)}")
        h.regs[d] = h.regs[s] - set(range(a, b)) if rem else h.regs[s] | set(range(a, b))
    def near(): return rng.choice([rng.randint(0, n), n // 2, max(0, n - 1), min(n, 255), min(n, 256), min(n, 65535)])
    h.new(s)
    a = near()
    blk(s, s, 0, 0, n) if rng.random() < .6 else (blk(s, s, 0, 0, a), blk(s, s, 0, a, n))
    def table(role):
        c = CODES[role] if t[0] != "S" else SCODES[role]
        m = rng.random()
        if m < .3: return [rng.choice(c[:2])] * n
        if m < .6: return [c[-1] if rng.random() < .05 else rng.choice(c[:2]) for _ in range(n)]
        return [rng.choice(c) for _ in range(n)]
    small = n > 6000
    for k in kinds:
        if k == "ins":
            for _ in range(8): h.ins(s, d, rng.randrange(n), rng.random() < .5)
            blk(s, d, 0, rng.randint(0, n), n)
        elif k == "rem":
            for _ in range(8): h.rem(s, d, rng.randrange(n))
            a = near(); blk(s, d, 1, min(a, n - a), max(a, n - a)); blk(s, d, 1, 0, n - rng.randint(0, 3))
        elif k == "find":
            for _ in range(12): h.find(s, rng.randrange(n))
        elif k == "tr":
            for _ in range(1 if small else 2): h.un("tr", s, d, rng.randrange(2), -1, table("f"))
        elif k == "tm":
            u = rng.choice([x for x in UNARY["tm"] if x[0] == t] or [None])
            if u: h.un("tm", s, TYPES[u[1]][2], 0, -1, table("m"))
        else:
            ty = JOINT[k][0]; L, R = TYPES[ty[0]][0], {"A": 1, "B": 6, "C": 9}[ty[1]]
            h.new(R); a, b = sorted((near(), near()))
            if n > 1000: b = min(b, a + 40)
            blk(R, R, 0, a, b)
            L, R_ = (L, R)
            h.joint(k, L, R_, {"A": 2, "B": 7, "C": 10}[ty[2]], rng.randrange(2), [h.cst(x, .1) for x in ROLES[k]], [table(x) for x in ROLES[k]])
            if ty[0] == ty[1]: h.joint(k, R_, L, 2, rng.randrange(2), [h.cst(x, .1) for x in ROLES[k]], [table(x) for x in ROLES[k]])
    h.e(f"obs {s}")
    h.e("census")
    return h.text()


# ------------------------------------------------------------------ threads
def threads(rng, cfg, label, nt=4, length=60, seq=False):
    hs = hashes(rng, cfg, rng.randint(4, 12)) if rng.random() < .8 else wide_hashes(rng, cfg, 80)
    n = len(hs)
    h = Hist(rng, cfg, label, n, hs, "seq" if seq else "")
    setup(h)
    for r in sorted(h.regs): h.e(f"obs {r}")
    w = {**W_BASE, "keep": 0, "reref": 0, "census": 0, "clone": 12, "drop": 10, "eqm": 0, "new": 1}
    names = [k for k in w if w[k]]
    for _ in range(2):
        h.e("fork")
        base = {r: set(v) for r, v in h.regs.items()}
        for t in range(nt):
            h.thread = t; h.regs = {r: set(v) for r, v in base.items()}
            for _ in range(length): step(h, w, names)
        h.thread = None; h.regs = base
        h.e("join")
        for r in sorted(h.regs): h.e(f"obs {r}")
        h.e("census")
        step(h, W_BASE, ["ins", "rem", "ff", "tr"])
    for r in sorted(h.regs): h.drop(r)
    h.e("census")
    return h.text()


def hammer(rng, cfg, label, nt=4, reps=400):
    """threads that repeat the same short programs on the same handles as fast as they can; repetitions that record
    nothing new are not recorded"""
    hs = hashes(rng, cfg, rng.randint(4, 16), rng.choice([None, "rand", "seq", "path"])) if rng.random() < .8 else wide_hashes(rng, cfg, 80)
    n = len(hs)
    h = Hist(rng, cfg, label, n, hs)
    setup(h)
    for r in sorted(h.regs): h.e(f"obs {r}")
    w = {**W_BASE, "keep": 0, "reref": 0, "census": 0, "clone": 8, "drop": 6, "eqm": 0, "new": 0, "find": 20, "visit": 2, "obs": 0}
    names = [k for k in w if w[k]]
    mode = rng.choice([0, 1, 1, 2])
    h.e(f"fork {mode}")
    base = {r: set(v) for r, v in h.regs.items()}
    shared = sorted(base)
    one = rng.choice(shared)
    for t in range(nt):
        h.thread = t; h.regs = {r: set(v) for r, v in base.items()}
        # lookups only
        h.e(f"loop {reps * 4}")
        for i in rng.sample(range(n), min(n, 6)): h.find(one if rng.random() < .7 else rng.choice(shared), i, int(rng.random() < .2))
        h.e("end")
        # derivations into registers given up at the end of every round
        h.e(f"loop {reps}")
        free = [r for r in range(20) if r not in base]
        for _ in range(rng.randint(2, 6)):
            s = one if rng.random() < .5 else rng.choice([r for r in shared if r in h.regs])
            t_ = rtype(s); d = rng.choice([r for r in free if r in TYPES[t_]])
            x = rng.random()
            if x < .2: h.clone(s, d)
            elif x < .45: h.ins(s, d, h.pick(s, .4), rng.random() < .7)
            elif x < .65: h.rem(s, d, h.pick(s, .9))
            elif x < .8: h.un("tr", s, d, rng.randrange(2), h.cst("f"), h.table("f", t_[0] == "S"))
            else:
                op = rng.choice(["ff", "fm", "mf", "mm", "ftr", "mtr"])
                ty = [x for x in JOINT[op] if any(r in base for r in TYPES[x[0]]) and any(r in base for r in TYPES[x[1]])]
                if ty:
                    x = rng.choice(ty)
                    h.joint(op, rng.choice([r for r in base if r in TYPES[x[0]]]), rng.choice([r for r in base if r in TYPES[x[1]]]), rng.choice([r for r in free if r in TYPES[x[2]]]),
                            rng.randrange(2), [h.cst(y) for y in ROLES[op]], [h.table(y, x[0][0] == "S") for y in ROLES[op]])
            live = [r for r in h.regs if r not in base]
            if live and rng.random() < .6: r = rng.choice(live); h.find(r, h.pick(r, .7))
        for r in sorted(h.regs):
            if r not in base: h.drop(r)
        h.e("end")
        # give the handles up, all threads at about the same time
        for r in shared: h.drop(r)
    h.thread = None; h.regs = base if mode < 2 else {}
    h.e("join")
    if mode < 2:
        for r in sorted(h.regs): h.e(f"obs {r}")
        h.e("census")
        for r in sorted(h.regs): h.drop(r)
    h.e("census")
    return h.text()


# ------------------------------------------------------------------ injected panics
def fuses(rng, cfg, label, length=10):
    n = rng.randint(3, 7)
    h = Hist(rng, cfg, label, n, hashes(rng, cfg, n, rng.choice([None, "few", "path", "all"])))
    setup(h, regs=rng.choice([[0, 1, 6], [0, 6, 9], [12, 13, 17], [0, 1, 9]]))
    w = {**W_BASE, "clone": 0, "drop": 0, "keep": 1, "reref": 1, "obs": 0, "eqm": 0, "ins": 14, "rem": 8, "new": 0, "visit": 1, "census": 0}
    names = [k for k in w if w[k]]
    for r in sorted(h.regs): h.e(f"keep {r} {h.pick(r, .9)}")
    for _ in range(length):
        step(h, w, names, fuse=-2)
        if rng.random() < .4: h.e("census"); h.e("reref")
    for r in sorted(h.regs): h.e(f"obs {r}")
    h.e("census")
    for r in sorted(h.regs): h.drop(r)
    h.e("census")
    return h.text()


# ------------------------------------------------------------------ wide branches and larger maps, in every mode
def wide_hashes(rng, cfg, lim):
    """one branch with many children, some of which are chains or branches of their own; or a larger map"""
    bits, lb = CFG[cfg]
    levels = -(-bits // lb)
    mask = (1 << bits) - 1
    x = rng.random()
    if x < .15: return [rng.getrandbits(bits) for _ in range(rng.randint(lim // 3, lim))]
    if x < .2: return [i & mask for i in range(rng.randint(lim // 3, lim))]
    if x < .3:  # few chains, long
        cl = [rng.getrandbits(bits) for _ in range(rng.randint(1, 5))]
        return [rng.choice(cl) for _ in range(rng.randint(lim // 4, lim // 2))]
    l = rng.choice([0, 0, levels - 1, rng.randrange(levels)])
    W = 1 << min(lb, bits - l * lb)
    m = min(W, lim)
    k = rng.choice([m, m, m - 1, m // 2, m // 2 + 1, rng.randint(1, m)])
    slots = rng.sample(range(W), max(1, k))
    if rng.random() < .3: slots = [s for s in range(W) if s not in set(slots)] or slots
    if rng.random() < .3:   # one half of the branch nearly empty
        part = rng.sample([s for s in range(W) if (s < W // 2)], min(W // 2, rng.randint(0, 3)))
        slots = part + [s for s in range(W // 2, W)] if rng.random() < .5 else [W - 1 - s for s in part] + list(range(W // 2))
        slots = slots[:lim]
    twins = rng.random() < .3   # two keys for every slot
    base = rng.getrandbits(bits) & ~(((1 << lb) - 1) << (l * lb)) & mask
    hs = []
    for s in slots:
        h = (base | s << (l * lb)) & mask
        hs.append(h)
        if len(hs) < lim and (twins or rng.random() < .25):
            for _ in range(1 if twins else rng.choice([1, 1, 2, 3])):
                l2 = rng.randrange(l, levels) if twins else rng.randrange(levels)
                hs.append(h if l2 <= l or rng.random() < .5 else h ^ (rng.randrange(1, 1 << min(lb, bits - l2 * lb)) << (l2 * lb)))
    return hs[:lim]


def wide_table(h, role, set_, lb):
    """answers that treat parts of a branch alike"""
    rng, codes = h.rng, (SCODES if set_ else CODES)[role]
    c, d = rng.choice(codes), rng.choice(codes)
    x = rng.random()
    n = h.n
    if x < .15: return [c] * n
    if x < .3: k = rng.randrange(n); return [d if i == k else c for i in range(n)]
    if x < .55:   # by the position in the branch, at some level
        l = rng.randrange(3); cut = rng.choice([1 << (lb - 1), rng.randrange(1 << lb)])
        return [c if (q >> (l * lb)) & ((1 << lb) - 1) < cut else d for q in h.hs]
    if x < .75: return [d if rng.random() < .1 else c for _ in range(n)]
    return [rng.choice(codes) for _ in range(n)]


def wide(rng, cfg, label, mode, lim=140, ops=10):
    lb = CFG[cfg][1]
    hs = wide_hashes(rng, cfg, lim)
    n = len(hs)
    h = Hist(rng, cfg, label, n, hs, "inst" if mode == "inst" else "")
    T = lambda role, set_: wide_table(h, role, set_, lb)
    mirrored, slotwise = mode == "set", rng.random() < (.4 if mode == "cst" else .15)
    def fill(r, a, b, rem=False):
        base = h.num(n)
        for x in [r] + ([MIRROR[r]] if mirrored else []): h.e(f"bulk {x} {x} {int(rem)} {a} {b} {base}")
        h.regs[r] = h.regs[r] - set(range(a, b)) if rem else h.regs[r] | set(range(a, b))
    def make(r, p=None):
        h.new(r)
        if mirrored: h.new(MIRROR[r])
        x = rng.random() if p is None or slotwise else p
        if x < (.15 if slotwise else .45): fill(r, 0, n)
        elif x < (.9 if slotwise else .6) and n > 1:   # one entry in every slot of some level
            fill(r, 0, n)
            l, g = 0 if slotwise else rng.choice([0, 0, rng.randrange(3)]), {}
            for i in range(n): g.setdefault(hs[i] & ((1 << (l + 1) * lb) - 1), []).append(i)
            keep = {rng.choice(v) for v in g.values()}
            for y in [r] + ([MIRROR[r]] if mirrored else []): h.un("tr", y, y, rng.randrange(2), -1, [0 if i in keep else 2 for i in range(n)])
            return
        else:
            a, b = sorted((rng.randint(0, n), rng.randint(0, n))); fill(r, a, b)
            if rng.random() < .4 and a < b: c = rng.randint(a, b); fill(r, a, c, True)
        if not mirrored and n > 1 and rng.random() < .3:  # scattered removals
            tab = [2 if rng.random() < .3 else 0 for _ in range(n)]; h.un("tr", r, r, rng.randrange(2), -1, tab)
    want = {"set": [0, 1, 6], "het": [0, 6, 12, 17], "inst": rng.choice([[0, 1, 6], [0, 1, 9], [0, 6, 9], [12, 13, 17]]), "fuse": rng.choice([[0, 1, 6], [0, 6, 9], [12, 13, 17], [0, 1, 9]])}.get(mode, [0, 1, 6, 9, 12, 13, 17])
    for k, r in enumerate(want): make(r, 0 if k == 0 else None)
    if rng.random() < .12:   # an empty operand
        r = rng.choice(want); h.new(r)
        if mirrored: h.new(MIRROR[r])
    SRC = {"A": (0, 1, 2), "B": (6,), "C": (9,), "SA": (12, 13), "SB": (17,)}
    PAIRS = {"A": (4, 5), "B": (7, 8), "C": (10, 11), "SA": (15, 16), "SB": (18, 19)}
    def src(t): return rng.choice([r for r in h.live(t) if r in SRC[t]])
    kinds = {"par": ["tr", "tr", "ff", "ff", "fm", "ftr", "mf", "mtr"], "cst": ["tr", "tm", "ff", "ff", "ff", "fm", "ftr", "mf", "mtr", "mm"],
             "set": ["ins", "rem", "find", "tr", "tm", "ff", "fm", "mf"], "het": ["ins", "rem", "find"], "inst": ["ins", "ins", "rem", "tr", "tr", "ff", "ff", "fm", "ftr", "mf", "mtr", "mm"],
             "fuse": ["ins", "rem", "tr", "tm", "ff", "fm", "ftr", "mf", "mtr", "mm"]}.get(mode, ["ins", "ins", "rem", "rem", "tr", "tr", "tm", "ff", "fm", "ftr", "mf", "mtr", "mm"])
    if mode in ("keep", "fuse"):
        for r in sorted(h.regs):
            for _ in range(2): h.e(f"keep {r} {h.pick(r, .95)}")
    fz = -2 if mode == "fuse" else -1
    for _ in range(ops):
        op = rng.choice(kinds)
        if op in ("ins", "rem", "find"):
            t = rng.choice([x for x in (("A", "B") if mirrored else TYPES) if any(r in SRC[x] for r in h.live(x)) and (mode != "het" or x != "C")])
            s = rng.choice([r for r in h.live(t) if r in SRC[t]]); i = h.pick(s, .6); rep = rng.random() < .6; tv = (h.num(), h.num())
            if mode == "het":
                d1, d2 = PAIRS[t]
                for d, ht in ((d1, 0), (d2, 1)):
                    if op == "ins": h.ins(s, d, i, rep, ht, tv=tv)
                    elif op == "rem": h.rem(s, d, i, ht)
                    else: h.find(s, i, ht)
                h.e(f"cmp het {d1} {d2}")
            elif mirrored:
                d = rng.choice([x for x in DESTM[t] if x in MIRROR])
                for a, b in ((s, d), (MIRROR[s], MIRROR[d])):
                    if op == "ins": h.ins(a, b, i, rep, tv=tv)
                    elif op == "rem": h.rem(a, b, i)
                    else: h.find(a, i)
                h.e(f"cmp set {s if op == 'find' else d} {MIRROR[s if op == 'find' else d]}")
            else:
                d = s if mode == "census" and rng.random() < .5 else rng.choice(PAIRS[t])
                if op == "ins": h.ins(s, d, i, rep, fuse=fz)
                elif op == "rem": h.rem(s, d, i, fuse=fz)
                else: h.find(s, i, fuse=fz)
        elif op in UNARY:
            c = [x for x in UNARY[op] if h.live(x[0]) and any(r in SRC[x[0]] for r in h.live(x[0])) and not (mirrored and x not in (("A", "A"), ("B", "B"), ("A", "B"), ("B", "A")))]
            if not c: continue
            t = rng.choice(c); st = t[0][0] == "S" or mirrored; role = "f" if op == "tr" else "m"
            s, tab, b, p = src(t[0]), T(role, st), h.num(n), rng.randrange(2)
            d1, d2 = PAIRS[t[1]]
            if mode == "par": h.un(op, s, d1, 0, -1, tab, b); h.un(op, s, d2, 1, -1, tab, b); h.e(f"cmp par {d1} {d2}")
            elif mode == "cst":
                k = rng.choice(CONST[role]); h.un(op, s, d1, p, -1, [k] * n, b); h.un(op, s, d2, p, k, [], b); h.e(f"cmp cst {d1} {d2}")
            elif mirrored:
                d = rng.choice([x for x in DESTM[t[1]] if x in MIRROR])
                h.un(op, s, d, p, -1, tab, b); h.un(op, MIRROR[s], MIRROR[d], p, -1, tab, b); h.e(f"cmp set {d} {MIRROR[d]}")
            else: h.un(op, s, rng.choice((d1, d2)), p, -1, tab, b, fuse=fz)
        else:
            c = [x for x in JOINT[op] if all(any(r in SRC[y] for r in h.live(y)) for y in x[:2]) and not (mirrored and x[0][0] == "S")]
            if not c: continue
            t = rng.choice(c); st = t[0][0] == "S" or mirrored; ro = ROLES[op]
            s, r, b, p = src(t[0]), src(t[1]), h.num(3 * n), rng.randrange(2)
            tabs = [T(x, st) for x in ro]; cs = [-1] * 3
            d1, d2 = PAIRS[t[2]]
            if mode == "par":
                if rng.random() < .2: cs = [h.cst(x, .4) for x in ro]
                h.joint(op, s, r, d1, 0, cs, tabs, b); h.joint(op, s, r, d2, 1, cs, tabs, b); h.e(f"cmp par {d1} {d2}")
            elif mode == "cst":
                w = rng.choice([7, 7, 7, rng.randrange(1, 8), rng.randrange(1, 8)])
                for q in range(3):
                    if w >> q & 1: cs[q] = rng.choice(CONST[ro[q]]); tabs[q] = [cs[q]] * n
                if op == "ff" and rng.random() < .5:   # union, intersection, differences
                    cs = rng.choice([[1, 0, 0], [1, 0, 0], [2, 0, 0], [0, 0, 0], [0, 2, 2], [1, 2, 2], [2, 2, 2], [4, 0, 2], [4, 2, 0], [4, 0, 0], [1, 0, 2], [2, 2, 0]])
                    tabs = [[x] * n for x in cs]
                h.joint(op, s, r, d1, p, [-1] * 3, tabs, b); h.joint(op, s, r, d2, p, cs, tabs, b); h.e(f"cmp cst {d1} {d2}")
            elif mirrored:
                d = rng.choice([x for x in DESTM[t[2]] if x in MIRROR])
                h.joint(op, s, r, d, p, cs, tabs, b); h.joint(op, MIRROR[s], MIRROR[r], MIRROR[d], p, cs, tabs, b); h.e(f"cmp set {d} {MIRROR[d]}")
            else:
                if mode != "fuse" and rng.random() < .15: cs = [h.cst(x, .4) for x in ro]
                h.joint(op, s, r, rng.choice((d1, d2)), p, cs, tabs, b, fuse=fz)
        if mode in ("keep", "fuse"):
            h.e("reref")
            for r in want:
                if rng.random() < .2: h.e(f"obs {r}")
        if mode == "eq":
            t = rng.choice([x for x in TYPES if h.live(x)]); h.clone(rng.choice(h.live(t)), rng.choice(TYPES[t]))
            h.e("eqm")
        if mode in ("census", "fuse"): h.e("census")
        # move on
        if mode not in ("fuse", "inst", "keep") and rng.random() < .5:
            t = rng.choice([x for x in TYPES if [r for r in h.live(x) if r in SRC[x]]]); s = src(t)
            if not mirrored: (h.ins(s, s, h.pick(s, .3), 1) if rng.random() < .5 else h.rem(s, s, h.pick(s, .9)))
    for r in sorted(want): h.e(f"obs {r}")
    if mode in ("census", "fuse"):
        rs = sorted(h.regs); rng.shuffle(rs)
        for r in rs:
            h.drop(r)
            if rng.random() < .3: h.e("census")
        h.e("census")
    return h.text()


MIRROR = {0: 12, 1: 13, 2: 14, 3: 15, 4: 16, 6: 17, 7: 18, 8: 19}
DESTM = {"A": (2, 3, 4), "B": (7, 8), "C": (10, 11)}
