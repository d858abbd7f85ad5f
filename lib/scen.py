"""Scenarios from the trie model: every reachable trie of spec/gen/tries<N>.txt (and every pair of them over the same
hashes), placed into real hash words, crossed with every answer of the callbacks.  A job is one of `K` chunks of that
space; all chunks together cover every trie, every pair and every answer at least once."""
import functools, itertools, os, random
import gen
from gen import Hist, CODES, SCODES, CONST, ROLES, JOINT, UNARY, A, CFG

GEN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "gen")


@functools.lru_cache(None)
def tries(n):
    """-> {layout: [(frozenset of keys, steps)]}"""
    out = {}
    for l in open(os.path.join(GEN, f"tries{n}.txt")):
        h, p = l.rstrip("\n").split("|")
        lay = tuple((int(x[0]), int(x[1])) for x in h.split())
        s = set()
        for x in p.split():
            if x[0] == "i": s.add(int(x[1:]))
            elif x[0] == "r": s.discard(int(x[1:]))
            else: s -= {i for i, c in enumerate(x[1:]) if c == "2"}
        out.setdefault(lay, []).append((frozenset(s), p.split()))
    return out


def units(n):
    """all (layout, index of a trie), in a fixed order"""
    t = tries(n)
    return [(lay, i) for lay in sorted(t) for i in range(len(t[lay]))]


def embed(rng, cfg, lay, extra=0, place=None, beside=None):
    """hashes for the layout's keys, plus `extra` more in other slots of the same branches;
    place: the two levels that separate them (top, span, last), else drawn; beside: at which of the two levels the extra
    ones part from the others (1: in another branch above, 2: in the same lower branch), else drawn"""
    bits, lb = CFG[cfg]
    levels = -(-bits // lb)
    width = [1 << min(lb, bits - l * lb) for l in range(levels)]
    n0, n1 = len({a for a, _ in lay}), max(len({b for a, b in lay if a == x}) for x in {a for a, _ in lay})
    ok = [(i, j) for i in range(levels) for j in range(i + 1, levels) if width[i] >= n0 and width[j] >= n1]
    x = rng.random()
    if place:
        m = max(p[1] for p in ok)
        l1, l2 = {"top": (0, 1), "span": (0, m), "last": max(p for p in ok if p[1] == m)}[place]
    elif x < .3: l1, l2 = 0, 1
    elif x < .5: l1, l2 = rng.choice([p for p in ok if p[0] == 0])
    elif x < .7:
        m = max(p[1] for p in ok); l1, l2 = rng.choice([p for p in ok if p[1] == m])
    else: l1, l2 = rng.choice(ok)
    # the level that separates least may be missing from the hash altogether: then it separates nothing
    fixed = [rng.randrange(w) for w in width]
    s0 = rng.sample(range(width[l1]), width[l1])
    s1 = {a: rng.sample(range(width[l2]), width[l2]) for a, _ in lay}
    if rng.random() < .35:  # the ends of the range: words of zeros and of ones, the first and the last child of a branch
        if rng.random() < .7: fixed = [0] * levels if rng.random() < .5 else [w - 1 for w in width]
        for s in (s0, *s1.values()):
            if rng.random() < .7:
                e = rng.choice([0, len(s) - 1]); i, j = s.index(e), rng.randrange(min(3, len(s)))
                s[i], s[j] = s[j], s[i]
    def word(a, b):
        h = 0
        for l in range(levels): h |= (a if l == l1 else b if l == l2 else fixed[l]) << (l * lb)
        return h
    hs = [word(s0[a], s1[a][b]) for a, b in lay]
    for _ in range(extra):
        a = n0 if beside == 1 and width[l1] > n0 else rng.randrange(n0 + 1) if not beside and width[l1] > n0 else rng.randrange(n0)
        if a < n0:
            used = len({b for x, b in lay if x == a})
            b = rng.randrange(used, width[l2]) if width[l2] > used else rng.randrange(used)
            hs.append(word(s0[a], s1[a][b]))
        else: hs.append(word(s0[rng.randrange(n0, width[l1])], rng.randrange(width[l2])))
    return hs


def build(h, d, steps, nk, bg=(), tvs=None, mirror=None):
    """emit the construction of one trie in register d"""
    h.new(d)
    if mirror is not None: h.new(mirror)
    for i in bg:
        tv = (h.num(), h.num()); h.ins(d, d, i, 1, tv=tv)
        if mirror is not None: h.ins(mirror, mirror, i, 1, tv=tv)
    for x in steps:
        if x[0] == "i":
            tv = (h.num(), h.num()); h.ins(d, d, int(x[1:]), 1, tv=tv)
            if mirror is not None: h.ins(mirror, mirror, int(x[1:]), 1, tv=tv)
        elif x[0] == "r":
            h.rem(d, d, int(x[1:]))
            if mirror is not None: h.rem(mirror, mirror, int(x[1:]))
        else:
            tab = [int(c) for c in x[1:]] + [0] * (h.n - nk)
            b, p = h.num(h.n), h.rng.randrange(2)
            h.un("tr", d, d, p, -1, tab, b)
            if mirror is not None: h.un("tr", mirror, mirror, p, -1, tab, b)


def derive(h, s, d, have, want, nk):
    """version of s that holds `want` instead of `have`, sharing the rest"""
    h.clone(s, d)
    gone = sorted(have - want); h.rng.shuffle(gone)
    if len(gone) > 1 and h.rng.random() < .3:
        tab = [2 if i in gone else 0 for i in range(h.n)]
        h.un("tr", d, d, h.rng.randrange(2), -1, tab); gone = []
    for i in gone: h.rem(d, d, i)
    for i in sorted(want - have): h.ins(d, d, i, 1)
    if have & want and h.rng.random() < .4: h.ins(d, d, h.rng.choice(sorted(have & want)), 1)


MIR = {0: 12, 1: 13, 2: 14, 3: 15, 4: 16, 6: 17, 7: 18, 8: 19}
DEST = {"A": (2, 3, 4), "B": (7, 8), "C": (10, 11), "SA": (14, 15, 16), "SB": (18, 19)}
PAIR = {"A": (4, 5), "B": (7, 8), "C": (10, 11), "SA": (15, 16), "SB": (18, 19)}
LEFT = {"A": 0, "SA": 12}
RIGHT = {"A": 1, "B": 6, "C": 9, "SA": 13, "SB": 17}


def joint(seed, kind, cfg, k, K, n=4, set_=False, mode="plain", full=False, extra=.3, sample=1.0, census=False, flags=""):
    """chunk k of K"""
    t = next(x for x in JOINT[kind] if (x[0][0] == "S") == set_)
    T = tries(n); U = units(n)
    order = list(range(len(U))); random.Random(f"{seed}:{kind}:{set_}:{mode}").shuffle(order)
    out = []
    ro = ROLES[kind]
    codes = [(SCODES if set_ or mode == "set" else CODES)[x] for x in ro]
    for u in order[k::K]:
        lay, ai = U[u]
        tr = T[lay]
        Ac, Ap = tr[ai]
        sizes = {}
        for c, _ in tr: sizes[c] = sizes.get(c, 0) + 1
        arank = sum(1 for c, _ in tr[:ai] if c == Ac)
        rng = random.Random(f"{seed}:{kind}:{set_}:{mode}:{cfg}:{u}")
        todo = list(range(len(tr))); rng.shuffle(todo)
        if sample < 1: todo = todo[:max(1, round(sample * len(tr)))]
        seen = {}
        for c0 in range(0, len(todo), 16):
            nx = rng.randint(1, 4) if rng.random() < extra else 0
            h = Hist(rng, cfg, f"scn_{kind}{'_set' if set_ else ''}_{mode}.{u}.{c0}", n + nx, embed(rng, cfg, lay, nx), flags)
            ex = range(n, n + nx)
            L, R = LEFT[t[0]], RIGHT[t[1]]
            bl, br = [i for i in ex if rng.random() < .6], [i for i in ex if rng.random() < .6]
            mi = mode == "set"
            build(h, L, Ap, n, bl, mirror=MIR[L] if mi else None)
            for bi in todo[c0:c0 + 16]:
                Bc, Bp = tr[bi]
                build(h, R, Bp, n, br, mirror=MIR[R] if mi else None)
                keys = [(0, i) for i in sorted(Ac & Bc)] + [(1, i) for i in sorted(Ac - Bc)] + [(2, i) for i in sorted(Bc - Ac)]
                M = 1
                for p, _ in keys: M *= len(codes[p])
                P = sizes[Ac] * sizes[Bc]
                brank = seen.get(Bc, 0); seen[Bc] = brank + 1
                pi = arank * sizes[Bc] + brank
                perm = (M * 5 // 8) | 1 if M > 1 else 1
                while M > 1 and __import__("math").gcd(perm, M) != 1: perm += 2
                rot = random.Random(f"{seed}:{lay}:{sorted(Ac)}:{sorted(Bc)}").randrange(M)
                idx = range(M) if full else [(rot + x * perm) % M for x in range(pi, max(M, P), P)][:max(1, round(sample * max(M, P) / P))] if sample < 1 else [(rot + x * perm) % M for x in range(pi, max(M, P), P)]
                idx = list(idx)
                # right operands of the same type are also derived from the left one, so that they share structure with it
                derived = t[0] == t[1] and not mi and rng.random() < .3
                if derived: idx += [None] + [rng.randrange(M) for _ in range(min(M, 4))]
                for cnt, a in enumerate(idx):
                    if a is None:
                        derive(h, L, R, Ac, Bc, n)
                        continue
                    tabs = [[rng.choice(codes[p]) for _ in range(h.n)] for p in range(3)]
                    for p, i in keys: tabs[p][i] = codes[p][a % len(codes[p])]; a //= len(codes[p])
                    cs = [-1, -1, -1]
                    par = rng.randrange(2)
                    b = h.num(3 * h.n)
                    if mode == "plain":
                        if rng.random() < .08:
                            for p in range(3):
                                if rng.random() < .5: cs[p] = rng.choice(CONST[ro[p]])
                        d = rng.choice(DEST[t[2]])
                        h.joint(kind, L, R, d, par, cs, tabs, b); h.follow(d, DEST[t[2]], .35)
                    elif mode == "par":
                        d1, d2 = PAIR[t[2]]
                        if rng.random() < .2:
                            for p in range(3):
                                if rng.random() < .5: cs[p] = rng.choice(CONST[ro[p]])
                        h.joint(kind, L, R, d1, 0, cs, tabs, b); h.joint(kind, L, R, d2, 1, cs, tabs, b); h.e(f"cmp par {d1} {d2}"); h.follow2("par", d1, d2)
                    elif mode == "flip":
                        d1, d2 = PAIR[t[2]]
                        tabs[0] = [x or rng.choice((1, 2)) for x in tabs[0]]
                        if rng.random() < .2: cs[0] = rng.choice((1, 2, 4))
                        h.joint(kind, L, R, d1, par, cs, tabs, b, fl=0); h.joint(kind, L, R, d2, par, cs, tabs, b, fl=1); h.e(f"cmp flip {d1} {d2}")
                    elif mode == "cst":
                        d1, d2 = PAIR[t[2]]
                        which = rng.randrange(1, 8)
                        for p in range(3):
                            if which >> p & 1: cs[p] = rng.choice(CONST[ro[p]]); tabs[p] = [cs[p]] * h.n
                        h.joint(kind, L, R, d1, par, [-1] * 3, tabs, b); h.joint(kind, L, R, d2, par, cs, tabs, b); h.e(f"cmp cst {d1} {d2}")
                    elif mode == "set":
                        d, dm = (rng.choice(DEST["C"]), rng.choice(DEST["SA"])) if t[2] == "C" else rng.choice([(x, MIR[x]) for x in DEST[t[2]] if x in MIR])
                        if rng.random() < .15:
                            for p in range(3):
                                if rng.random() < .5: cs[p] = rng.choice(CONST[ro[p]])
                        h.joint(kind, L, R, d, par, cs, tabs, b); h.joint(kind, MIR[L], MIR[R], dm, par, cs, tabs, b); h.e(f"cmp set {d} {dm}"); h.follow2("set", d, dm)
                    elif mode == "fuse": h.joint(kind, L, R, rng.choice(DEST[t[2]]), par, cs, tabs, b, fuse=-2)
                    if census and cnt % 8 == 7: h.e("census")
                if mode == "fuse" or rng.random() < .1: h.e(f"obs {L}"); h.e(f"obs {R}")
            if census: h.e("census")
            out.append(h.text())
    return "".join(out)


PLACES = ("top", "span", "last")


def corners(seed, kind, cfg, k, K, n=4, reps=1, answers=1, sample=1.0, flags=""):
    """every pair of key sets of every layout, with both deciding levels at the top, at the two ends and at the bottom of
    the hash, alone or with bystanders at either level: chunk k of K over (layout, left set, place); a trie and answers drawn for each"""
    T = tries(n)
    ro = ROLES[kind]
    todo = [(lay, a, pl, by, fr) for lay in sorted(T) for a in sorted({tuple(sorted(c)) for c, _ in T[lay]}) for pl in PLACES for by in (0, 1, 2) for fr in (1, 0)]
    random.Random(f"{seed}:corners:{kind}").shuffle(todo)
    out = []
    if sample < 1: todo = todo[:round(sample * len(todo))]
    for j, (lay, a, pl, beside, fresh) in list(enumerate(todo))[k::K]:
        rng = random.Random(f"{seed}:corners:{kind}:{cfg}:{j}")
        t = rng.choice(JOINT[kind] + JOINT[kind][:1])
        set_ = t[0][0] == "S"
        codes = [(SCODES if set_ else CODES)[x] for x in ro]
        by = {}
        for c, p in T[lay]: by.setdefault(tuple(sorted(c)), []).append(p)
        if fresh: by = {c: [p for p in ps if len(p) == len(c)] for c, ps in by.items()}  # built by insertions alone
        elif rng.random() < .5: continue
        # a bystander beside them in both maps makes both reach down to where the keys part
        nx = beside and rng.choice([1, 1, 2])
        h = Hist(rng, cfg, f"corner_{kind}.{j}", n + nx, embed(rng, cfg, lay, nx, pl, beside), flags)
        L, R = LEFT[t[0]], RIGHT[t[1]]
        build(h, L, rng.choice(by[a]), n, range(n, n + nx))
        for b in sorted(by):
            for _ in range(reps):
                build(h, R, rng.choice(by[b]), n, [i for i in range(n, n + nx) if i == n or rng.random() < .7])
                for _ in range(answers):
                    tabs = [[rng.choice(codes[p]) for _ in range(h.n)] for p in range(3)]
                    if rng.random() < .3:
                        f = [rng.choice(c) for c in codes]; tabs = [[c] * h.n for c in f]
                    cs = [rng.choice(CONST[ro[p]]) if rng.random() < .1 else -1 for p in range(3)]
                    d = rng.choice(DEST[t[2]])
                    h.joint(kind, L, R, d, rng.randrange(2), cs, tabs, h.num(3 * h.n)); h.follow(d, DEST[t[2]])
        h.e(f"obs {L}")
        out.append(h.text())
    return "".join(out)


def unary(seed, kind, cfg, k, K, n=5, types=None, mode="plain", extra=.3, sample=1.0, census=False, flags=""):
    T = tries(n); U = units(n)
    order = list(range(len(U))); random.Random(f"{seed}:{kind}:{mode}").shuffle(order)
    mine = order[k::K]
    if sample < 1: mine = mine[:max(1, round(sample * len(mine)))]
    out = []
    role = "f" if kind == "tr" else "m"
    group = []
    for j in range(0, len(mine), 1):
        lay, ai = U[mine[j]]
        Ac, Ap = T[lay][ai]
        rng = random.Random(f"{seed}:{kind}:{mode}:{cfg}:{mine[j]}")
        nx = rng.randint(1, 4) if rng.random() < extra else 0
        t = rng.choice(types or ([("A", "A"), ("A", "A"), ("B", "B"), ("SA", "SA")] if kind == "tr" else UNARY["tm"]))
        if mode == "set": t = ("A", "A") if kind == "tr" else ("A", "B")
        s = {"A": 0, "B": 6, "SA": 12, "SB": 17}[t[0]]
        set_ = t[0][0] == "S"
        h = Hist(rng, cfg, f"scn_{kind}_{mode}.{mine[j]}", n + nx, embed(rng, cfg, lay, nx), flags)
        build(h, s, Ap, n, [i for i in range(n, n + nx) if rng.random() < .6], mirror=MIR[s] if mode == "set" else None)
        codes = (SCODES if set_ or mode == "set" else CODES)[role]
        keys = sorted(Ac)
        alla = list(itertools.product(codes, repeat=len(keys)))
        if mode in ("par", "cst"): alla = rng.sample(alla, min(len(alla), 6))
        if mode == "fuse": alla = rng.sample(alla, min(len(alla), 2))
        for cnt, a in enumerate(alla):
            tab = [rng.choice(codes) for _ in range(h.n)] if rng.random() < .5 else [0] * h.n
            for i, c in zip(keys, a): tab[i] = c
            b, par = h.num(h.n), rng.randrange(2)
            if mode == "plain":
                d = rng.choice(DEST[t[1]])
                h.un(kind, s, d, par, -1, tab, b); h.follow(d, DEST[t[1]], .4)
            elif mode == "fuse": h.un(kind, s, rng.choice(DEST[t[1]]), par, -1, tab, b, fuse=-2)
            elif mode == "par":
                d1, d2 = PAIR[t[1]]; h.un(kind, s, d1, 0, -1, tab, b); h.un(kind, s, d2, 1, -1, tab, b); h.e(f"cmp par {d1} {d2}"); h.follow2("par", d1, d2)
            elif mode == "set":
                d = rng.choice([x for x in DEST[t[1]] if x in MIR]); h.un(kind, s, d, par, -1, tab, b); h.un(kind, MIR[s], MIR[d], par, -1, tab, b); h.e(f"cmp set {d} {MIR[d]}"); h.follow2("set", d, MIR[d])
            if census and cnt % 8 == 7: h.e("census")
        for c in CONST[role]:
            b, par = h.num(h.n), rng.randrange(2)
            if mode in ("plain", "fuse"): h.un(kind, s, rng.choice(DEST[t[1]]), par, c, [], b)
            elif mode == "cst":
                d1, d2 = PAIR[t[1]]; h.un(kind, s, d1, par, -1, [c] * h.n, b); h.un(kind, s, d2, par, c, [], b); h.e(f"cmp cst {d1} {d2}")
        h.e(f"obs {s}")
        if census: h.e("census")
        out.append(h.text())
    return "".join(out)


def points(seed, cfg, k, K, n=5, what="ir", extra=.3, sample=1.0, het=.15, census=False, flags="", mode="plain"):
    """every single-key operation on every trie: i insert (both modes), r remove, f find"""
    T = tries(n); U = units(n)
    order = list(range(len(U))); random.Random(f"{seed}:points:{what}:{mode}").shuffle(order)
    mine = order[k::K]
    if sample < 1: mine = mine[:max(1, round(sample * len(mine)))]
    out = []
    for u in mine:
        lay, ai = U[u]
        Ac, Ap = T[lay][ai]
        rng = random.Random(f"{seed}:points:{what}:{mode}:{cfg}:{u}")
        nx = rng.randint(1, 4) if rng.random() < extra else 0
        ty = rng.choice(["A", "A", "A", "B", "SA", "SA", "SB"]) if mode != "set" else "A"
        s = {"A": 0, "B": 6, "SA": 12, "SB": 17}[ty]
        h = Hist(rng, cfg, f"scn_points_{mode}.{u}", n + nx, embed(rng, cfg, lay, nx), flags)
        build(h, s, Ap, n, [i for i in range(n, n + nx) if rng.random() < .6], mirror=MIR[s] if mode == "set" else None)
        if mode == "keep": [h.e(f"keep {s} {i}") for i in sorted(h.regs[s])]
        ops = [(o, i) for i in range(h.n) for o in ("ik" if "i" in what else "") + ("r" if "r" in what else "") + ("f" if "f" in what else "")]
        rng.shuffle(ops)
        fuse = -2 if mode == "fuse" else -1
        for cnt, (o, i) in enumerate(ops):
            d = rng.choice(DEST[ty]); ht = int(rng.random() < het)
            if mode == "het":
                d1, d2 = PAIR[ty]; tv = (h.num(), h.num())
                if o in "ik": h.ins(s, d1, i, o == "k", 0, tv=tv); h.ins(s, d2, i, o == "k", 1, tv=tv)
                elif o == "r": h.rem(s, d1, i, 0); h.rem(s, d2, i, 1)
                else: h.find(s, i, 0); h.find(s, i, 1)
                h.e(f"cmp het {d1} {d2}")
            elif mode == "set":
                d = rng.choice([x for x in DEST[ty] if x in MIR]); tv = (h.num(), h.num())
                if o in "ik": h.ins(s, d, i, o == "k", ht, tv=tv); h.ins(MIR[s], MIR[d], i, o == "k", ht, tv=tv); h.e(f"cmp set {d} {MIR[d]}")
                elif o == "r": h.rem(s, d, i, ht); h.rem(MIR[s], MIR[d], i, ht); h.e(f"cmp set {d} {MIR[d]}")
                else: h.find(s, i, ht); h.find(MIR[s], i, ht); h.e(f"cmp set {s} {MIR[s]}")
            elif o in "ik": h.ins(s, d, i, o == "k", ht, fuse)
            elif o == "r": h.rem(s, d, i, ht, fuse)
            else: h.find(s, i, ht, fuse)
            if census and cnt % 6 == 5: h.e("census")
            if mode == "keep":
                if cnt % 5 == 4: h.e(f"obs {s}"); h.e("reref")
        h.e(f"obs {s}")
        if mode == "keep": h.e("reref")
        if census:
            h.e("census")
            for r in sorted(h.regs): h.drop(r)
            h.e("census")
        out.append(h.text())
    return "".join(out)


def emit(h, kind, t, L, R, mode, par, cs, tabs):
    """one joint operation in the given mode, then now and then an operation on what it made"""
    rng, n = h.rng, h.n
    b = h.num(3 * n)
    if mode in ("plain", "fuse"):
        d = rng.choice(DEST[t[2]])
        h.joint(kind, L, R, d, par, cs, tabs, b, fuse=-2 if mode == "fuse" else -1)
        if mode == "plain": h.follow(d, DEST[t[2]], .6)
    elif mode == "flip":
        d1, d2 = PAIR[t[2]]
        tabs[0] = [x or rng.choice((1, 2)) for x in tabs[0]]; cs[0] = cs[0] or 1
        h.joint(kind, L, R, d1, par, cs, tabs, b, fl=0); h.joint(kind, L, R, d2, par, cs, tabs, b, fl=1); h.e(f"cmp flip {d1} {d2}")
    elif mode == "par":
        d1, d2 = PAIR[t[2]]
        h.joint(kind, L, R, d1, 0, cs, tabs, b); h.joint(kind, L, R, d2, 1, cs, tabs, b); h.e(f"cmp par {d1} {d2}"); h.follow2("par", d1, d2)
    elif mode == "cst":
        d1, d2 = PAIR[t[2]]; ro = ROLES[kind]; cs = list(cs)
        which = rng.randrange(1, 8)
        for p in range(3):
            cs[p] = rng.choice(CONST[ro[p]]) if which >> p & 1 else -1
            if cs[p] >= 0: tabs[p] = [cs[p]] * n
        h.joint(kind, L, R, d1, par, [-1] * 3, tabs, b); h.joint(kind, L, R, d2, par, cs, tabs, b); h.e(f"cmp cst {d1} {d2}")
    elif mode == "set":
        d, dm = (rng.choice(DEST["C"]), rng.choice(DEST["SA"])) if t[2] == "C" else rng.choice([(x, MIR[x]) for x in DEST[t[2]] if x in MIR])
        h.joint(kind, L, R, d, par, cs, tabs, b); h.joint(kind, MIR[L], MIR[R], dm, par, cs, tabs, b); h.e(f"cmp set {d} {dm}"); h.follow2("set", d, dm)


def meets(seed, kind, cfg, k, K, reps=40, hists=6, mode="plain", census=False, flags=""):
    """chains against chains and entries: one to three full hashes of one to four keys each, every side holding some of
    them, at every depth at which two hashes can part; answers drawn per key"""
    out = []
    ro = ROLES[kind]
    for j in range(hists):
        rng = random.Random(f"{seed}:meets:{kind}:{mode}:{cfg}:{k}:{j}")
        nc = rng.choice([1, 2, 2, 2, 2, 3])
        size = [rng.choice([1, 2, 2, 3, 3, 4]) for _ in range(nc)]
        same = rng.random() < .7
        lay = [((0, c) if same else (c, 0)) for c in range(nc) for _ in range(size[c])]
        cls = [c for c in range(nc) for _ in range(size[c])]
        n = len(lay)
        nx = rng.randint(1, 3) if rng.random() < .25 else 0
        t = rng.choice([x for x in JOINT[kind] if x[0][0] != "S"] if mode == "set" else JOINT[kind] + JOINT[kind][:1])
        set_ = t[0][0] == "S"
        h = Hist(rng, cfg, f"meets_{kind}_{mode}.{k}.{j}", n + nx, embed(rng, cfg, lay, nx), flags)
        codes = [(SCODES if set_ or mode == "set" else CODES)[x] for x in ro]
        L, R = LEFT[t[0]], RIGHT[t[1]]
        mi = mode == "set"
        def side():
            cs = rng.sample(range(nc), rng.choice([1, 1, nc]))
            ids = []
            for c in cs:
                own = [i for i in range(n) if cls[i] == c]
                ids += own if rng.random() < .6 else rng.sample(own, rng.randint(1, len(own)))
            rng.shuffle(ids)
            gone = [i for i in range(n) if i not in ids and rng.random() < .1]
            return [f"i{i}" for i in gone + ids] + [f"r{i}" for i in gone]
        for rep in range(reps):
            if rep % 3 == 0: build(h, L, side(), n, [i for i in range(n, n + nx) if rng.random() < .5], mirror=MIR[L] if mi else None)
            if t[0] == t[1] and not mi and rng.random() < .15:
                h.clone(L, R)
                for _ in range(rng.randint(0, 2)):
                    if rng.random() < .5: h.ins(R, R, rng.randrange(n), 1)
                    else: h.rem(R, R, rng.randrange(n))
            else: build(h, R, side(), n, [i for i in range(n, n + nx) if rng.random() < .5], mirror=MIR[R] if mi else None)
            for _ in range(2):
                tabs = [[rng.choice(codes[p]) for _ in range(h.n)] for p in range(3)]
                for p in range(3):
                    if rng.random() < .2: tabs[p] = [rng.choice(codes[p])] * h.n
                cs = [rng.choice(CONST[ro[p]]) if rng.random() < .05 else -1 for p in range(3)]
                emit(h, kind, t, L, R, mode, rng.randrange(2) if mode != "par" else 0, cs, tabs)
            if census and rep % 5 == 4: h.e("census")
        h.e(f"obs {L}"); h.e(f"obs {R}")
        out.append(h.text())
    return "".join(out)
