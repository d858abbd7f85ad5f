#!/usr/bin/env python3
"""Run the trie model and write its reachable tries, one shortest construction each: spec/gen/tries<N>.txt
line: hashes (two slots per key) | steps: iK insert, rK remove, t#### transform (2 = removed)"""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
def parse(out, n):
    res = set()
    for l in out.splitlines():
        if not l.startswith('"TRIE '): continue
        j = json.loads(json.loads(l)[5:])
        h = " ".join("%d%d" % tuple(j["h"][str(k)]) for k in range(n))
        p = " ".join(x[0] + "".join(map(str, x[1:])) for x in j["p"])
        res.add(f"{h}|{p}")
    return "".join(x + "\n" for x in sorted(res))
def catalogue(n, meta):
    rc, out, gen, dist = core.tlc("TrieMC.tla", f"TrieEmit{n}.cfg", meta, workers=1, mem="3g")
    if rc != 0: raise core.ToolError("TrieEmit failed\n" + out[-2000:])
    return parse(out, n), dist
if __name__ == "__main__":
    for n in map(int, sys.argv[1:] or ["4", "5"]):
        text, d = catalogue(n, "/tmp/gentries")
        open(os.path.join(core.SPEC, "gen", f"tries{n}.txt"), "w").write(text)
        print(n, text.count("\n"), d)
