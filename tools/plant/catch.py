#!/usr/bin/env python3
"""Run the check of its property against each planted bug (or the named ones), in /repo itself; restore the tree each time.
Prints caught / MISSED per bug, and updates tools/plant/caught.json."""
import json, os, subprocess, sys, time, re
V = "/verif"
tier = "quick"
args = [a for a in sys.argv[1:] if a not in ("thorough", "--missed")]
if "thorough" in sys.argv: tier = "thorough"
TAB = f"{V}/tools/plant/caught.json"
tab = json.load(open(TAB)) if os.path.exists(TAB) else {}
ids = args or sorted(os.listdir(f"{V}/seeded"))
if "--missed" in sys.argv: ids = [i for i in ids if not tab.get(i, {}).get("caught")]
assert not subprocess.run(["git", "-C", "/repo", "status", "--short", "-uno"], capture_output=True, text=True).stdout.strip(), "/repo is dirty"
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    prop = meta["property"]
    t0 = time.time()
    subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    try: r = subprocess.run(["python3", f"{V}/check.py", prop, tier], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER=tier))
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    m = re.search(r"(\d+) violations", r.stdout)
    n = int(m.group(1)) if m else -1
    cl = sorted(set(re.findall(r"^violated (.*) in ", r.stdout, re.M)))[:4]
    tab[i] = dict(property=prop, caught=caught, violations=n, clauses=cl, tier=tier)
    json.dump(tab, open(TAB, "w"), indent=1, sort_keys=True)
    print(f"{'caught' if caught else 'MISSED'} {i} {prop} rc={r.returncode} violations={n} {time.time()-t0:.0f}s {cl[:2]} {'' if r.returncode in (0,1) else r.stdout[-400:]}", flush=True)
