#!/usr/bin/env python3
"""Turns bugs.py entries into seeded/<id>/ after confirming each in a scratch copy of /repo:
builds, passes the stable tests, demo passes without and fails with the patch."""
import subprocess, os, sys, json, shutil, importlib.util, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
SC = '/tmp/plant'
def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
def scratch():
    if not os.path.isdir(SC):
        sh(f'cp -a /repo {SC}')
    sh('git checkout -q -- .', SC); sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', SC)
def edit(f, old, new, n=1, after=''):
    p = f'{SC}/{f}'; t = open(p).read()
    st = t.index(after)
    idx = [x.start() for x in re.finditer(re.escape(old), t) if x.start() >= st]
    if len(idx) < n: raise LookupError(f'no occurrence {n} of {old!r} in {f}')
    i = idx[n-1]; open(p, 'w').write(t[:i] + new + t[i+len(old):])
def tests():
    r = sh('cargo test --offline -q 2>&1', SC)
    return 'FAILED' not in r.stdout and 'error' not in r.stdout.lower().split('warning')[0] and r.returncode == 0, r.stdout
def main(ids):
    spec = importlib.util.spec_from_file_location('bugs', HERE + '/bugs.py'); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
    for bug in b.BUGS:
        i = bug['id']; d = f'{ROOT}/seeded/{i}'
        if ids and i not in ids: continue
        if not ids and os.path.isdir(d): continue
        scratch()
        w = f'/tmp/plantd/{i}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        shutil.copy(HERE + '/demo.sh', w); os.chmod(w + '/demo.sh', 0o755)
        shutil.copy(HERE + '/prelude.rs', w + '/prelude.rs')
        open(w + '/main.rs', 'w').write('mod prelude;\nuse prelude::*;\n' + USES + '\n' + bug['demo'].strip() + '\n')
        base = sh(w + '/demo.sh', SC)
        if base.returncode: print(i, 'DEMO FAILS ON BASE\n', base.stdout[-1500:]); continue
        try:
            for e in bug['edits']: edit(*e)
        except LookupError as x: print(i, x); continue
        open(w + '/patch.diff', 'w').write(sh('git diff', SC).stdout)
        ok, out = tests()
        if not ok: print(i, 'TESTS FAIL OR NO BUILD\n', '\n'.join(l for l in out.splitlines() if 'hard error' not in l and 'error' in l or 'FAILED' in l or 'panicked' in l)[:700]); continue
        r = sh(w + '/demo.sh', SC)
        if r.returncode == 0: print(i, 'DEMO PASSES WITH BUG'); continue
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(w + '/meta.json', 'w'), indent=1)
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(w, d)
        print(i, bug['prop'], 'kept:', [l for l in r.stdout.splitlines() if ('panicked' in l or l.strip().startswith(('left:', 'right:', 'assertion')) or 'error' in l) and '|' not in l and 'hard error' not in l][:3])
USES = """#[allow(unused_imports)]
use futures_executor::block_on;
#[allow(unused_imports)]
use hash_trie::{results::*, traits::*, transformations::*, HashTrieMap, HashTrieSet, ParallelismStrategy::{MiddleIndex, Sequential}};
#[allow(unused_imports)]
use std::{cell::RefCell, sync::atomic::Ordering::SeqCst, sync::Arc};
"""
main(sys.argv[1:])
