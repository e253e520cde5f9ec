#!/usr/bin/env python3
"""Plants a bug: mkseed.py SPEC.py ... ; each spec defines id, prop, file, old, new, needs, breaks, demo (C++ main).
Writes seeded/<id>/ after confirming that the demonstration passes without the change and fails with it, and that the named tests pass."""
import sys, os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = '/repo'
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -r "$d"' EXIT
clang++ -std=c++17 -I"$PWD" -O1 %s-w -o "$d/demo" "$here/demo.cc" || exit 98
timeout 120 "$d/demo"
'''
HEAD = '#include <cstdint>\n#include <cstdlib>\n#include <cstdio>\n#include <cstring>\n#include <cassert>\n#include <cmath>\n#include <iostream>\n#include <algorithm>\n#include <functional>\n#include <vector>\n'
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def make(s):
    w = tempfile.mkdtemp(prefix='seed'); c = w + '/r'
    try:
        sh('git -C %s archive HEAD | (mkdir %s && tar x -C %s)' % (REPO, c, c)); sh('git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm a', c)
        for f, o, n in ([(s['file'], s['old'], s['new'])] if 'file' in s else s['edits']):
            t = open(c + '/' + f).read(); k = s.get('nth', 0)
            if t.count(o) < 1 or (t.count(o) > 1 and 'nth' not in s): return 'pattern occurs %d times in %s' % (t.count(o), f)
            p = -1
            for _ in range(k + 1): p = t.index(o, p + 1)
            open(c + '/' + f, 'w').write(t[:p] + n + t[p + len(o):])
        d = sh('git diff', c).stdout; o = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(d); open(o + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo.cc', 'w').write(HEAD + s['demo'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        a = sh(o + '/demo.sh', REPO); b = sh(o + '/demo.sh', c)
        if a.returncode != 0: return 'demo fails on the unchanged tree: %d %s' % (a.returncode, a.stdout[-600:])
        if b.returncode == 0 or b.returncode >= 98 and b.returncode < 124: return 'demo passes with the change: %d %s' % (b.returncode, b.stdout[-600:])
        bad = []; ps = []
        for t in s.get('tests', []):
            ps.append((t, subprocess.Popen('clang++ -stdlib=libc++ -march=native -I.. -std=c++17 -O2 -fno-exceptions -fno-rtti -ffast-math -w %s.cc -o %s && timeout 170 env LD_PRELOAD=/tmp/seed.so VP_SEED=4 ./%s >/dev/null 2>&1' % (t, t, t), shell=True, cwd=c + '/tests')))
        for t, p in ps:
            if p.wait(): bad.append(t)
        return 'TESTS FAIL ' + ' '.join(bad) if bad else 'ok (demo with change: %d)' % b.returncode
    finally: shutil.rmtree(w)
def check(i, unit=None):
    m = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json'))); p = os.path.join(ROOT, 'seeded', i, 'patch.diff')
    sh('git -C %s apply %s' % (REPO, p))
    try: r = sh('timeout 900 python3 %s/check.py %s --tier quick' % (ROOT, m['property']))
    finally: sh('git -C %s checkout -- .' % REPO)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'NO ANSWER' in l or l.startswith('violation')]
    return "%s%d %s" % ("", r.returncode, v[0][:200] if v else r.stdout[-200:])
if __name__ == '__main__':
    sh('/usr/bin/clang++-18 -O2 -shared -fPIC -nostdlib++ /opt/vp/lib/seed.cc -o /tmp/seed.so')
    if sys.argv[1] == 'check':
        for i in sys.argv[2:]: print(i, check(i), flush=True)
    else:
        g = {}; exec(open(sys.argv[1]).read(), g); only = sys.argv[2:]
        for s in g['SEEDS']:
            if not only or s['id'] in only: print(s['id'], make(s), flush=True)
