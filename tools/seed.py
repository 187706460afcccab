#!/usr/bin/env python3
"""Development helper for the planted bugs in /verif/seeded (no check reads it).

  seed.py make SPEC.py ...     build seeded/<id>/ from spec files (see below)
  seed.py verify ID ...        apply in the scratch tree, build, run the tests, the demo (patched, and on /repo
                               unpatched) and the property's quick check; one summary line per bug

A spec file sets: id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ text), cfg='threads'|'serial',
flags='' (extra g++ flags).  Scratch tree: $SEED_TREE (default /tmp/t/sw/repo with ../build.sh and ../test.sh).
"""
import sys, os, json, subprocess, time, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = os.environ.get('SEED_TREE', '/tmp/t/sw/repo')
SW = os.path.dirname(TREE)
BASE = '14b0880'
DEMO = r'''#!/bin/bash
# exit 0 when the property holds on this input, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
cfg=@CFG@
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -w -g @FLAGS@ -I. -I_build/$cfg/config "$here/demo.cpp" -o "$tmp/demo" \
  -Wl,--start-group $(find _build/$cfg/spatialops -name 'lib*.a') -Wl,--end-group \
  -lboost_thread -lboost_system -lpthread || exit 98
cd "$tmp" && timeout 120 ./demo
'''

PRE = r'''
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <iostream>
#include <vector>
#include <cmath>
#include <stdexcept>
using namespace SpatialOps; using namespace SpatialOps::structured;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { ++bad; std::cout << "FAILED " << __LINE__ << ": " #c << std::endl; } } while (0)
template<class F> F make(IntVec n, GhostData g, bool bx = false, bool by = false, bool bz = false) {
  BoundaryCellInfo bc = BoundaryCellInfo::build<F>(bx, by, bz);
  return F(get_window_with_ghost(n, g, bc), bc, g, NULL, InternalStorage);
}
template<class F> void fill(F& f, double a = 1.0) {
  double v = a; for (typename F::iterator i = f.begin(); i != f.end(); ++i, v += 1.0) *i = v;
}
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(spec):
    g = {'PRE': PRE}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    MT = '/tmp/t/mk'
    sh('rm -rf %s; git clone -q /repo %s' % (MT, MT))
    for f, old, new in g['edits']:
        p = os.path.join(MT, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d matches in %s for: %s' % (g['id'], s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % MT).stdout
    sh('rm -rf %s' % MT)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(g['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO.replace('@CFG@', g.get('cfg', 'threads')).replace('@FLAGS@', g.get('flags', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    # removed lines must be original ones
    bad = []
    for f, old, new in g['edits']:
        txt = open(os.path.join('/repo', f)).read()
        l0 = txt[:txt.index(old)].count('\n') + 1
        l1 = l0 + old.rstrip('\n').count('\n')
        bl = sh('git -C /repo blame -L %d,%d -- %s' % (l0, l1, f)).stdout.splitlines()
        bad += [b for b in bl if not b.startswith('^' + BASE) and b.split()[0].lstrip('^')[:7] != BASE[:7]]
    print(g['id'], 'made', 'NON-ORIGINAL LINES:\n' + '\n'.join(bad) if bad else '')

def verify(i, skip_tests=False):
    d = os.path.join(V, 'seeded', i)
    m = json.load(open(d + '/meta.json'))
    res = []
    t0 = time.time()
    sh('git -C %s checkout -q -- .' % TREE)
    a = sh('git -C %s apply %s/patch.diff' % (TREE, d))
    if a.returncode: return i + ' APPLY-FAILED ' + a.stdout
    if not skip_tests:
        b = sh('bash %s/test.sh /tmp/t/seed_%s.json > /tmp/t/seed_%s.log 2>&1' % (SW, i, i))
        try:
            o = json.load(open('/tmp/t/seed_%s.json' % i))
            res.append('tests %d/%d' % (len(o['passed']), len(o['passed']) + len(o['failed'])))
        except Exception as e:
            res.append('tests? %s' % e)
    p = sh('timeout 300 bash %s/demo.sh' % d, cwd=TREE)
    res.append('patched-demo %d (%s)' % (p.returncode, (p.stdout.strip().splitlines() or [''])[-1][:100]))
    c = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    res.append('clean-demo %d%s' % (c.returncode, '' if c.returncode == 0 else ' (%s)' % c.stdout.strip()[-300:]))
    env = dict(os.environ, VF_REPO=TREE, VF_BUILD=os.environ.get('SEED_BUILD', '/tmp/t/sb'), VERIF_SEED='1', VERIF_TIER='quick')
    t1 = time.time()
    k = sh('python3 %s/check.py %s --tier quick' % (V, m['property']), env=env)
    open('/tmp/t/seed_%s.check' % i, 'w').write(k.stdout)
    v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
    res.append('check %d %s %.0fs' % (k.returncode, 'CAUGHT' if k.returncode == 1 and v and ('property=' + m['property']) in v[0] else 'MISSED', time.time() - t1))
    sh('git -C %s checkout -q -- .' % TREE)
    good = 'patched-demo 0' not in ' '.join(res) and 'clean-demo 0' in ' '.join(res) and (skip_tests or 'tests 142/142' in res[0])
    return '%s %s %s | %s | %.0fs' % (i, m['property'], 'VALID' if good else 'INVALID', ' ; '.join(res), time.time() - t0)

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for s in sys.argv[2:]:
            try: make(s)
            except SystemExit as e: print(e)
    else:
        st = '--skip-tests' in sys.argv
        for i in [x for x in sys.argv[2:] if not x.startswith('-')]:
            print(time.strftime('%H:%M'), verify(i, st), flush=True)
