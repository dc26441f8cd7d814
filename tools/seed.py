#!/usr/bin/env python3
"""Write and confirm planted bugs.

  seed.py make            write /verif/seeded/<id>/ for every entry of seeds_list.py
  seed.py try ID...       in a scratch copy of /repo: apply, build, run the tests,
                          run the demonstration both ways, run the check of its property
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BASE = '2f323e1'

DEMO_SH = '''#!/bin/bash
# run in the repository's root after a build; 0: behaves as it should
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
%s
rm -f "$tmp"/*
rmdir "$tmp"
exit $rc
'''
PLAIN = '''g++ -std=c++1y -g -pthread -Iinclude "$here/demo.cpp" _build/libu5e.a -o "$tmp/demo"
rc=$?
if [ $rc -eq 0 ]; then
  timeout 60 "$tmp/demo"
  rc=$?
fi'''

HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
using namespace u5e;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\n", #x); return 1; } } while (0)
static std::basic_string<int> u32(std::initializer_list<int> l) { return std::basic_string<int>(l.begin(), l.end()); }
'''


def load():
    ns = {}
    exec(open(os.path.join(HERE, 'seeds_list.py')).read(), ns)
    return [s for s in ns['SEEDS'] if not s.get('skip')]


def edit(root, s):
    if 'swap' in s:
        p = os.path.join(root, s['edits'][0][0]); L = open(p).read().split('\n'); k = L.index(s['swap'][0]); L[k], L[k + s['swap'][1]] = L[k + s['swap'][1]], L[k]
        open(p, 'w').write('\n'.join(L)); return
    for f, old, new in s['edits']:
        p = os.path.join(root, f)
        t = open(p).read()
        if old == '':
            t = t + new
        else:
            n = t.count(old)
            if n != 1:
                k = s.get('nth', {}).get(old)
                if k is None or n <= k:
                    raise SystemExit('%s: %d matches of %r in %s' % (s['id'], n, old, f))
                at = -1
                for _ in range(k + 1):
                    at = t.index(old, at + 1)
                t = t[:at] + new + t[at + len(old):]
            else:
                t = t.replace(old, new)
        open(p, 'w').write(t)


def make(s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seed/mk'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', '-C', REPO, 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '--shared', REPO, w], check=True)
    blame = {}
    edit(w, s)
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    removed = kept = 0
    f = None
    ln = 0
    for l in diff.splitlines():
        if l.startswith('--- '):
            f = l[6:]
            if f not in blame:
                blame[f] = subprocess.run(['git', '-C', REPO, 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            removed += 1
            if blame[f][ln - 1].lstrip('^').startswith(BASE): kept += 1
            ln += 1
        elif l.startswith(' '):
            ln += 1
    if removed and kept < removed:
        print(s['id'], 'changes %d lines, only %d of them original' % (removed, kept))
    if not removed:
        print(s['id'], 'adds lines only')
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO_SH % s.get('script', PLAIN))
    os.chmod(d + '/demo.sh', 0o755)
    if 'demo' in s:
        open(d + '/demo.cpp', 'w').write((HEAD if not s.get('nohead') else '') + s['demo'].lstrip('\n'))
    for n, c in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)


def sh(cmd, cwd=None, timeout=1200, env=None):
    e = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8')
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout + p.stderr


def build(w):
    return sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
              '-DCMAKE_PROJECT_u5e_INCLUDE=/opt/vp/cmake/apt_googletest.cmake && ninja -C _build', w)


def attempt(i, checks=None):
    d = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    w = '/tmp/seed/try_' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seed', exist_ok=True)
    sh('git clone -q --shared %s %s && ln -s %s/googletest/* %s/googletest/ 2>/dev/null' % (REPO, w, REPO, w))
    dd = '/tmp/seed/demo_' + i
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    out = []
    rc, o = build(w)
    if rc: return i, 'BASE BUILD FAILS ' + o[-300:]
    rc, o = sh('bash %s/demo.sh' % dd, w)
    out.append('demo clean=%d' % rc + ('' if rc == 0 else ' !!! ' + o[-300:]))
    rc, o = sh('git apply %s/patch.diff' % d, w)
    if rc: return i, 'PATCH FAILS ' + o
    rc, o = build(w)
    if rc: return i, 'PATCHED BUILD FAILS ' + o[-1500:]
    sh('python3 /opt/vp/run_cases.py %s/_build %s/c.txt && python3 /opt/vp/results.py %s/o.json lines:%s/c.txt' % (w, w, w, w))
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base['stable']
    got = json.load(open(w + '/o.json'))
    missing = [t for t in base if t not in got['passed']] if isinstance(base, list) else []
    out.append('tests %d/%d%s' % (len(got['passed']), len(base), ' !!! ' + str(missing[:4]) if missing else ''))
    rc, o = sh('bash %s/demo.sh' % dd, w)
    out.append('demo patched=%d%s' % (rc, ' !!!' if rc == 0 else ''))
    for c in checks or [meta['property']]:
        rc, o = sh('python3 check.py %s' % c, VERIF, env={'VERIF_REPO': w, 'VERIF_EVIDENCE': '/tmp/seed/ev_' + i})
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        out.append('%s rc=%d %s%s' % (c, rc, 'caught' if rc == 1 and v else 'MISSED !!!', '' if rc in (0, 1) else ' ' + o[-300:]))
    shutil.rmtree(w); shutil.rmtree(dd)
    return i, '; '.join(out)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        for s in load():
            if len(a) == 1 or s['id'] in a[1:]: make(s)
    else:
        ids = a[1:] or sorted(os.listdir(VERIF + '/seeded'))
        with ThreadPoolExecutor(4) as ex:
            res = []
            for i, r in ex.map(attempt, ids):
                print(i, r, flush=True); res.append((i, r))
        if len(a) == 1:
            p = VERIF + '/DESIGN.md'; t = open(p).read()
            rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
            for i, r in res:
                m = json.load(open(os.path.join(VERIF, 'seeded', i, 'meta.json')))
                rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['property'] if ' caught' in r and '!!!' not in r else 'NOT COUNTED: ' + r))
            b, e = t.index('<!-- SEEDS -->') + len('<!-- SEEDS -->\n'), t.index('<!-- /SEEDS -->')
            open(p, 'w').write(t[:b] + '\n'.join(rows) + '\n' + t[e:])
