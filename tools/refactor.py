#!/usr/bin/env python3
"""refactor.py GROUP [ID...]: in a scratch copy of /repo, apply edits that keep the behaviour, build, run the tests, and run the checks: all must stay quiet."""
import os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
ns = {}; exec(open(os.path.join(HERE, 'refactor_list.py')).read(), ns)
def bmatrix():
    t = open(os.path.join(VERIF, 'harness', 'common.h')).read(); rows = t.split('bmatrix[18][19] = {')[1].split('};')[0].split('"')[1::2]
    return ', '.join(hex(sum(1 << i for i, c in enumerate(r) if c == '1')) for r in rows)
def apply(root, g):
    for f, old, new in ns['GROUPS'][g]:
        p = os.path.join(root, f); t = open(p).read() if os.path.exists(p) else ''
        new = new.replace('@ROWS@', bmatrix())
        if old == '': open(p, 'w').write(new); continue
        if isinstance(old, tuple):
            a = t.index(old[0]); b = t.index(old[1], a); b = b + len(old[1]) if old[1].strip() not in ('namespace u5e {', 'template <typename T') else b
            t = t[:a] + new + t[b:] if old[1].strip() not in ('namespace u5e {', 'template <typename T') else t[:a] + new + t[b + len(old[1]):]
        else:
            assert old in t, (f, old)
            t = t.replace(old, new)
        open(p, 'w').write(t)
def main():
    g = sys.argv[1]; root = '/tmp/rf/' + g
    subprocess.run(['rm', '-rf', root]); os.makedirs('/tmp/rf', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', root], check=True)
    apply(root, g)
    d = subprocess.run(['git', '-C', root, 'diff', '--stat'], capture_output=True, text=True).stdout; print(d)
    b = root + '/_b'
    r = subprocess.run('export CC=gcc CXX=g++; cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PROJECT_u5e_INCLUDE=/opt/vp/cmake/apt_googletest.cmake > /dev/null && ninja -C %s 2>&1 | tail -30 && cd %s && ctest 2>&1 | tail -5' % (root, b, b, b), shell=True, capture_output=True, text=True)
    print(r.stdout[-3000:], r.stderr[-2000:])
    if '100% tests passed' not in r.stdout: return 1
    ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 46)]
    bad = 0
    for c in ids:
        t0 = time.time()
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), c], env=dict(os.environ, VERIF_REPO=root), capture_output=True, text=True)
        note = ''
        if r.returncode: bad += 1; note = (r.stdout + r.stderr)[:1200]
        import json
        try: sk = json.load(open(os.path.join(VERIF, 'evidence', c + '.json')))['coverage'].get('abstract_skipped')
        except Exception: sk = None
        print('%s %s rc=%d %.0f s %s %s' % (g, c, r.returncode, time.time() - t0, 'skipped: %s' % sk if sk else '', note), flush=True)
    print('%s: %d not quiet' % (g, bad))
main()
