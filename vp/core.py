"""Building, running the analyses, reporting."""
import os, sys, threading, json, subprocess, tempfile, shutil, time, glob, hashlib, re
from concurrent.futures import ThreadPoolExecutor, Future
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')
CLANG = '/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else 'clang++'
GXX = '/usr/bin/g++'
OPT = '/usr/bin/opt'
DIS = '/usr/bin/llvm-dis' if os.path.exists('/usr/bin/llvm-dis') else 'llvm-dis-18'
STD = '-std=c++1y'
JOBS = 8

class Broken(Exception):
    """The analysis itself cannot give an answer."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def build_tool(name):
    src = os.path.join(VERIF, 'engine', name + '.cpp')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, '%s-%s' % (name, tag))
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    r = sh([GXX, '-O3', '-std=c++17', '-w', '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if r.returncode: raise Broken('cannot build %s: %s' % (name, r.stderr[:2000]))
    os.rename(tmp, out)
    return out

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=BUILD)
        self.viol = []      # dicts
        self.known = []     # printed KNOWN-FINDING lines
        self.cov = {}       # coverage
        self.assume = []
        self.notes = []
        self.pool = ThreadPoolExecutor(JOBS); self.procs = ThreadPoolExecutor(JOBS)
        self.units = []; self.lock = threading.RLock(); self.bcs = {}
        self.functions = {}
        self.obligations = {}
        self.entries = []
        self.inconclusive = []
    thorough = property(lambda self: self.tier == 'thorough')
    def close(self):
        self.pool.shutdown(); self.procs.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)
    def violation(self, rule, where, detail, **kw):
        d = dict(rule=rule, at=where, detail=detail); d.update(kw)
        self.viol.append(d)
    # ------------------------------------------------------------ compiling
    def bc(self, src, defs=(), name=None, std=STD, extra=()):
        """source -> bitcode, through the front end, with SSA form (once per source and definitions)"""
        key = (src, tuple(defs), std, tuple(extra))
        with self.lock:
            mine = key not in self.bcs
            if mine: self.bcs[key] = Future()
            f = self.bcs[key]
        if mine:
            try: f.set_result(self._bc(src, defs, name, std, extra))
            except BaseException as e: f.set_exception(e)
        return f.result()
    def _bc(self, src, defs, name, std, extra):
        out = os.path.join(self.dir, (name or os.path.splitext(os.path.basename(src))[0]) + '-' + hashlib.md5(repr((src, defs)).encode()).hexdigest()[:8] + '.bc')
        r = sh([CLANG, std, '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-w', '-include', os.path.join(HARN, 'prelude.h'), '-I' + HARN, '-I' + os.path.join(REPO, 'include'),
                *['-D' + d for d in defs], *extra, '-emit-llvm', '-c', src, '-o', out])
        if r.returncode: raise Broken('cannot compile %s:\n%s' % (src, r.stderr[:3000]))
        r = sh([OPT, '-passes=sroa,mem2reg', out, '-o', out])
        if r.returncode: raise Broken('opt failed on %s: %s' % (src, r.stderr[:1000]))
        return out
    def lib_sources(self):
        s = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
        if not s: raise Broken('no library sources found under %s/src' % REPO)
        return s
    def lib(self):
        with self.lock:
          if not hasattr(self, '_lib'):
            srcs = self.lib_sources(); self.units += [os.path.relpath(x, REPO) for x in srcs]
            self._lib = [self.pool.submit(self.bc, s) for s in srcs]
        return [f.result() for f in self._lib]
    def engine(self):
        with self.lock:
            if not hasattr(self, '_eng'): self._eng = build_tool('absint')
        return self._eng
    # ------------------------------------------------------------ abstract interpretation
    def analyse(self, src, entries=None, defs=(), lib=True, args=(), emits=None, name=None, slices=1, slice_by='class', also=(), fallback=None):
        """Run the abstract interpreter over one harness: one process per entry and slice. Returns the merged records."""
        if not os.path.isabs(src): src = os.path.join(HARN, src)
        defs = tuple(defs) + (('THOROUGH',) if self.thorough else ())
        rt = self.pool_rt(); eng = self.engine()
        try: hb = self.bc(src, defs, name)
        except Broken:
            if fallback is None: raise
            defs = tuple(d for d in defs if d not in fallback); hb = self.bc(src, defs, name)
        files = [hb, rt, *also] + (self.lib() if lib else [])
        if entries is None: entries = sh([eng, hb, '--list']).stdout.split()
        if not entries: raise Broken('no entry in ' + src)
        rec = dict(entries=[], viol=[], stuck=[], emit=[], cover={}, functions=[], defs=defs)
        jobs = [(e, k) for e in entries for k in range(slices)]
        futs = [self.procs.submit(self._one, eng, files, e, k, slices, slice_by, args, emits) for e, k in jobs]
        per = {}; results = [f.result() for f in futs]
        state = sorted({g for r in results for g in r['written']})
        if state and lib and os.path.basename(src) != 'abstract.cpp' and 'ABSTRACT' not in defs:
            # the code keeps state between calls: once more, after each of some histories
            self.cov.setdefault('state_between_calls', []); self.cov['state_between_calls'] = sorted(set(self.cov['state_between_calls']) | set(state))
            try: wb = self.bc(os.path.join(HARN, 'warm.cpp'))
            except Broken as b: self.cov.setdefault('histories_skipped', []).append(str(b)[:300]); wb = None
            if wb and time.time() - self.t0 > 300: self.cov.setdefault('histories_skipped', []).append('no time left'); wb = None
            if wb:
                again = [(e, k, h) for h in range(4) for e, k in jobs]
                fs = [self.procs.submit(self._one, eng, [files[0], rt, *also, wb, *self.lib()], e, k, slices, slice_by, tuple(args) + ('--warm=vp_warm_%d' % h,), emits, ' after history %d' % h) for e, k, h in again]
                for (e, k, h), f in zip(again, fs):
                    r = f.result()
                    if r['stuck'] and not r['viol']: self.cov.setdefault('histories_skipped', []).append('%s after history %d: %s' % (e, h, r['stuck'][0].get('stuck') or r['stuck'][0].get('inconclusive'))); r['stuck'] = []
                    jobs.append((e, k)); results.append(r)
        for (e, k), r in zip(jobs, results):
            for d in r['entries']:
                m = per.setdefault(e, dict(entry=e, slices=0)); m['slices'] += 1
                for kk, v in d.items():
                    if kk == 'longest_path': m[kk] = max(m.get(kk, 0), v)
                    elif kk != 'entry': m[kk] = round(m.get(kk, 0) + v, 2)
            rec['viol'] += r['viol']; rec['stuck'] += r['stuck']; rec['emit'] += r['emit']
            for c, n in r['cover'].items(): rec['cover'][c] = rec['cover'].get(c, 0) + n
            for c, n in r['obl'].items(): self.obligations[c] = self.obligations.get(c, 0) + n
            rec['functions'] += r['functions']
        rec['entries'] = list(per.values())
        for d in rec['functions']: self.functions[d['function']] = '%s:%s' % (d['file'], d['line'])
        self.entries += [dict(e, harness=os.path.basename(src), defs=[d if len(d) < 300 else d[:200] + ' ...' for d in defs]) for e in rec['entries']]
        rec['wanted'] = set(re.findall(r'__vp_cover\("([^"]+)"\)', self._active(src, defs)))
        return rec
    def _one(self, eng, files, entry, k, slices, slice_by, args, emits, after=''):
        limit = 700 if self.thorough else 400
        if after: # a history: only as long as there is time
            limit = min(limit, int(560 - (time.time() - self.t0)))
            if limit < 5: return dict(entries=[], viol=[], stuck=[dict(inconclusive='no time left')], emit=[], cover={}, functions=[], obl={}, written=[])
        cmd = [eng, *files, '--entry=' + entry, *args, '--max-seconds=%d' % limit]
        if slices > 1: cmd += ['--slice=%d/%d' % (k, slices), '--slice-by=' + slice_by]
        with tempfile.TemporaryFile('w+', dir=self.dir) as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, text=True)
            rec = dict(entries=[], viol=[], stuck=[], emit=[], cover={}, functions=[], obl={}, written=[]); done = False
            for line in p.stdout:
                d = json.loads(line)
                if 'emit' in d:
                    d['entry_'] = entry + after
                    if emits: emits(d)
                    else: rec['emit'].append(d)
                elif 'begin' in d: pass
                elif 'entry' in d: rec['entries'].append(d)
                elif 'violation' in d: d['entry_'] = entry + after; rec['viol'].append(d)
                elif 'stuck' in d or 'inconclusive' in d: d['entry_'] = entry + after; rec['stuck'].append(d)
                elif 'cover' in d: rec['cover'][d['cover']] = d['count']
                elif 'obligation' in d: rec['obl'][d['obligation']] = d['count']
                elif 'function' in d: rec['functions'].append(d)
                elif 'written_global' in d:
                    if os.path.realpath(d['file']).startswith(os.path.realpath(REPO) + '/'): rec['written'].append('%s (%s)' % (d['written_global'], os.path.relpath(os.path.realpath(d['file']), os.path.realpath(REPO))))
                elif 'done' in d: done = True
            p.wait()
            if not done:
                ef.seek(0); raise Broken('the abstract interpreter ended early (%s) on %s: %s' % (p.returncode, entry, ef.read()[:1500]))
        return rec
    def _active(self, src, defs):
        """the part of the harness that these definitions select"""
        r = sh([CLANG, '-E', '-P', '-std=c++1y', *['-D' + d for d in defs], '-nostdinc', '-nostdinc++', '-x', 'c++', '-'],
               input='\n'.join(l for l in open(src).read().split('\n') if not l.startswith('#include')))
        return r.stdout if r.returncode == 0 else open(src).read()
    def pool_rt(self):
        return self.bc(os.path.join(HARN, 'rt.cpp'))
    def judge(self, rec, rule):
        """Turn engine records into violations / broken analysis."""
        for v in rec['viol']:
            self.violation(rule, v['repo_at'] or v['at'], v['violation'], inputs=v['inputs'], trace=v['trace'], entry=v['entry_'])
        for v in rec['stuck']:
            self.inconclusive.append('%s: %s at %s' % (v['entry_'], v.get('stuck') or v.get('inconclusive'), v['repo_at'] or v['at']))
        if not rec['viol']:
            for e in rec['entries']:
                if e['paths'] == 0 and not rec['stuck']: self.inconclusive.append('%s: no path was analysed' % e['entry'])
            for w in rec['wanted']:
                if not rec['cover'].get(w): self.inconclusive.append('situation never reached: %s' % w)
        return rec
    def harness(self, src, entries=None, defs=(), rule=None, **kw):
        return self.judge(self.analyse(src, entries, defs, **kw), rule or os.path.basename(src))
    def engine_cov(self):
        e = self.entries
        return dict(scenarios=len(e), abstract_states=sum(x['states'] for x in e), partitions=sum(x['partitions'] for x in e), longest_path=max([x.get('longest_path', 0) for x in e]),
                    paths=sum(x['paths'] for x in e), instructions_interpreted=sum(x['instructions'] for x in e),
                    obligations_discharged=sum(self.obligations.values()), obligations_by_kind=self.obligations,
                    loads_checked=sum(x['loads'] for x in e), stores_checked=sum(x['stores'] for x in e),
                    functions_analysed=len(self.functions), functions=sorted('%s (%s)' % (k[:110], os.path.relpath(v, REPO) if v.startswith(REPO) else v) for k, v in self.functions.items())[:60],
                    scenario_list=[dict(entry=x['entry'], defs=x['defs'], paths=x['paths'], states=x['states'], asserts=x['asserts'], seconds=x['seconds']) for x in e][:80])

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def finish(ctx, level, rule, samples=None, extra=None):
    cov = dict(explanation=rule)
    if ctx.entries: cov.update(ctx.engine_cov())
    if ctx.units: cov['translation_units'] = sorted(set(ctx.units))
    cov.update(ctx.cov)
    if extra: cov.update(extra)
    if samples: cov['samples'] = samples
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=ctx.assume,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w'), indent=1, default=str)
    for k in ctx.known: print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k))
    rc = 0
    if ctx.viol:
        rp = os.path.join(VERIF, 'evidence', ctx.pid + '.violation.json')
        json.dump(ctx.viol, open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        for v in ctx.viol[:8]:
            print('  %s: %s [%s]' % (v['at'], v['detail'], v['rule']))
            if v.get('inputs'): print('    inputs: ' + ', '.join('%s=%s' % (k, x.get('witness')) for k, x in v['inputs'].items()))
            if v.get('trace'): print('    path: ' + ' <- '.join(v['trace'][:5]))
        rc = 1
    elif ctx.inconclusive:
        for m in sorted(set(ctx.inconclusive))[:20]: print('NO ANSWER: ' + m)
        rc = 2
    else:
        print('property %s holds on everything analysed: %s' % (ctx.pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
    return rc
